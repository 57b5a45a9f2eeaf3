# Source of properties.jsonl (python3 gen.py writes it, together with MANIFEST.json).
PROPS = []
def prop(pid, title, statement, over, quant, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why, anchors=a))

C = 'src/lib/core/'; I = 'src/lib/io/'
API = 'src/lib/Partio.h'

prop('C01', 'A particle set is a table that keeps every value written to it',
     'After any sequence of adding attributes, fixed attributes and particles (one at a time or in bulk) and of writing values, a particle set made with create() reports exactly the attributes, types, sizes and number of particles that the sequence implies, under every lookup by name and by index, and every value written through any write access reads back bit for bit through every read access until it is overwritten, no matter what was added in between. Adding an attribute under a name already taken is refused and changes nothing, and reading or writing past the last particle has no effect on the stored values.',
     ['histories'], 'Every history of additions and writes, in any order, with any attribute types and sizes.',
     'The unit tests build two or three fixed sets in one fixed order (attributes first, then particles) and never grow a set after writing, so growth and interleaving of operations are not covered.',
     [C + 'ParticleSimple.cpp', C + 'ParticleSimple.h', API],
     [('per attribute blocks grown on demand', C + 'ParticleSimple.cpp addParticle/addParticles/addAttribute'), ('name to attribute index map', C + 'ParticleSimple.cpp attributeInfo'), ('duplicate name guard', C + 'ParticleSimple.cpp addAttribute/addFixedAttribute')],
     [('attribute data blocks', 'values of one attribute for all particles', C + 'ParticleSimple.h')], [API])

FMTWHY = 'The tests read a handful of checked in sample files and write one or two small sets; they never compare every value of generated sets with extreme sizes, types, names and values.'
prop('C05', 'BGEO files preserve a particle set exactly',
     'Writing a particle set that has a three component vector "position" to a .bgeo (or .bhclassic) file, compressed or not, and reading it back gives the same number of particles, the same attributes with their names, types and sizes (position first, the others in their order), bit for bit the same float and integer values, and the same string for every string valued entry. The bytes written are a valid big-endian BGEO version 5 file that denotes that same set.',
     ['inputs'], 'Every particle set with a position attribute, names and strings of up to 5000 arbitrary non-NUL bytes, any attribute sizes up to 20, any bit pattern in floats and ints, any number of particles up to tens of thousands, from both memory layouts.',
     FMTWHY, [I + 'BGEO.cpp', I + 'PartioEndian.h', I + 'io.h'],
     [('attribute table', I + 'BGEO.cpp writeBGEO'), ('attribute accessors and string maps', I + 'BGEO.cpp getAttributes/readBGEO'), ('endian conversion', I + 'PartioEndian.h')])
prop('C06', 'GEO text files preserve a particle set to printed precision',
     'Writing a particle set with a vector "position" and finite float values to a .geo (or .hclassic) file, compressed or not, and reading it back gives the same particles and attributes (position first), equal integers and strings (quotes and backslashes included), and floats equal to six significant digits. The text written is a valid GEO version 5 file denoting that set.',
     ['inputs'], 'Every particle set whose attribute names are non-blank words, with finite floats, any integers, strings of up to 5000 arbitrary non-NUL bytes, any attribute sizes up to 20.',
     FMTWHY, [I + 'GEO.cpp', I + 'io.h'],
     [('attribute description and escaping', I + 'GEO.cpp writeGEO'), ('tokens and strings', I + 'GEO.cpp scanString/getAttrs/readGEO'), ('numbers in the classic locale', I + 'io.h')])
prop('C07', 'PDB files preserve a particle set exactly, in 32 and 64 bit layouts',
     'Writing a particle set to .pdb32, .pdb64 or .pdb, compressed or not, and reading it back gives the same particles and the same float, vector and integer attributes bit for bit in their order, string valued attributes coming back as integers holding the string indices. A .pdb file of either layout is recognised by its content and read just the same.',
     ['inputs'], 'Every particle set, any attribute names without NUL, any sizes up to 20, any bit patterns, both layouts, both memory layouts.',
     FMTWHY, [I + 'PDB.cpp', I + 'pdb.h', I + 'readers.h'],
     [('channel headers and data blocks', I + 'PDB.cpp writePDBHelper/readPDBHelper'), ('detection of the pointer width', I + 'PDB.cpp readPDB')])
prop('C08', 'PDA text files preserve a particle set to printed precision',
     'Writing a particle set with finite float values to a .pda file, compressed or not, and reading it back gives the same particles and attributes in order: vectors keep their three values and floats their first to six significant digits, integers their first value exactly, and string valued attributes come back as integers holding the string index. The text written is a valid PDA file denoting that set.',
     ['inputs'], 'Every particle set whose attribute names are non-blank words, with finite floats and any integers, any attribute sizes up to 8.',
     FMTWHY, [I + 'PDA.cpp', I + 'io.h'], [('attribute and type lines', I + 'PDA.cpp writePDA'), ('token parsing', I + 'PDA.cpp readPDA')])
prop('C09', 'PDC files preserve the values of a particle set',
     'Writing a particle set to a .pdc file, compressed or not, and reading it back gives the same particles and attribute names in order, vectors with their three values and every other attribute with its first value, equal to the values written: floats exactly, and integers as the nearest float. The bytes are a valid big-endian PDC file holding those values as doubles.',
     ['inputs'], 'Every particle set, any attribute names without NUL, any sizes up to 8, any bit patterns (NaN stays NaN), both memory layouts.',
     FMTWHY, [I + 'PDC.cpp', I + 'PartioEndian.h'], [('typed channels of doubles', I + 'PDC.cpp writePDC/readPDC')])
prop('C10', 'PTC files preserve positions, radii, normals and float channels',
     'Writing a particle set with a vector "position" to a .ptc or .ptf file, compressed or not, and reading it back gives the same particles with position, radius (1 where the set has none) and every float or vector attribute of size 1, 3 or 16 bit for bit, and normals of unit length within the quantisation of the format (a zero normal stays zero, a set without normals reads zero normals). The header carries the exact bounding box and number of points.',
     ['inputs'], 'Every particle set with position and optional normal and radius, any float attributes, any bit patterns outside the normals, both memory layouts.',
     FMTWHY, [I + 'PTC.cpp'], [('octahedral-like normal encoding', I + 'PTC.cpp writePTC/readPTC'), ('variable specification', I + 'PTC.cpp ParseSpec/writePTC'), ('bounding box', I + 'PTC.cpp writePTC')])
prop('C11', 'PRT files preserve the numeric attributes of a particle set exactly',
     'Writing a set of at least one particle and one numeric attribute to a .prt file and reading it back gives the same particles and every numeric attribute in order, bit for bit, names with their first letter in lower case, float attributes of size 3 as vectors, string valued attributes left out. The bytes are a valid PRT version 1 file whose compressed body holds exactly those values.',
     ['inputs'], 'Every non-empty particle set, names up to 31 bytes and distinct after lowering the first letter, any sizes up to 20, any bit patterns.',
     FMTWHY, [I + 'PRT.cpp'], [('channel table', I + 'PRT.cpp writePRT/readPRT'), ('zlib body in blocks', I + 'PRT.cpp write_buffer/read_buffer')])
prop('C12', 'BIN files preserve the RealFlow attributes of a particle set exactly',
     'Writing a particle set to a .bin file and reading it back gives the same particles with all fifteen RealFlow attributes: those the set has bit for bit, the missing ones with their documented defaults (ids counting up from 0). The bytes are a valid version 11 RealFlow file with those values.',
     ['inputs'], 'Every particle set holding any subset of the RealFlow attributes in any order, with or without other attributes, any bit patterns.',
     FMTWHY, [I + 'BIN.cpp'], [('fixed record layout', I + 'BIN.cpp readBIN/writeBIN')])
prop('C02', 'Iterators and accessors show the same values as random access',
     'Iterating over a particle set, from the beginning or from any particle, with any number of accessors attached and by prefix or postfix increment, visits every particle from there on exactly once in order and then ends, and every accessor shows and stores exactly the value that random access gives for that particle and attribute. The iterator returned by a bulk addition visits exactly the particles added, and all of this holds in both memory layouts however the set was grown.',
     ['histories'], 'Every particle set of either layout, every start position, every choice and order of attributes, before and after growth and additions of attributes.',
     'The tests iterate over one freshly read set from its beginning, with prefix increment only.',
     ['src/lib/PartioIterator.h', C + 'ParticleSimple.cpp', C + 'ParticleSimpleInterleave.cpp', API],
     [('iterator positions and accessor chain', 'src/lib/PartioIterator.h ParticleIterator/ParticleAccessor'), ('base pointers per block', C + 'ParticleSimple.cpp setupIteratorNextBlock/setupAccessor'), ('record layout', C + 'ParticleSimpleInterleave.cpp setupIteratorNextBlock/setupAccessor')])
prop('C03', 'Interleaved particle sets behave exactly like separate ones',
     'After any sequence of adding attributes, fixed attributes and particles and of writing values, a particle set made with createInterleave() reports the same attributes, counts and values, refuses the same duplicate names and ignores the same out of range accesses as a plain table would, growing and adding attributes never disturbing a value already written.',
     ['histories'], 'Every history of additions and writes, in any order, with any attribute types and sizes.',
     'No test at all creates an interleaved set and grows it.',
     [C + 'ParticleSimpleInterleave.cpp', C + 'ParticleSimpleInterleave.h', API],
     [('records moved when attributes or particles are added', C + 'ParticleSimpleInterleave.cpp addAttribute/addParticle/addParticles'), ('attribute offsets', C + 'ParticleSimpleInterleave.cpp dataInternal/dataInternalMultiple')],
     [('record buffer', 'one block holding all attributes of each particle', C + 'ParticleSimpleInterleave.h')], [API])
prop('C04', 'String tables keep tokens and strings in agreement',
     'For every string valued attribute, per particle or fixed, in both layouts: registering a new string gives the next token, registering a known one gives a token that denotes it, the table lists exactly the strings registered at their tokens, and looking up a string gives a token that denotes it, or -1 when no token does. Renaming a token changes that token alone, the old string is then no longer found unless another token denotes it, and renaming a token that does not exist changes nothing.',
     ['histories'], 'Every history of registrations, renames and lookups, of any strings, over several attributes.',
     'The tests register two strings and rename one; they never rename to a string in use, rename twice, or look up the old string.',
     [C + 'ParticleSimple.cpp', C + 'ParticleSimpleInterleave.cpp', API],
     [('string to token map', C + 'ParticleSimple.cpp registerIndexedStr/setIndexedStr/lookupIndexedStr'), ('same for fixed attributes', C + 'ParticleSimple.cpp registerFixedIndexedStr/setFixedIndexedStr'), ('interleaved counterpart', C + 'ParticleSimpleInterleave.cpp setIndexedStr')])
prop('C13', 'RIB output lists every value of the particle set',
     'Writing a particle set to a .rib file, compressed or not, gives a well formed RIB Points primitive holding, for every attribute in order, all of its values as text that reads back as the same integers and as floats to six significant digits, the positions as P, radius as width, a constant width when there is none, and a motion block when there is a second position. A set without positions is refused with a message.',
     ['inputs'], 'Every particle set with finite floats, with any attributes, with or without second positions and widths.',
     FMTWHY, [I + 'RIB.cpp'], [('parameter list writer', I + 'RIB.cpp writeRIB')])
prop('C14', 'Houdini and Maya files from other programs read as what they denote',
     'A valid BGEO, GEO, PDB, PDA or PDC file that another program wrote, using any of the freedom the format leaves (primitives and their attributes, unquoted or escaped strings, white space, number notation, pointer values, channels of unknown type, padding), reads as exactly the particles, attributes, types, sizes, strings and values it denotes, compressed or not.',
     ['inputs'], 'Every file of the formats as produced by encoders written from the format descriptions, with up to thousands of particles.',
     'The tests read one checked in file per format and compare a few numbers of it.',
     [I + 'BGEO.cpp', I + 'GEO.cpp', I + 'PDB.cpp', I + 'PDA.cpp', I + 'PDC.cpp'],
     [('skipping of primitives', I + 'BGEO.cpp readBGEO'), ('token scanner', I + 'GEO.cpp readGEO'), ('channels', I + 'PDB.cpp readPDBHelper')])
prop('C18', 'Box queries return exactly the particles inside the box',
     'After sort(), asking for the particles in an axis aligned box adds to the result exactly the indices of the particles whose position lies inside or on the boundary of the box, each once, keeping what the result held before; sorting changes neither positions nor any other value of any particle.',
     ['inputs', 'histories'], 'Every particle set, duplicate, collinear and huge coordinates included, every box, and sets that grow or change and are sorted again.',
     'The test queries a handful of boxes over one regular grid.',
     [C + 'KdTree.h', C + 'ParticleSimple.cpp'], [('tree construction', C + 'KdTree.h sortSubtree/ComputeMedian'), ('range query', C + 'KdTree.h findPoints'), ('rebuild on sort', C + 'ParticleSimple.cpp sort')])
prop('C19', 'Nearest neighbour queries return the true nearest particles',
     'After sort(), asking for the N nearest particles within a radius of a point gives as many distinct particles as there are within the radius, at most N, no particle left out being nearer than one returned, each with its squared distance in the order of the result, and the squared search radius finally used is the squared radius given or, when N were found, the distance of the farthest of them. Both forms of the query give the same answer.',
     ['inputs', 'histories'], 'Every particle set with coordinates of any size and multiplicity, every query point, N and radius, any N (negative or larger than the set included), and sets that grow and are sorted again.',
     'The test asks for a few neighbours on one regular grid.',
     [C + 'KdTree.h', C + 'ParticleSimple.cpp'], [('heap of candidates', C + 'KdTree.h findNPoints/NearestQuery'), ('both forms', C + 'ParticleSimple.cpp findNPoints')])
prop('C21', 'A clone equals its source and shares nothing with it',
     'Cloning a particle set gives a new set with the same particles, attributes, fixed attributes, strings and values, in their order, with names changed as the name map says (the first of several given one name stays); cloning without particles keeps only the fixed attributes and their values, and cloning the schema keeps all attributes but no particles. The source is not changed, and whatever is done afterwards to either set, its release included, does not show in the other.',
     ['inputs', 'histories'], 'Every particle set of either layout and every name map, including maps that swap names, mention absent ones or give several attributes one name.',
     'The test clones one small set with one renamed attribute.',
     [C + 'Particle.cpp'], [('schema and attribute copies', C + 'Particle.cpp cloneSchema/clone')])
prop('C22', 'Merging replaces particles with equal identifiers and appends the others',
     'Merging a delta into a base leaves the base with its own attributes followed by those only the delta has, and with its own particles in order, where each particle of the delta replaces the values of the base particle with the same identifiers and is appended otherwise, or always when the identifiers are not usable in both. Values of an attribute that agrees in type and size are taken over exactly, strings by what they say, everything else of the base is kept, values nobody supplied are zero, and the delta is not changed.',
     ['inputs'], 'Every base with distinct identifiers and every delta, the base itself included, one, two, missing or unusable identifiers, attributes shared, disjoint or of different shape, both layouts.',
     'The tests merge two pairs of small sets with equal schemas.',
     [C + 'Particle.cpp'], [('identifier map and appended particles', C + 'Particle.cpp merge'), ('strings re-registered', C + 'Particle.cpp merge')])
prop('C31', 'PRT files with any channel types, order and padding read correctly',
     'A valid PRT file whose channels are of any of the eleven types and sizes, listed in any order relative to their place in the particle, with gaps, with longer headers and with longer channel descriptions, reads as those channels: floating point channels as the nearest floats, integer channels as their low 32 bits with the sign of the type, triples of floats as vectors.',
     ['inputs'], 'Every PRT file as described, with up to twenty channels of up to sixteen components.',
     'The test reads one checked in file.', [I + 'PRT.cpp'], [('conversion per type', I + 'PRT.cpp read_prt_buffer_uint32/float'), ('skipping of header and channel tails', I + 'PRT.cpp readPRT')])
prop('C32', 'RealFlow BIN files of every version read correctly',
     'A valid RealFlow .bin file of any version from 1 to 13 reads as all of its particles with exactly the attributes that version stores, bit for bit, whatever the header, trailing sections and particle values are.',
     ['inputs'], 'Every version, any number of particles, any values.', 'The test reads one checked in version 11 file.',
     [I + 'BIN.cpp'], [('record layout per version', I + 'BIN.cpp readBIN')])
prop('C33', 'PTC and PTF files of every version read correctly',
     'A valid little-endian .ptc or .ptf file of version 0, 1 or 2 reads, compressed or not, as all of its points with position, unit normal, radius and every channel of its variable list bit for bit, channels of type point, vector and normal as vectors, matrices as sixteen floats, and channels whose names are taken under a numbered name.',
     ['inputs'], 'Every version, any variable list with any order, names and repetitions, any values.', 'The test reads one checked in file.',
     [I + 'PTC.cpp'], [('header per version', I + 'PTC.cpp readPTC'), ('variable list', I + 'PTC.cpp ParseSpec'), ('normal decoding', I + 'PTC.cpp readPTC')])
prop('C34', 'Maya particle cache files read correctly',
     'A valid Maya .mc cache with any number of per particle channels, in any order and mixed with single value channels and channels of other types, reads, compressed or not, as its particles with ids and every channel of doubles or float vectors under its name without the shape prefix, with their values as floats exactly.',
     ['inputs'], 'Every cache of at least two particles with any channels, names and values.', 'The test reads one checked in file.',
     [I + 'MC.cpp'], [('channel scan', I + 'MC.cpp readMC'), ('names without the shape', I + 'MC.cpp GetAttribName')])
prop('C35', 'PTS scans read every complete line and skip the others',
     'A .pts file with lines of 3, 4, 6, 7 or 8 columns reads, compressed or not, as one particle for each line that has as many columns as the first, in order, numbered from 0, with position (second and third column exchanged), remission, quality and color taken from the columns of that layout, colors scaled to the unit range; other lines are skipped.',
     ['inputs'], 'Every column layout, any number of lines, any separators and line lengths, with or without a final line end.', 'The test reads one checked in file of one layout.',
     [I + 'PTS.cpp'], [('column layouts', I + 'PTS.cpp readPTS')])
prop('C15', 'Reading headers reports exactly what a full read gives',
     'For every readable file of every format, compressed or not, reading only the headers succeeds and reports the same number of particles and the same attributes and fixed attributes, in the same order, with the same names, types and sizes, as reading the whole file. Lookups by name and by index in the headers agree with that list, and attributes that do not exist are refused.',
     ['inputs'], 'Every file of every format, written by the library or by other programs, plain, compressed, with or without matching suffix.',
     'The tests compare the header of one sample file with two numbers.', [C + 'ParticleHeaders.cpp', I + 'ParticleIO.cpp', I + 'PTS.cpp', I + 'PDB.cpp'],
     [('header only branch of every reader', I + '*.cpp read* headersOnly'), ('set without data', C + 'ParticleHeaders.cpp')])
prop('C16', 'Compression changes nothing about a file but its bytes',
     'For the formats that can be compressed, a set written with compression (forced, or by a name ending in .gz) gives a valid gzip file that decompresses to the very bytes of the uncompressed file, and a valid gzip file made by any compressor, with any level and optional header fields, under a name with or without the suffix, reads exactly like the uncompressed file, which in turn may carry the suffix.',
     ['inputs'], 'Every set and file of every compressible format, sizes across the buffer boundaries, every gzip header option and deflate strategy.',
     'The tests write and read one small compressed file that the library itself produced.', [I + 'ZIP.cpp', 'src/lib/io/ZIP.h', I + 'io.h', I + 'ParticleIO.cpp'],
     [('inflate and deflate stream buffers', I + 'ZIP.cpp ZipStreambufDecompress/ZipStreambufCompress'), ('gzip header', I + 'ZIP.cpp GZipFileHeader'), ('choice by suffix and by content', I + 'ParticleIO.cpp extensionIgnoringGz')])
prop('C17', 'Files do not depend on the locale of the program',
     'Whatever global locale the program has set (decimal comma, grouped digits, other white space, in C and in C++), writing a particle set gives the same bytes as under the classic locale, and reading a file gives the same set.',
     ['inputs', 'environment'], 'Every set and file of every format, under generated C++ locales and a C locale with decimal comma.',
     'The tests only ever run under the classic locale.', [I + 'io.h', I + 'GEO.cpp', I + 'PDA.cpp', I + 'PTS.cpp', I + 'RIB.cpp', I + 'ZIP.cpp'],
     [('streams set to the classic locale', I + 'io.h'), ('number parsing of PTS', I + 'PTS.cpp readPTS')])
prop('C20', 'Cached reads share one object as long as anyone holds it',
     'While a file read through the cache is held by anyone, reading it through the cache again gives the same object with the contents it was loaded with, even if the file has changed or vanished meanwhile, and asking for a sorted set at any of these reads makes its spatial queries work from then on. After the last holder has released it the next cached read loads the file anew; a missing or damaged file gives nothing, without disturbing the other files, and ordinary reads never hand out the cached object.',
     ['histories'], 'Every history of cached and ordinary reads, releases, file changes, removals and damages over several files.',
     'The test reads one file twice and releases it.', [C + 'ParticleCaching.cpp', 'src/lib/core/Mutex.h', C + 'ParticleSimple.cpp'],
     [('reference counts per file name', C + 'ParticleCaching.cpp readCached/freeCached'), ('release of cached sets', C + 'ParticleSimple.cpp release')],
     [('cache maps', 'file to object and object to reference count', C + 'ParticleCaching.cpp')])
prop('C23', 'Clustering keeps the originals and adds instances between neighbours',
     'Clustering a set of particles with positions and distinct ids gives a new set with the same attributes plus a cluster id, holding each original particle unchanged with cluster id 0, each followed by its instances numbered from 1: for each of its first so many neighbours by id, among its nearest within the radius, as many instances as distance, density and falloff prescribe. Each instance lies on the line to that neighbour, with float values interpolated at that same place and other values copied from its particle, and the result does not depend on the order of the particles and leaves the source as it was.',
     ['inputs'], 'Every set of particles with distinct ids and any further attributes, every choice of neighbours, radius, inner radius, connections and density.',
     'The test only counts the particles clustering gives for one set.', [C + 'ParticleSimple.cpp', C + 'Particle.cpp', 'src/lib/Partio.h'],
     [('neighbour search and instances', C + 'ParticleSimple.cpp/Particle.cpp computeClustering'), ('random placement', 'src/lib/core/Particle.cpp drand')])
prop('C24', 'Truncated and damaged files are refused or read safely, never misread',
     'A file of any format cut off anywhere, compressed or not, is refused with a message, unless everything the whole file denotes is still there, and then it reads as just that; text formats may misread a number cut in the middle, and scans lose only the lines cut off. A file damaged in any way never crashes, hangs or exhausts the reader, a refusal comes with a message, what is read can be walked safely, and no memory or file descriptor stays behind.',
     ['inputs', 'faults'], 'Every prefix of valid files of all formats and sets of random byte, number, token and block changes of them, inside and outside of the compressed stream.',
     'The tests never read a damaged file.', ['src/lib/io/', C + 'ParticleSimple.cpp'],
     [('stream state checked after every block', 'src/lib/io/*.cpp read*'), ('declared sizes checked before use', 'src/lib/io/BGEO.cpp PDB.cpp PTC.cpp PRT.cpp MC.cpp'), ('end of the gzip stream', I + 'ZIP.cpp ZipStreambufDecompress::process')])
prop('C25', 'What cannot be done is refused, reported, and leaves other files alone',
     'Reading a missing file, a directory, or a file whose marks, version or kinds of attributes the reader of its format does not support, reading or writing under an extension no format claims, writing where no file can be made, writing a set without usable positions to a format that needs them, and writing where there is no room for all of the file each give a message on the stream the caller passed, and reads then give nothing (or, where only the primitives of a BGEO file are unknown, the points); with messages switched off nothing goes to that stream except for unclaimed extensions. Only the text after the last dot (ignoring a final gz) decides which format is used, whatever else the name or the content looks like. A refused write leaves no file behind and does not touch one that was there before, except when the room runs out.',
     ['inputs', 'faults'], 'Every format, file name, set, way of reading and writing, and every number of bytes that still fit.',
     'The tests open one missing file; no test runs out of room, offers an unsupported variant or checks the messages.',
     [I + 'ParticleIO.cpp', I + 'io.h', I + 'ZIP.cpp', I + 'BGEO.cpp', I + 'GEO.cpp', I + 'PTC.cpp', I + 'RIB.cpp', I + 'PDB.cpp', I + 'PRT.cpp', I + 'BIN.cpp'],
     [('extension dispatch', I + 'ParticleIO.cpp extensionIgnoringGz/read/write'), ('completion of files', I + 'io.h finish'), ('message or silence', 'the verbose and errorStream arguments')])
prop('C27', 'Writing is a pure function of the set',
     'Writing a set does not change it, and the bytes written depend only on its attributes, strings, fixed values and particles and on the format: the same bytes come out again, from a set with the same contents in the other memory layout, from a copy, from one built by another history of calls, and over a longer file that was there before. What was read from a file that holds the set, when written and read again, is the same, and converting it through another format that keeps it and back changes nothing.',
     ['inputs', 'histories'], 'Every set, format, memory layout, build history and file already present.',
     'The tests write each format once and never compare two writes.',
     [I + 'BGEO.cpp', I + 'GEO.cpp', I + 'PDB.cpp', I + 'PDA.cpp', I + 'PDC.cpp', I + 'PTC.cpp', I + 'PRT.cpp', I + 'BIN.cpp', I + 'RIB.cpp', C + 'ParticleSimple.cpp', C + 'ParticleSimpleInterleave.cpp'],
     [('uninitialized or leftover bytes', 'every writer'), ('truncation of existing files', I + 'io.h write')])
prop('C28', 'Independent use from several threads is safe and gives the same results',
     'Threads that read files (through the cache or not), write, query and copy one set that none of them changes, write values of different particles of one set, or build sets of their own each get exactly what they would get alone, without data races, deadlocks or crashes, also when they are the first to use the library in the process. Threads reading the same file through the cache at once share one object.',
     ['schedules', 'histories'], 'Every mix of such operations over two to six threads and every schedule.',
     'No test of the library uses more than one thread.',
     [C + 'ParticleCaching.cpp', 'src/lib/core/Mutex.h', I + 'ParticleIO.cpp', I + 'PTS.cpp', I + 'BGEO.cpp', C + 'ParticleSimple.cpp'],
     [('locks', C + 'ParticleCaching.cpp, ' + I + 'ParticleIO.cpp'), ('static buffers', 'readers and writers')])
prop('C30', 'Zip archives hold the files put into them',
     'Files written one after another into a zip archive can be listed and read back byte for byte in any order, and other programs that follow the zip format read the same from it. Archives from other programs, with stored or compressed members, sizes before or behind the data, extra fields, member and archive comments, and any content that may itself look like part of an archive, are listed and read likewise, and asking for a name that is not in the archive gives nothing.',
     ['inputs'], 'Every archive with any number, names and contents of members.',
     'No test covers archives.', [I + 'ZIP.h', I + 'ZIP.cpp'], [('central directory', I + 'ZIP.cpp Find_And_Read_Central_Header'), ('member streams', I + 'ZIP.cpp ZipStreambufCompress/Decompress')])
prop('C36', 'Any set can be offered to any format without harm',
     'Writing any set whatsoever to any format either gives a message, or a file that reads back with the same number of particles and, where the format stores positions, the same positions, however odd the names, types, component counts and values of its attributes are. The program neither crashes nor reads or writes outside its memory, and the set stays as it was.',
     ['inputs'], 'Every set in both memory layouts, including attributes with reserved names and unexpected shapes, and every format; for PRT sets with particles and names the format can tell apart.',
     'The tests write two well formed sets.',
     [I + 'BGEO.cpp', I + 'GEO.cpp', I + 'PDB.cpp', I + 'PDA.cpp', I + 'PDC.cpp', I + 'PTC.cpp', I + 'PRT.cpp', I + 'BIN.cpp', I + 'RIB.cpp'],
     [('reserved attribute names', 'every writer')])
prop('C26', 'The Python module shows the same sets and never crashes the interpreter',
     'Whatever sequence of calls a Python program makes, sets made, read, copied, merged, queried and written through the module hold exactly what a plain table would, values and strings of every kind passing in and out unchanged (strings that are not valid text in a reversible form). Values that do not fit the attribute, names and sets that are none and indices out of range are refused (by an exception, except that setting a particle that is not there only prints a message) and change nothing else, an unreadable file gives None, and whatever is no longer referenced is released.',
     ['inputs', 'histories'], 'Every sequence of calls of the module, with values, names and strings of every kind and size.',
     'The tests call each function once with values that fit and one or two that do not.',
     ['src/py/partio.i', C + 'ParticleSimple.cpp', 'src/lib/Partio.h'],
     [('conversion of values', 'src/py/partio.i get/set/getFixed/setFixed'), ('conversion of strings and vectors', 'src/py/partio.i typemaps'), ('ownership', 'src/py/partio.i %newobject')])
prop('C29', 'The command line tools show and convert exactly what a file holds',
     'For every readable file partinfo lists the number of particles, every attribute with type and size, and, as asked for, all or the chosen particles with every value, or the fixed attributes and the strings; partattr lists the values of an attribute for as many particles as asked for; partconvert and the print function list the set, and partconvert writes the very file that writing the set gives. A file that cannot be read, an attribute that does not exist or a wrong number of arguments gives a message and a non-zero exit status, and string tokens without a string are shown as such.',
     ['inputs'], 'Every file of every format and every command line.',
     'No test runs the command line tools.',
     ['src/tools/partinfo.cpp', 'src/tools/partattr.cpp', 'src/tools/partconvert.cpp', C + 'Particle.cpp'],
     [('command line and listing', 'src/tools/partinfo.cpp, src/tools/partattr.cpp, src/tools/partconvert.cpp'), ('listing of a set', C + 'Particle.cpp print')])
prop('C37', 'JSON descriptions of particle sets lose nothing',
     'Describing a particle set as JSON and making a set from that description, in memory or through a file, gives the same attributes, fixed attributes, strings and values; the partjson tool converts files accordingly, in both directions and compressed when asked. Entries of a description that fit no attribute or have a wrong number of values are skipped with a message while all others are kept, and what the tool cannot read or does not know is refused with a message and an exit status, without leaving a file.',
     ['inputs'], 'Every particle set, every description with entries that do not fit, and every command line.',
     'The test converts one file and compares two descriptions with each other.',
     ['src/tools/partjson.py', 'src/py/partio.i'],
     [('description', 'src/tools/partjson.py toJson/fromJson'), ('tool', 'src/tools/partjson.py main')])
