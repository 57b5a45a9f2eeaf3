# Table of the checks: which harness decides which property, and how much it explores.
# quick/thorough = (number of generated cases, time cap in seconds)
def part(h, q, t, variant='asan', **kw):
    return dict(h=h, quick=q, thorough=t, variant=variant, **kw)
CHECKS = {}
def check(pid, technique, note, parts=None, level='exploration', **kw):
    d = dict(technique=technique, level=level, level_note=note, **kw)
    if parts: d['parts'] = parts
    CHECKS[pid] = d

RT = 'property-based round trip with an independent decoder'
check('C01', 'stateful model-based testing against a reference table',
      'Random histories of up to 120 operations, compared with a plain model after every step; bounded by the generated sizes (at most 3000 particles, 40 attributes).',
      [part('table', (200000, 90), (1500000, 600))])
for pid, h, q in (('C05', 'fmt_bgeo', 25000), ('C06', 'fmt_geo', 20000), ('C07', 'fmt_pdb', 25000), ('C08', 'fmt_pda', 20000), ('C09', 'fmt_pdc', 30000),
                  ('C10', 'fmt_ptc', 30000), ('C11', 'fmt_prt', 30000), ('C12', 'fmt_bin', 30000)):
    check(pid, RT, 'Generated sets (up to 70000 particles, 70 attributes, string tables of more than 65535 entries) written, decoded by an independent decoder and read back; no bound is exhausted.',
          [part(h, (2 * q, 90), (3000000, 600))])
MB = 'stateful model-based testing against a reference table'
def one(pid, tech, note, h, q, t=5000000, **kw): check(pid, tech, note, [part(h, (2 * q, 90), (t, 600), **kw)])
one('C02', MB, 'Random sets and histories of walks, growth and attribute additions in both layouts; at most 5000 particles.', 'iter', 150000)
one('C03', MB, 'Random histories of up to 120 operations compared with a plain model after every step; at most 3000 particles, 40 attributes.', 'table_il', 100000)
one('C04', MB, 'Random histories of up to 150 operations over up to three attributes and two fixed attributes.', 'strings', 150000)
one('C13', 'property-based testing with an independent tokenizer of the output', 'Generated sets of up to 5000 particles; every value of the text is compared.', 'fmt_rib', 20000)
ENC = 'property-based testing of the readers over files from independent encoders'
one('C14', ENC, 'Files generated by independent encoders; a few hundred to three thousand particles at most.', 'foreign', 60000)
for pid, h in (('C31', 'foreign_prt'), ('C32', 'foreign_bin'), ('C33', 'foreign_ptc'), ('C34', 'foreign_mc'), ('C35', 'foreign_pts')):
    one(pid, ENC, 'Files generated by an independent encoder; at most 3000 particles.', h, 25000 if h == 'foreign_pts' else 60000)
BF = 'property-based differential testing against brute force'
one('C18', BF, 'Sets of up to 5000 points (now and then tens of thousands) of seven kinds, 4 to 8 boxes per sort, up to three sorts per set.', 'spatial', 60000)
one('C19', BF, 'Sets of up to 5000 points of seven kinds, 4 to 8 queries per sort, up to three sorts per set.', 'nearest', 60000)
one('C21', 'property-based testing: equality with the source, then independence under changes', 'Generated sets of up to 6000 particles in both layouts and generated name maps.', 'clone', 100000)
one('C22', 'property-based testing against a reference model of the merge', 'Generated pairs of sets of up to 400 particles and sets merged with themselves; identifiers repeated in the base are excluded.', 'merge', 60000)
one('C15', 'property-based differential testing of header and full reads', 'Files of every format from the writers and from independent encoders, up to 3000 particles.', 'headers', 80000)
one('C16', 'property-based metamorphic testing with zlib as the oracle', 'Sets of up to 20000 particles, files of a few hundred particles from independent encoders, every deflate strategy and gzip header field.', 'gz', 60000)
one('C17', 'property-based metamorphic testing across locales', 'Generated C++ locales; the C locale is de_DE.UTF-8, built on the spot, the only one exercised (left out if it cannot be built).', 'locale', 60000)
one('C20', MB, 'Histories of up to 60 steps over up to four files.', 'cached', 60000)
one('C23', 'property-based testing against a reference model of the construction', 'Sets of up to 150 particles; neighbours too close to call are only checked for order.', 'cluster', 60000)
check('C24', 'property-based testing with generated truncations and mutations of valid files',
      'Eight cuts per file, one to twelve changes per damaged file; requests for more than 400 MB at once are skipped and counted.',
      [part('truncate', (50000, 110), (1000000, 400)), part('mutate', (70000, 110), (2000000, 500))])
one('C25', 'property-based testing with fault injection (file size limits, unusable paths)', 'Sets of up to 200 particles; a full disk is simulated by a limit on the file size, other write errors are not.', 'errors', 80000)
one('C27', 'property-based metamorphic testing of the writers', 'Generated sets of up to 20000 particles; conversions between the formats that keep all of a set.', 'purity', 40000)
check('C28', 'property-based testing of generated concurrent programs under a race detector',
      'Two to six threads, at most eight operations each; schedules are those the kernel happens to choose, data races are found by ThreadSanitizer in whatever order they run.',
      [part('threads', (25000, 110), (1000000, 700), variant='tsan')])
one('C30', 'property-based round trip with independent encoder and decoder', 'Archives of up to 700 members.', 'zip', 40000)
one('C36', 'property-based testing of every writer and reader over unrestricted sets', 'Sets of up to 60 particles.', 'totality', 120000)
def py(pid, tech, note, h, q, t=400000): CHECKS[pid] = dict(technique=tech, level='exploration', level_note=note, cmd='pymod', pyparts=[dict(h=h, quick=(2 * q, 110), thorough=(t, 600), variant='asan, Python module')])
py('C26', 'stateful model-based testing of the Python module under AddressSanitizer', 'Histories of up to 25 operations on sets of up to about 60 particles.', 'py_binding', 24000)
py('C37', 'property-based round trip and differential testing of the JSON tool', 'Sets of up to 12 particles and 10 attributes, now and then of thousands of particles.', 'py_json', 30000)
one('C29', 'property-based differential testing of the tools against a listing of the set', 'Files of up to 600 particles and one to seven arguments.', 'tools', 60000)
NOT_APPLICABLE = {}
