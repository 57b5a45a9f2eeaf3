"""The Python module against a plain model (C26)."""
import sys, os, gc, struct, ctypes, tempfile
import partio, pbt
from pymodel import *
try: live = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes; live.restype = ctypes.c_size_t
except AttributeError: live = None

def raises(c, what, f, *kinds):
    try: r = f()
    except kinds or Exception as e: return e
    raise pbt.Failure('%s is accepted and gives %r' % (what, r))

def bad_values(c, a):
    """what does not fit the attribute, and why"""
    ok = [1] * a.count; k = c.draw(7)
    if k == 0: return ok + [1] * c.range(1, 40), 'too many values'
    if k == 1: return ok[:-1], 'too few values'
    if k == 2: return c.pick([5, 2.5, None, object()]), 'no sequence'
    v = list(ok); i = c.draw(a.count)
    if k == 3: v[i] = c.pick(['x', None, (1,), b'y', 1j]); return v, 'a value of another kind'
    if k == 4 and a.type in INTS: v[i] = 1.5; return v, 'a float for an integer'
    if k == 5: v[i] = 2**70; return v, 'an integer that does not fit'
    return tuple(v[:-1]) + ((),), 'a tuple for a value'

def strings_op(c, S, fixed):
    pool = [a for a in (S.fixed if fixed else S.attrs) if a.type == partio.INDEXEDSTR]
    if not pool: return
    a = c.pick(pool); p = S.p; k = c.draw(3)
    reg, look, ren = (p.registerFixedIndexedStr, p.lookupFixedIndexedStr, p.setFixedIndexedStr) if fixed else (p.registerIndexedStr, p.lookupIndexedStr, p.setIndexedStr)
    s = c.pick(a.strings) if a.strings and c.chance(1, 3) else gen_str(c)
    if k == 0:
        i = reg(a.h, s); w = a.strings.index(s) if s in a.strings else len(a.strings)
        c.check(i == w, 'registering %r gives %s, not %d', s, i, w)
        if w == len(a.strings): a.strings.append(s)
    elif k == 1:
        i = look(a.h, s); w = a.strings.index(s) if s in a.strings else -1
        c.check(i == w, 'looking up %r gives %s, not %d', s, i, w)
    elif a.strings and s not in a.strings: j = c.draw(len(a.strings)); ren(a.h, j, s); a.strings[j] = s
    c.label('strings')

def search_op(c, S):
    """queries against brute force, on coordinates whose arithmetic is exact"""
    p = partio.create(); h = p.addAttribute('position', partio.VECTOR, 3); n = c.range(0, 60); pts = []
    if n: p.addParticles(n)
    for i in range(n): v = tuple(float(c.range(-8, 8)) for _ in range(3)); pts.append(v); p.set(h, i, v)
    p.sort()
    for _ in range(3):
        lo = [float(c.range(-9, 9)) for _ in range(3)]; hi = [x + c.range(0, 9) for x in lo]
        got = p.findPoints(tuple(lo), hi); want = [i for i, q in enumerate(pts) if all(l <= x <= u for l, x, u in zip(lo, q, hi))]
        c.check(type(got) is list and sorted(got) == want, 'box %r %r holds %r, not %r', lo, hi, got, want)
        k = c.range(1, 12); r = float(c.range(1, 12)) + .5; ctr = tuple(float(c.range(-9, 9)) for _ in range(3))
        got = p.findNPoints(ctr, k, r); d = sorted(sum((x - y)**2 for x, y in zip(q, ctr)) for q in pts); d = [x for x in d if x < r * r][:k]
        c.check(sorted(g[1] for g in got) == d, 'nearest %d of %r within %g have distances %r, not %r', k, ctr, r, sorted(g[1] for g in got), d)
        c.check(len({g[0] for g in got}) == len(got) and all(sum((x - y)**2 for x, y in zip(pts[g[0]], ctr)) == g[1] for g in got), 'nearest %d of %r: %r', k, ctr, got)
    bad = c.pick([(1.0, 2.0), (1.0,) * 4, (), (1.0,) * c.range(5, 200), ('a', 1.0, 2.0), 7, None])
    raises(c, 'a center %r' % (bad,), lambda: p.findNPoints(bad, 1, 1.0)); raises(c, 'a corner %r' % (bad,), lambda: p.findPoints((0., 0., 0.), bad)); raises(c, 'a corner %r' % (bad,), lambda: p.findPoints(bad, (0., 0., 0.)))
    c.label('queries')

def file_op(c, S):
    """through files and back; bgeo keeps everything a set with a position holds"""
    if not any(a.name == 'position' and a.type == partio.VECTOR for a in S.attrs):
        if 'position' in S.used: return
        S.add_attr(c, partio.VECTOR, 'position')
    f = c.path(c.pick(['f', 'é中', 'a b', 'x.pdb']) + '.bgeo' + c.pick(['', '', '.gz'])); 
    for a in S.attrs + S.fixed:       # an index without a string cannot be told from the outside, keep those that have one
        pass
    args = c.pick([(), (False,), (True,), (False, True), (True, False)]); partio.write(f, S.p, *args)
    with open(f, 'rb') as o: z = o.read(2) == b'\x1f\x8b'
    c.check(z == (f.endswith('.gz') or (len(args) > 0 and args[0])), 'writing with %r gives a file that is %scompressed', args, '' if z else 'not ')
    how = c.draw(5)
    if how == 0: q = partio.read(f)
    elif how == 1: q, m = partio.readVerbose(f); c.check(m == '', 'reading says %r', m)
    elif how == 2:
        q, m = partio.readCachedVerbose(f, False); c.check(m == '', 'reading says %r', m); srt = c.chance(1, 2); q2, _ = partio.readCachedVerbose(f, srt); del q; q = q2; gc.collect()
        if srt:
            ph = q.attributeInfo('position'); pts = [q.get(ph, i) for i in range(S.n)]; ok = all(abs(x) < 1e30 for r in pts for x in r); got = q.findPoints((-1e30,) * 3, (1e30,) * 3)
            if ok: c.check(sorted(got) == list(range(S.n)), 'a box around all %d particles of a set read as sorted holds %r', S.n, sorted(got)); c.label('sorted through the cache')
    elif how == 3: q = partio.read(f, False)
    else:
        h = partio.readHeaders(f) if c.chance(1, 2) else partio.readHeadersVerbose(f)[0]
        c.check((h.numParticles(), h.numAttributes(), h.numFixedAttributes()) == (S.n, len(S.attrs), len(S.fixed)), 'the headers say %r', (h.numParticles(), h.numAttributes(), h.numFixedAttributes()))
        got = sorted((h.attributeInfo(i).name, h.attributeInfo(i).type, h.attributeInfo(i).count) for i in range(len(S.attrs))); c.check(got == sorted((a.name, a.type, a.count) for a in S.attrs), 'the headers list %r', got)
        for a in S.fixed: g = h.fixedAttributeInfo(a.name); c.check((g.name, g.type, g.count) == (a.name, a.type, a.count), 'the headers say fixed %r', (g.name, g.type, g.count))
        q = partio.read(f)
    c.check(q is not None, 'the file cannot be read'); S.compare(c, q, 'what was read', order=False); del q; os.unlink(f)
    gone = c.path('missing.' + c.pick(['bgeo', 'pdb', 'geo', 'nope'])); c.check(partio.read(gone, False) is None and partio.readHeaders(gone, False) is None, 'a missing file is read')
    for g in (partio.readVerbose, partio.readHeadersVerbose, lambda x: partio.readCachedVerbose(x, True)): r = g(gone); c.check(type(r) is tuple and r[0] is None and r[1] != '', 'a missing file gives %r', r)
    c.label('files')

def said(f):
    """what a call prints, by the library too"""
    sys.stdout.flush(); sys.stderr.flush(); t = tempfile.TemporaryFile(); old = os.dup(1), os.dup(2); os.dup2(t.fileno(), 1); os.dup2(t.fileno(), 2)
    try: f(); sys.stdout.flush(); sys.stderr.flush()
    finally: os.dup2(old[0], 1); os.dup2(old[1], 2); os.close(old[0]); os.close(old[1])
    t.seek(0); r = t.read(); t.close(); return r

def talk_op(c, S):
    """messages are printed unless they are switched off"""
    f = c.path('not there') + '/x.' + c.pick(['prt', 'bin'])
    for what, g in (('read', lambda *a: partio.read(f, *a)), ('readHeaders', lambda *a: partio.readHeaders(f, *a)), ('write', lambda *a: partio.write(f[:-3] + 'bin', S.p, False, *a))):
        a, b, d = said(g), said(lambda: g(True)), said(lambda: g(False)); c.check(a != b'' and a == b, '%s of %s prints %r, and %r when asked for messages', what, f, a, b); c.check(d == b'', '%s of %s prints %r with messages off', what, f, d)
    for g in (partio.readVerbose, partio.readHeadersVerbose, lambda x: partio.readCachedVerbose(x, True)): d = said(lambda: g(f)); c.check(d == b'', 'a call that returns its messages prints %r', d)
    c.label('messages')

def clone_op(c, S):
    names = [a.name for a in S.attrs] + [a.name for a in S.fixed]; m = {}
    for n in set(names):
        if c.chance(1, 2): m[n] = 'M' + n + 'm'
    if c.chance(1, 4): m['not there'] = 'x'
    w = dict(m); how = c.draw(4)
    if how == 1: m = {k.encode(): v.encode() for k, v in m.items()}
    elif how == 2: m = {k: v.encode() for k, v in m.items()}
    elif how == 3: m = {k.encode(): v for k, v in m.items()}
    none = c.chance(1, 3); args = () if none and c.chance(1, 2) else (None,) if none else (m,); nm = (lambda x: x) if none else (lambda x: w.get(x, x))
    schema = Set.__new__(Set); schema.attrs = [Attr(a.name, a.type, a.count) for a in S.attrs]; schema.n = 0; schema.used = schema.fused = set(); schema.fixed = []
    which = c.draw(3)
    if which == 0: q = partio.clone(S.p, True, *args); S.compare(c, q, 'the copy', names=nm)
    elif which == 1:
        q = partio.clone(S.p, False, *args); schema.attrs = []; schema.fixed = S.fixed; schema.compare(c, q, 'the copy without particles', names=nm)
    else:
        q = partio.cloneSchema(S.p, *args); schema.compare(c, q, 'the copy of the schema', names=nm) if not S.fixed else c.check((q.numParticles(), q.numAttributes(), [q.fixedAttributeInfo(i).name for i in range(len(S.fixed))]) == (0, len(S.attrs), [nm(a.name) for a in S.fixed]), 'the copied schema differs')
    if c.chance(1, 2):      # changing the copy leaves the source alone, and the copy outlives other references
        if q.numParticles():
            for i in range(q.numAttributes()): h = q.attributeInfo(i); q.set(h, 0, [7] * h.count)
        q.addAttribute('later on', partio.INT, 1); q.addParticle()
    del q; c.label('copies')

def merge_op(c, S):
    """without identifiers all particles of the other set are added"""
    if c.chance(1, 2): return merge_ids(c)
    D = Set()
    for a in S.attrs:
        if a.type != partio.INDEXEDSTR: D.add_attr(c, a.type, a.name, a.count)
    if len(D.attrs) != len(S.attrs) or not D.attrs: return
    D.add_particles(c, c.range(1, 5)); partio.merge(S.p, D.p); D.compare(c, what='the other set')
    for a, b in zip(S.attrs, D.attrs): a.rows += b.rows
    S.n += D.n; c.label('merge')

def merge_ids(c):
    """particles with the same identifiers are replaced, others added"""
    two = c.chance(1, 2)
    def make(k):
        p = partio.create(); h = [p.addAttribute(n, partio.INT, 1) for n in ('k', 'l', 'v')]; rows = {}
        for _ in range(k): rows.setdefault((c.range(0, 6), c.range(0, 2)) if two else (c.range(0, 12), c.range(0, 2)), c.range(0, 1000))
        if not two: rows = {(a, b): v for a, (b, v) in {a: (b, v) for (a, b), v in rows.items()}.items()}
        for i, ((a, b), v) in enumerate(rows.items()): p.addParticle(); p.set(h[0], i, (a,)); p.set(h[1], i, (b,)); p.set(h[2], i, (v,))
        return p, [(a, b, v) for (a, b), v in rows.items()]
    p, want = make(c.range(0, 9)); q, more = make(c.range(0, 9)); key = (lambda r: r[:2]) if two else (lambda r: r[:1]); at = {key(r): i for i, r in enumerate(want)}
    for r in more:
        if key(r) in at: want[at[key(r)]] = r
        else: want.append(r)
    if two: partio.merge(p, q, 'k', 'l') if c.chance(1, 2) else partio.merge(p, q, 'l', 'k')
    else: partio.merge(p, q, 'k') if c.chance(1, 2) else partio.merge(p, q, 'k', '')
    got = [tuple(p.get(p.attributeInfo(n), i)[0] for n in ('k', 'l', 'v')) for i in range(p.numParticles())]
    c.check(got == want, 'merging by %s identifiers gives %r, not %r', 'two' if two else 'one', got, want); c.label('merge by identifiers')

class Seq:
    """a sequence that gives its first items only, or no length"""
    def __init__(self, n, k, x): self.n, self.k, self.x = n, k, x
    def __len__(self):
        if self.n is None: raise RuntimeError('no length')
        return self.n
    def __getitem__(self, i):
        if i >= self.k: raise c_error(i)
        return self.x
def c_error(i): return [RuntimeError('no item'), KeyError(i), ValueError('bad item')][i % 3]

def misuse_op(c, S):
    """calls that cannot do anything sensible raise an exception and leave the set alone"""
    p = S.p; k = c.draw(11); f = c.path('misuse.bgeo'); gone = c.path('misuse'); a = c.pick(S.attrs) if S.attrs else None; bad = c.pick(['\udc7f', 'x\ud800', '\udfff\udc00y', '\udd00'])
    if k == 0 and a and S.n:
        i = c.draw(S.n); s = Seq(c.pick([a.count, a.count, a.count, None]), c.draw(a.count), 1); raises(c, 'a sequence without item %d of %d' % (s.k, a.count), lambda: p.set(a.h, i, s)); v, w = gen_value(c, a); p.set(a.h, i, v); a.rows[i] = w
    elif k == 1 and S.fixed:
        g = c.pick(S.fixed); s = Seq(g.count, c.draw(g.count), 1); raises(c, 'a sequence without item %d of %d' % (s.k, g.count), lambda: p.setFixed(g.h, s)); v, w = gen_value(c, g); p.setFixed(g.h, v); g.rows[0] = w
    elif k == 2:
        s = Seq(c.pick([3, 3, 3, None, 16, 17, 2**40, -1]), c.range(0, 2), 1.0); o = (0., 0., 0.); raises(c, 'such a center', lambda: p.findNPoints(s, 1, 1.0)); raises(c, 'such a corner', lambda: p.findPoints(s, o)); raises(c, 'such a corner', lambda: p.findPoints(o, s))
    elif k == 3:
        for g in [lambda x: p.addAttribute(x, partio.INT, 1), lambda x: p.addFixedAttribute(x, partio.INT, 1), lambda x: p.attributeInfo(x), lambda x: p.fixedAttributeInfo(x)]: raises(c, 'the name None', lambda: g(None)); raises(c, 'the name %r' % bad, lambda: g(bad)); raises(c, 'the name 1.5', lambda: g(1.5))
    elif k == 4:
        for g in [partio.read, partio.readHeaders, partio.readVerbose, partio.readHeadersVerbose, lambda x: partio.readCachedVerbose(x, False), lambda x: partio.write(x, p)]: raises(c, 'the file name None', lambda: g(None)); raises(c, 'the file name %r' % bad, lambda: g(bad)); raises(c, 'the file name 7', lambda: g(7))
    elif k == 5:
        t = [x for x in S.attrs if x.type == partio.INDEXEDSTR]; u = [x for x in S.fixed if x.type == partio.INDEXEDSTR]
        for x in (None, bad, 7):
            for h in t: raises(c, 'the string %r' % (x,), lambda: p.registerIndexedStr(h.h, x)); raises(c, 'the string %r' % (x,), lambda: p.lookupIndexedStr(h.h, x)); raises(c, 'the string %r' % (x,), lambda: p.setIndexedStr(h.h, 0, x))
            for h in u: raises(c, 'the string %r' % (x,), lambda: p.registerFixedIndexedStr(h.h, x)); raises(c, 'the string %r' % (x,), lambda: p.lookupFixedIndexedStr(h.h, x)); raises(c, 'the string %r' % (x,), lambda: p.setFixedIndexedStr(h.h, 0, x))
    elif k == 6:
        n = -c.pick([1, 2, 3, 1000, 2**31]); raises(c, 'a negative size', lambda: p.addAttribute('negative', c.pick(list(T)), n)); raises(c, 'a negative size', lambda: p.addFixedAttribute('negative', c.pick(list(T)), n)); raises(c, 'a negative number', lambda: p.addParticles(n)); raises(c, 'a number too large', lambda: p.addParticles(2**c.range(31, 70))); raises(c, 'no number', lambda: p.addParticles(c.pick([None, 'x', 1.5])))
    elif k == 7:
        q = partio.create(); h = S.attrs[0].h if S.attrs else None
        for what, g in [('clone', lambda: partio.clone(None, True)), ('cloneSchema', lambda: partio.cloneSchema(None)), ('merge', lambda: partio.merge(None, p)), ('merge', lambda: partio.merge(p, None)), ('clustering', lambda: partio.computeClustering(None, 1, 1., 1., 1, 1.)), ('print', lambda: partio._print(None)), ('write', lambda: partio.write(f, None)), ('numParticles', lambda: partio.ParticlesInfo.numParticles(None)), ('sort', lambda: partio.ParticlesDataMutable.sort(None)), ('get', lambda: p.get(None, 0)), ('set', lambda: p.set(None, 0, (1,))), ('getFixed', lambda: p.getFixed(None)), ('indexedStrs', lambda: p.indexedStrs(None)), ('fixedIndexedStrs', lambda: p.fixedIndexedStrs(None)), ('lookup', lambda: p.lookupIndexedStr(None, 'x')), ('addParticle', lambda: partio.ParticlesDataMutable.addParticle(None))]: raises(c, '%s of None' % what, g)
        for x in (7, 'x', [], q.ptr()): raises(c, 'clone of %r' % (x,), lambda: partio.clone(x, True)); raises(c, 'merge with %r' % (x,), lambda: partio.merge(p, x)); raises(c, 'clustering of %r' % (x,), lambda: partio.computeClustering(x, 1, 1., 1., 1, 1.))
        for t in (partio.ParticlesInfo, partio.ParticlesData, partio.ParticlesDataMutable): raises(c, 'making an abstract set', t)
        for x in (5, 77, -1, 2**31 - 1): raises(c, 'the name of type %d' % x, lambda: partio.TypeName(x))
        c.check([partio.TypeName(x) for x in range(5)] == ['NONE', 'VECTOR', 'FLOAT', 'INT', 'INDEXEDSTR'], 'type names are %r', [partio.TypeName(x) for x in range(5)])
    elif k == 8:
        partio.write(f, p) if any(x.name == 'position' and x.type == partio.VECTOR for x in S.attrs) else partio.write(f, (lambda q: (q.addAttribute('position', partio.VECTOR, 3), q)[1])(partio.create()))
        hd = partio.readHeadersVerbose(f)[0] if c.chance(2, 3) else partio.readHeaders(f); h = hd.attributeInfo('position'); os.unlink(f)
        for what, g in [('get', lambda: hd.get(h, 0)), ('set', lambda: hd.set(h, 0, (1., 2., 3.))), ('indexedStrs', lambda: hd.indexedStrs(h)), ('addParticle', lambda: hd.addParticle()), ('findPoints', lambda: hd.findPoints((0.,) * 3, (1.,) * 3)), ('sort', lambda: hd.sort()), ('clone', lambda: partio.clone(hd, True)), ('write', lambda: partio.write(f, hd))]: raises(c, '%s of headers' % what, g)
        c.check(not os.path.exists(f), 'headers were written')
    elif k == 9:
        names = [x.name for x in S.attrs]
        for m in ({bad: 'x'}, {n: bad for n in names} or {'x': bad}): raises(c, 'the name map %r' % (m,), lambda: partio.clone(p, True, m)); raises(c, 'the name map %r' % (m,), lambda: partio.cloneSchema(p, m))
        for m in (7, 'x', [('a', 'b')]): raises(c, 'the name map %r' % (m,), lambda: partio.clone(p, True, m))
        q = partio.clone(p, True, {n: 'same' for n in names}); c.check(q.numAttributes() == min(1, len(names)) and q.numParticles() == S.n, 'a copy with one name for all has %d attributes and %d particles', q.numAttributes(), q.numParticles())
        if names:
            for i in range(S.n): v = q.get(q.attributeInfo(0), i); c.check(same(v, S.attrs[0].rows[i]), 'the copy holds %r, not %r', v, S.attrs[0].rows[i])
    elif S.n < 40 and all(0 <= x < len(t.strings) for t in S.attrs + S.fixed if t.type == partio.INDEXEDSTR for r in t.rows for x in r):
        partio.merge(p, p)
        for t in S.attrs: t.rows += t.rows
        S.n *= 2
    S.compare(c); c.label('misuse'); c.label('misuse %d' % k)

def leak_case(c):
    """what is created and dropped is freed"""
    if live is None: raise pbt.Discard('no allocator statistics')
    n = c.range(300, 800); kind = c.draw(6); S = Set(); S.add_attr(c, partio.VECTOR, 'position', 3); S.p.addParticles(n)
    f = c.path('leak.bgeo'); partio.write(f, S.p)
    g = [lambda: partio.read(f), lambda: partio.clone(S.p, True), lambda: partio.clone(S.p, True, {'position': 'P'}), lambda: partio.readCachedVerbose(f, True)[0], lambda: partio.readVerbose(f)[0],
         lambda: (lambda q: (q.addAttribute('x', partio.VECTOR, 3), q.addParticles(n)))(partio.create())][kind]
    for _ in range(3): g()
    gc.collect(); a = live()
    for _ in range(12): g()
    gc.collect(); b = live(); c.check(b - a < 6 * n * 12, 'twelve times creating and dropping a set of %d bytes leaves %d bytes behind (kind %d)', n * 12, b - a, kind)
    c.note('leak kind %d of %d particles' % (kind, n)); c.label('released when dropped'); c.nontrivial(('leak', kind, n))

def refs_case(c):
    """no call keeps objects, or memory, that nobody holds any more"""
    S = Set(); p = S.p
    for t in (partio.VECTOR, partio.FLOAT, partio.INT, partio.INDEXEDSTR): S.add_attr(c, t, 'a%d' % t)
    p.addAttribute('position', partio.VECTOR, 3); fx = [p.addFixedAttribute('f%d' % t, t, 3) for t in (partio.VECTOR, partio.FLOAT, partio.INT, partio.INDEXEDSTR)]; n = c.range(5, 40); p.addParticles(n); p.sort()
    h = [a.h for a in S.attrs]; st = h[3]; fst = fx[3]
    for i in range(5): p.registerIndexedStr(st, 'str%d' % i); p.registerFixedIndexedStr(fst, 'str%d' % i)
    def bad(f):
        try: f()
        except Exception: return
        raise pbt.Failure('a call that cannot be carried out gives no exception')
    num = 1000.5 + c.draw(1000); whole = 100000 + c.draw(1000); seq = (num,) * 3; junk = object(); part = (num, num, junk); half = num + .25; ipart = (whole, whole, half); hf = c.path('refs.bgeo'); partio.write(hf, p); key = 'a%d' % partio.VECTOR; key = ''.join(list(key)); val = 'other%d' % c.draw(1000); m = {key: val}; bkey = key.encode(); bval = val.encode(); bm = {bkey: bval}; stop = Seq(3, 2, num); text = 'text %d' % c.draw(1000); gone = c.path('gone.bgeo'); held = [junk, half, num, whole, seq, part, ipart, key, val, m, bkey, bval, bm, stop, text, gone, p, st, fst]
    calls = {'set': lambda: p.set(h[0], 0, seq), 'set integers': lambda: p.set(h[2], 0, (whole,) * h[2].count), 'set a bad value': lambda: bad(lambda: p.set(h[0], 0, part)), 'set what ends early': lambda: bad(lambda: p.set(h[0], 0, stop)), 'set too many': lambda: bad(lambda: p.set(h[0], 0, part + seq)),
        'set fixed': lambda: p.setFixed(fx[0], seq), 'set fixed integers': lambda: p.setFixed(fx[2], (whole,) * 3), 'set a bad fixed value': lambda: bad(lambda: p.setFixed(fx[0], part)), 'set a bad fixed integer': lambda: bad(lambda: p.setFixed(fx[2], ipart)),
        'get': lambda: [p.get(x, 0) for x in h], 'get fixed': lambda: [p.getFixed(x) for x in fx], 'get what is not there': lambda: bad(lambda: p.get(h[0], n)), 'strings': lambda: p.indexedStrs(st), 'fixed strings': lambda: p.fixedIndexedStrs(fst),
        'register': lambda: p.registerIndexedStr(st, 'str3'), 'look up': lambda: (p.lookupIndexedStr(st, text), p.lookupFixedIndexedStr(fst, text)), 'rename': lambda: (p.setIndexedStr(st, 1, text), p.setFixedIndexedStr(fst, 1, text)), 'nearest': lambda: p.findNPoints(seq, 5, 1e9), 'box': lambda: p.findPoints((-1e9,) * 3, (1e9,) * 3), 'a bad box': lambda: bad(lambda: p.findPoints(part, seq)), 'a bad center': lambda: bad(lambda: p.findNPoints(part, 1, 1.)), 'a short center': lambda: bad(lambda: p.findNPoints((num,), 1, 1.)), 'a center that ends early': lambda: bad(lambda: p.findNPoints(stop, 1, 1.)),
        'headers': lambda: [partio.readHeaders(hf).numParticles() for _ in range(3)], 'headers and message': lambda: partio.readHeadersVerbose(hf), 'file': lambda: (partio.read(hf), partio.readVerbose(hf), partio.readCachedVerbose(hf, True)),
        'handles': lambda: (p.attributeInfo('a1'), p.attributeInfo(0), p.fixedAttributeInfo('f1'), p.fixedAttributeInfo(0), p.attributeInfo(text)), 'handle out of range': lambda: (bad(lambda: p.attributeInfo(-1)), bad(lambda: p.fixedAttributeInfo(99))), 'clone': lambda: partio.clone(p, True), 'clone with names': lambda: partio.clone(p, True, m), 'clone with bytes': lambda: partio.clone(p, False, bm), 'copy the schema': lambda: partio.cloneSchema(p, m), 'missing file': lambda: (partio.read(gone, False), partio.readVerbose(gone), partio.readHeadersVerbose(gone), partio.readCachedVerbose(gone, True)), 'cluster': lambda: partio.computeClustering(CL, 2, 5., 1., 2, 1.), 'merge': lambda: partio.merge(MG, MG2, 'id')}
    CL = partio.create(); ph = CL.addAttribute('position', partio.VECTOR, 3); ih = CL.addAttribute('id', partio.INT, 1)
    for i in range(4): CL.addParticle(); CL.set(ph, i, (float(i), 0., 0.)); CL.set(ih, i, (i,))
    MG = partio.clone(CL, True); MG2 = partio.clone(CL, True)
    names = sorted(calls); name = c.pick(names); f = calls[name]; rounds = c.range(60, 150)
    for _ in range(3): f()
    gc.collect(); r0 = [sys.getrefcount(x) for x in held]; b0 = sys.getallocatedblocks(); l0 = live() if live else 0
    for _ in range(rounds): f()
    gc.collect(); b1 = sys.getallocatedblocks(); l1 = live() if live else 0; r1 = [sys.getrefcount(x) for x in held]
    c.check(r0 == r1, '%s %d times changes the number of references from %r to %r', name, rounds, r0, r1)
    c.check(b1 - b0 < rounds // 2, '%s %d times leaves %d blocks behind', name, rounds, b1 - b0); c.check(l1 - l0 < rounds * 8, '%s %d times leaves %d bytes behind', name, rounds, l1 - l0)
    c.note('references: %s' % name); c.label('references: ' + name); c.nontrivial(('refs', name, n, rounds))

def be(x): return struct.pack('>i', x)
def bytes_case(c):
    """strings that are not text"""
    k = c.range(1, 4); strs = [bytes(c.pick([0xff, 0xc3, 0x80, 0x41, 0xe4, 0xf0]) for _ in range(c.range(1, 6))) for _ in range(k)]; strs = list(dict.fromkeys(strs))
    def s(b): return struct.pack('>H', len(b)) + b
    def attr(name): return s(name) + struct.pack('>H', 1) + be(4) + be(len(strs)) + b''.join(map(s, strs))
    nm = bytes(c.pick([0xff, 0xe4, 0x41]) for _ in range(3)) if c.chance(1, 2) else b'name'; un = lambda b: b.decode('utf8', 'surrogateescape')
    d = b'BgeoV' + be(5) + be(1) + be(0) * 3 + be(1) + be(0) * 2 + be(1) + attr(nm) + struct.pack('>4f', 1, 2, 3, 1) + be(0) + attr(b'fixed') + be(0)
    f = c.path(un(b'\xe4b.bgeo') if c.chance(1, 2) else 'b.bgeo'); open(f, 'wb').write(d); p = partio.read(f); c.check(p is not None, 'the file %r cannot be read', f); h = p.attributeInfo(un(nm)); c.check(h is not None and h.name == un(nm), 'the attribute %r is not found', nm); g = p.fixedAttributeInfo('fixed'); os.unlink(f)
    for what, got in (('strings', p.indexedStrs(h)), ('fixed strings', p.fixedIndexedStrs(g))):
        c.check(len(got) == len(strs) and all(type(x) is str for x in got), '%s %r read as %r', what, strs, got)
        c.check([x.encode('utf8', 'surrogateescape') for x in got] == strs, '%s %r read as %r', what, strs, got)
    # what was given out is taken back
    for look in (lambda x: p.lookupIndexedStr(h, x), lambda x: p.lookupFixedIndexedStr(g, x)):
        for i, x in enumerate(strs): c.check(look(un(x)) == i, 'the string %r is not found at %d', x, i)
    q = partio.create(); a = q.addAttribute(un(nm), partio.INDEXEDSTR, 1); fa = q.addFixedAttribute(un(nm), partio.INDEXEDSTR, 1)
    for i, x in enumerate(strs): c.check(q.registerIndexedStr(a, un(x)) == i and q.registerFixedIndexedStr(fa, un(x)) == i, 'the string %r is not registered as %d', x, i)
    c.check(q.indexedStrs(a) == [un(x) for x in strs] and q.fixedIndexedStrs(fa) == [un(x) for x in strs] and q.attributeInfo(0).name == un(nm) and q.fixedAttributeInfo(un(nm)).name == un(nm), 'the strings %r do not come back', strs)
    c.note('strings %r' % strs); c.label('strings that are not UTF-8'); c.nontrivial(('bytes', strs))

def prop(c):
    k = c.draw(20)
    if k == 1: return leak_case(c)
    if k == 2: return bytes_case(c)
    if k == 3: return refs_case(c)
    S = Set(); ops = c.range(1, 25); kinds = set(); c.note('%d operations' % ops)
    for _ in range(ops):
        op = c.weighted([4, 2, 4, 5, 3, 3, 4, 2, 2, 1, 2, 2, 1, 1, 3, 1]); kinds.add(op)
        if op == 0 and len(S.attrs) < 8: S.add_attr(c)
        elif op == 1 and len(S.fixed) < 5: S.add_fixed(c)
        elif op == 2 and S.n < 60: S.add_particles(c, c.range(1, 9))
        elif op == 3 and S.n and S.attrs: a = c.pick(S.attrs); i = c.draw(S.n); v, w = gen_value(c, a); r = S.p.set(a.h, i, v); c.check(r is None, 'set gives %r', r); a.rows[i] = w
        elif op == 4 and S.n and S.attrs:
            a = c.pick(S.attrs); i = c.draw(S.n); v, why = bad_values(c, a); raises(c, 'for %s[%d], %s: %r' % (T[a.type], a.count, why, v), lambda: S.p.set(a.h, i, v)); v, w = gen_value(c, a); S.p.set(a.h, i, v); a.rows[i] = w; c.label('values that do not fit')
        elif op == 5 and S.attrs:
            a = c.pick(S.attrs); i = c.pick([S.n, S.n + 1, S.n + c.range(0, 1000), -1, 2**31, -2**31, 2**62]); raises(c, 'reading particle %d of %d' % (i, S.n), lambda: S.p.get(a.h, i), IndexError)
            try: S.p.set(a.h, i, gen_value(c, a)[0])
            except IndexError: pass
            raises(c, 'the attribute number', lambda: S.p.attributeInfo(c.pick([-1, len(S.attrs), len(S.attrs) + 5])), IndexError); raises(c, 'the fixed attribute number', lambda: S.p.fixedAttributeInfo(c.pick([-1, len(S.fixed), len(S.fixed) + 5])), IndexError)
            c.check(S.p.attributeInfo('no such one') is None and S.p.fixedAttributeInfo('no such one') is None, 'an attribute that is not there is found'); c.label('indices out of range')
        elif op == 6: strings_op(c, S, False)
        elif op == 7: strings_op(c, S, True)
        elif op == 8 and S.fixed:
            a = c.pick(S.fixed)
            if c.chance(1, 3): v, why = bad_values(c, a); raises(c, 'for fixed %s[%d], %s: %r' % (T[a.type], a.count, why, v), lambda: S.p.setFixed(a.h, v))
            v, w = gen_value(c, a); S.p.setFixed(a.h, v); a.rows[0] = w
        elif op == 9: search_op(c, S)
        elif op == 10: file_op(c, S)
        elif op == 11: clone_op(c, S)
        elif op == 12: merge_op(c, S)
        elif op == 14: misuse_op(c, S)
        elif op == 15: talk_op(c, S)
        else: S.compare(c)
    S.compare(c); c.note(S.describe())
    hs = [a.h for a in S.attrs]; d = S.digest(); want = [(a.name, a.type, a.count) for a in S.attrs]; del S.p; gc.collect()
    c.check([(h.name, h.type, h.count) for h in hs] == want, 'handles change when their set goes')
    if len(kinds) >= 3 and len(S.attrs): c.nontrivial(d)

if __name__ == '__main__': sys.exit(pbt.main('a history of at least three kinds of operations on a set with attributes, a set dropped again and again, or strings that are not text', prop))
