"""partjson: sets to JSON and back (C37)."""
import sys, os, io, json, copy
import partio, partjson, pbt
from pymodel import *

def grow(c, finite=False, nmin=0):
    S = Set()
    for _ in range(c.range(0, 5)): S.add_attr(c)
    for _ in range(c.range(0, 3)): S.add_fixed(c)
    if c.chance(1, 2): S.add_attr(c, partio.VECTOR, 'position') if 'position' not in S.used else None
    for fixed, pool in ((False, S.attrs), (True, S.fixed)):
        for a in pool:
            if a.type != partio.INDEXEDSTR: continue
            strs = [gen_str(c) for _ in range(c.range(0, 5))]
            if strs and c.chance(1, 4): strs = [strs[-1] + '_' * k for k in range(c.range(1, 3), 0, -1)] + strs
            for s in dict.fromkeys(strs):
                (S.p.registerFixedIndexedStr if fixed else S.p.registerIndexedStr)(a.h, s); a.strings.append(s)
            if len(a.strings) > 1 and c.chance(1, 6):   # renaming gives several indices the same string
                i, j = c.draw(len(a.strings)), c.draw(len(a.strings)); a.strings[i] = a.strings[j]; (S.p.setFixedIndexedStr if fixed else S.p.setIndexedStr)(a.h, i, a.strings[i]); c.label('strings with several indices')
            if fixed: v, w = gen_value(c, a); S.p.setFixed(a.h, v); a.rows[0] = w
    k = c.range(nmin, 12)
    if 0 < len(S.attrs) <= 2 and c.chance(1, 60): k = c.range(900, 2500); c.label("many particles")
    if k: S.add_particles(c, k)
    if finite:
        for a in S.attrs + S.fixed:
            for i, r in enumerate(a.rows):
                if any(isinstance(x, float) and (x != x or math.isinf(x)) for x in r):
                    a.rows[i] = tuple(0.5 if isinstance(x, float) and (x != x or math.isinf(x)) else x for x in r)
                    S.p.setFixed(a.h, a.rows[i]) if a in S.fixed else S.p.set(a.h, i, a.rows[i])
    return S

class Err:
    def __enter__(s): s.old = sys.stderr, sys.stdout; sys.stderr = s.e = io.StringIO(); sys.stdout = s.o = io.StringIO(); return s
    def __exit__(s, *a): sys.stderr, sys.stdout = s.old; s.text = s.e.getvalue(); s.out = s.o.getvalue()

def check_data(c, S, d):
    """the dictionary says what the set holds"""
    c.check({k: (v['type'], v['count']) for k, v in d.get('attributes', {}).items()} == {a.name: (a.type, a.count) for a in S.attrs}, 'the attributes are given as %r', d.get('attributes'))
    c.check({k: (v['type'], v['count']) for k, v in d.get('fixedAttributes', {}).items()} == {a.name: (a.type, a.count) for a in S.fixed}, 'the fixed attributes are given as %r', d.get('fixedAttributes'))
    c.check({k: list(v) for k, v in d.get('indexedStrings', {}).items()} == {a.name: a.strings for a in S.attrs if a.type == partio.INDEXEDSTR}, 'the strings are given as %r', d.get('indexedStrings'))
    c.check({k: list(v) for k, v in d.get('fixedIndexedStrings', {}).items()} == {a.name: a.strings for a in S.fixed if a.type == partio.INDEXEDSTR}, 'the fixed strings are given as %r', d.get('fixedIndexedStrings'))
    for a in S.fixed: c.check(same(tuple(d['fixedAttributes'][a.name]['value']), a.rows[0]), 'fixed %s is given as %r, not %r', a.name, d['fixedAttributes'][a.name]['value'], a.rows[0])
    ps = {int(k): v for k, v in d.get('particles', {}).items()}; c.check(sorted(ps) == list(range(S.n)), 'the particles given are %r', sorted(ps))
    for i in range(S.n):
        c.check(sorted(ps[i]) == sorted(a.name for a in S.attrs), 'particle %d has %r', i, sorted(ps[i]))
        for a in S.attrs: c.check(same(tuple(ps[i][a.name]), a.rows[i]), 'particle %d: %s is given as %r, not %r', i, a.name, ps[i][a.name], a.rows[i])

def through_json(c):
    S = grow(c); d = partjson.toJson(S.p); check_data(c, S, d); S.compare(c, what='the source'); text = json.dumps(d, sort_keys=c.chance(1, 2)); d2 = json.loads(text)
    with Err() as e: q = partjson.fromJson(d2)
    c.check(e.text == '', 'a complete description gives the message %r', e.text); S.compare(c, q, 'what came back', order=False)
    c.check(json.dumps(partjson.toJson(q), sort_keys=True) == json.dumps(d, sort_keys=True), 'the description of what came back differs'); c.label('through json'); return S, 'json'

def with_faults(c):
    """what does not fit is skipped with a message, everything else is kept"""
    S = grow(c, nmin=1); d = json.loads(json.dumps(partjson.toJson(S.p))); skipped = set(); said = 0
    for _ in range(c.range(1, 3)):
        k = c.draw(6); kind = None
        if k == 0 and S.attrs: i = c.draw(S.n); d['particles'][str(i)]['no such one'] = [1]; said += 1; kind = 'unknown attribute'
        elif k == 1 and S.attrs:
            a = c.pick(S.attrs); i = c.draw(S.n)
            if (a.name, i) in skipped: continue
            v = d['particles'][str(i)][a.name]; d['particles'][str(i)][a.name] = v + [1] if c.chance(1, 2) else v[:-1]; skipped.add((a.name, i)); said += 1; kind = 'wrong count'
        elif k == 2: d.setdefault('indexedStrings', {})['no such one'] = ['x']; said += 1; kind = 'strings without attribute'
        elif k == 3: d.setdefault('fixedIndexedStrings', {})['no such one'] = ['x']; said += 1; kind = 'fixed strings without attribute'
        elif k == 4 and S.fixed:
            a = c.pick(S.fixed)
            if (a.name, 'fixed') in skipped: continue
            v = d['fixedAttributes'][a.name]['value']; d['fixedAttributes'][a.name]['value'] = v + [1] if c.chance(1, 2) else v[:-1]; skipped.add((a.name, 'fixed')); said += 1; kind = 'wrong fixed count'
        elif k == 5 and S.attrs:
            a = c.pick(S.attrs); i = c.draw(S.n)
            if (a.name, i) in skipped: continue
            d['particles'][str(i)].pop(a.name); skipped.add((a.name, i)); kind = 'missing value'
        if kind: c.label(kind)
    with Err() as e: q = partjson.fromJson(d)
    if said: c.check(e.text != '', 'no message')
    # what was skipped holds nothing in particular
    for a in S.attrs:
        h = q.attributeInfo(a.name); c.check(h is not None, 'attribute %s is missing', a.name)
        for i in range(S.n):
            if (a.name, i) in skipped: q.set(h, i, a.rows[i])
    for a in S.fixed:
        if (a.name, 'fixed') in skipped: q.setFixed(q.fixedAttributeInfo(a.name), a.rows[0])
    S.compare(c, q, 'what came back', order=False); return S, ('faults', len(skipped), said)

def run_main(args):
    old = sys.argv; sys.argv = ['partjson'] + args; rc = 0
    try:
        with Err() as e:
            try: partjson.main()
            except SystemExit as x: rc = 0 if x.code is None else x.code if isinstance(x.code, int) else 1
    finally: sys.argv = old
    return rc, e.text, e.out

def tool(c):
    ext = c.pick(['bgeo', 'bhclassic', 'geo', 'ptc', 'pdb']); S = grow(c, finite=ext == 'geo')
    if not any(a.name == 'position' and a.type == partio.VECTOR for a in S.attrs):
        if 'position' in S.used: raise pbt.Discard('position of another type')
        S.add_attr(c, partio.VECTOR, 'position')
        if ext == 'geo': 
            a = S.attrs[-1]; a.rows = [(0.0, float(i), 1.5) for i in range(S.n)]
            for i, r in enumerate(a.rows): S.p.set(a.h, i, r)
    direct, j, out = c.path('direct.' + ext), c.path('a.json'), c.path('out.' + ext); partio.write(direct, S.p, False, False); ref = partio.read(direct, False)
    if ref is None: raise pbt.Discard('not for this format')
    flags = [f for f in ('-v', '--verbose', '-c', '--compress') if c.chance(1, 6)]; gz = '-c' in flags or '--compress' in flags
    def line(*fs): a = list(fs); [a.insert(c.draw(len(a) + 1), f) for f in flags]; return a
    way = c.draw(4); c.note('partjson %s, way %d, %s' % (ext, way, ' '.join(flags)))
    if way == 0:     # to json: the description of what a read gives
        rc, err, _ = run_main(line(direct, j)); c.check(rc == 0, 'partjson ends with %s: %s', rc, err); c.check(json.load(open(j)) == json.loads(json.dumps(partjson.toJson(ref))) or 'nan' in repr(partjson.toJson(ref)), 'the JSON file is not what the set holds')
        d = json.load(open(j)); R = model_of(c, ref); check_data(c, R, d)
    elif way == 1:   # from json: what writing the set gives
        json.dump(partjson.toJson(S.p), open(j, 'w')); rc, err, _ = run_main(line(j, out)); c.check(rc == 0, 'partjson ends with %s: %s', rc, err); c.check(os.path.exists(out), 'no file was written')
        c.check((open(out, 'rb').read(2) == b'\x1f\x8b') == gz, 'the output is %scompressed', '' if not gz else 'not '); R = model_of(c, ref); R.compare(c, partio.read(out, False), 'what the written file holds', order=False)
        if gz: c.label('compressed')
    elif way == 2:   # there and back again
        rc, err, _ = run_main(line(direct, j)); c.check(rc == 0, 'partjson ends with %s: %s', rc, err); rc, err, _ = run_main(line(j, out)); c.check(rc == 0, 'partjson ends with %s: %s', rc, err)
        R = model_of(c, ref)
        if ext in ('ptc',): R.attrs = [a for a in R.attrs]
        R.compare(c, partio.read(out, False), 'what came back', order=False)
    else:            # what cannot be done ends with an error and leaves no file
        bad = c.draw(7); other = c.path('b.json')
        args = [[c.path('missing.bgeo'), j], [c.path('missing.json'), out], [direct], [direct, j, out], [], [c.path('x.txt'), j], None][bad]
        if bad == 5: open(c.path('x.txt'), 'w').write('x')
        if bad == 6: open(c.path('broken.bgeo'), 'wb').write(b'this is not a particle file'); args = [c.path('broken.bgeo'), j]
        rc, err, _ = run_main(line(*args)); c.check(rc != 0, 'partjson ends with 0 for %r', args); c.check(err != '', 'no message'); c.check(not os.path.exists(j) and not os.path.exists(out), 'a file is written all the same'); c.label('refused')
        rc, err, o = run_main(line(c.pick(['-h', '--help']), *c.pick([[], [direct], [direct, j]]))); c.check(rc == 0 and 'partjson' in o, 'asking for help gives %s %r', rc, o); c.check(not os.path.exists(j), 'a file is written when asking for help')
        return S, ('refused', bad)
    c.label('tool: ' + ext); return S, (ext, way)

def model_of(c, p):
    R = Set(p); R.n = p.numParticles()
    for i in range(p.numAttributes()):
        h = p.attributeInfo(i); a = Attr(h.name, h.type, h.count, h); a.rows = [p.get(h, k) for k in range(R.n)]; R.attrs.append(a)
        if h.type == partio.INDEXEDSTR: a.strings = list(p.indexedStrs(h))
    for i in range(p.numFixedAttributes()):
        h = p.fixedAttributeInfo(i); a = Attr(h.name, h.type, h.count, h); a.rows = [p.getFixed(h)]; R.fixed.append(a)
        if h.type == partio.INDEXEDSTR: a.strings = list(p.fixedIndexedStrs(h))
    return R

def prop(c):
    S, kind = [through_json, through_json, with_faults, tool, tool][c.draw(5)](c); c.note(S.describe())
    if S.n and len(S.attrs) >= 2: c.nontrivial((kind, S.digest()))

if __name__ == '__main__': sys.exit(pbt.main('a set of at least one particle and two attributes taken through JSON, by the functions or by the tool', prop))
