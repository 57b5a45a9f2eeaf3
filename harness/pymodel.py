"""Generators and a plain model of particle sets for the checks that go through the Python module."""
import struct, math
import partio
T = {partio.VECTOR: 'VECTOR', partio.FLOAT: 'FLOAT', partio.INT: 'INT', partio.INDEXEDSTR: 'INDEXEDSTR'}
INTS = (partio.INT, partio.INDEXEDSTR)
def f32(x):
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return math.copysign(math.inf, x)
def same(a, b): return len(a) == len(b) and all(type(x) is type(y) and (struct.pack('<d', x) == struct.pack('<d', y) or (x != x and y != y)) if isinstance(y, float) else type(x) is int and x == y for x, y in zip(a, b))

class Attr:
    def __init__(self, name, type, count, handle=None): self.name, self.type, self.count, self.h, self.strings, self.rows = name, type, count, handle, [], []
    def zero(self): return (0,) * self.count if self.type in INTS else (0.0,) * self.count

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
def gen_name(c, used):
    while True:
        n = ''.join(c.pick(LETTERS) for _ in range(c.range(1, 6)))
        while n in used: n += c.pick(LETTERS)
        used.add(n); return n
def gen_str(c):
    k = c.weighted([5, 2, 1, 1, 1])
    if k == 4: c.label('strings that are not UTF-8'); return ''.join(c.pick(['\udc80', '\udcff', '\udce4', 'a', 'é']) for _ in range(c.range(1, 4))).encode('utf8', 'surrogateescape').decode('utf8', 'surrogateescape')
    if k == 0: return ''.join(c.pick(LETTERS + '0123456789 .-') for _ in range(c.range(1, 8)))
    if k == 1: return ''.join(c.pick('éßλЖ中😀"\\\'\t/') for _ in range(c.range(1, 5)))
    if k == 2: return ''
    return 's' * c.range(1, 300)
def gen_float(c):
    k = c.weighted([4, 3, 2, 1])
    if k == 0: return float(c.range(-5, 5))
    if k == 1: return c.range(-10**6, 10**6) / 977.0
    if k == 2:
        while True:
            x = struct.unpack('<f', struct.pack('<I', c.draw(1 << 32)))[0]
            if x == x and not math.isinf(x): return x
    return c.pick([0.0, -0.0, math.inf, -math.inf, math.nan, 1e-45, 3.4e38, 0.1])
def gen_int(c):
    k = c.weighted([4, 2, 1])
    return c.range(-3, 9) if k == 0 else c.range(-2**31, 2**31 - 1) if k == 1 else c.pick([2**31 - 1, -2**31, 0, -1])
def gen_value(c, a):
    """(what to pass, what must come back)"""
    if a.type == partio.INDEXEDSTR and a.strings and c.chance(3, 4): v = [c.draw(len(a.strings)) for _ in range(a.count)]; w = v
    elif a.type in INTS: v = [gen_int(c) for _ in range(a.count)]; w = v
    else:
        v = [gen_float(c) for _ in range(a.count)]
        if c.chance(1, 4): v = [c.range(-100, 100) if c.chance(1, 2) else x for x in v]    # integers are welcome too
        w = [f32(float(x)) for x in v]
    return (tuple(v) if c.chance(1, 2) else list(v)), tuple(w)

class Set:
    """a particle set of the module next to its model"""
    def __init__(self, p=None): self.p = p if p is not None else partio.create(); self.attrs, self.fixed, self.n, self.used, self.fused = [], [], 0, set(), set()
    def add_attr(self, c, type=None, name=None, count=None):
        t = type or c.pick(list(T)); cnt = count or (3 if t == partio.VECTOR else c.range(1, 5)); nm = name or gen_name(c, self.used); self.used.add(nm)
        a = Attr(nm, t, cnt, self.p.addAttribute(nm, t, cnt)); self.attrs.append(a)
        # particles that were there before hold nothing in particular in it
        for i in range(self.n): v, w = gen_value(c, a); self.p.set(a.h, i, v); a.rows.append(w)
        return a
    def add_fixed(self, c):
        t = c.pick(list(T)); cnt = 3 if t == partio.VECTOR else c.range(1, 5); nm = gen_name(c, self.fused)
        a = Attr(nm, t, cnt, self.p.addFixedAttribute(nm, t, cnt)); self.fixed.append(a); v, w = gen_value(c, a); self.p.setFixed(a.h, v); a.rows = [w]; return a
    def add_particles(self, c, k):
        if k == 1 and c.chance(1, 2):
            i = self.p.addParticle(); c.check(i == self.n, 'the new particle got index %s of %d', i, self.n)
        else: self.p.addParticles(k)
        self.n += k
        for a in self.attrs:
            for i in range(self.n - k, self.n): v, w = gen_value(c, a); self.p.set(a.h, i, v); a.rows.append(w)
    def compare(self, c, p=None, what='the set', names=None, order=True, handles=True):
        """everything p shows equals the model"""
        q = self.p if p is None else p; nm = names or (lambda x: x)
        c.check(q.numParticles() == self.n, '%s has %d particles, not %d', what, q.numParticles(), self.n)
        c.check(q.numAttributes() == len(self.attrs), '%s has %d attributes, not %d', what, q.numAttributes(), len(self.attrs))
        c.check(q.numFixedAttributes() == len(self.fixed), '%s has %d fixed attributes, not %d', what, q.numFixedAttributes(), len(self.fixed))
        for k, a in enumerate(self.attrs):
            h = q.attributeInfo(nm(a.name)); c.check(h is not None, '%s has no attribute %s', what, nm(a.name))
            if order: g = q.attributeInfo(k); c.check((g.name, g.type, g.count) == (nm(a.name), a.type, a.count), 'attribute %d of %s is %s %s[%d], not %s %s[%d]', k, what, g.name, g.type, g.count, nm(a.name), a.type, a.count)
            c.check((h.name, h.type, h.count) == (nm(a.name), a.type, a.count), 'attribute %s of %s is %s %s[%d], not %s[%d]', a.name, what, h.name, h.type, h.count, a.type, a.count)
            if a.type == partio.INDEXEDSTR: s = q.indexedStrs(h); c.check(s == a.strings, 'strings of %s in %s: %r, not %r', a.name, what, s, a.strings)
            for i in range(self.n):
                v = q.get(h, i); c.check(type(v) is tuple and same(v, a.rows[i]), 'value of %s at %d in %s: %r, not %r', a.name, i, what, v, a.rows[i])
        for k, a in enumerate(self.fixed):
            h = q.fixedAttributeInfo(nm(a.name)); c.check(h is not None, '%s has no fixed attribute %s', what, nm(a.name))
            if order: g = q.fixedAttributeInfo(k); c.check((g.name, g.type, g.count) == (nm(a.name), a.type, a.count), 'fixed attribute %d of %s is %s %s[%d]', k, what, g.name, g.type, g.count)
            c.check((h.type, h.count) == (a.type, a.count), 'fixed attribute %s of %s is %s[%d]', a.name, what, h.type, h.count)
            if a.type == partio.INDEXEDSTR: s = q.fixedIndexedStrs(h); c.check(s == a.strings, 'strings of fixed %s in %s: %r, not %r', a.name, what, s, a.strings)
            v = q.getFixed(h); c.check(type(v) is tuple and same(v, a.rows[0]), 'value of fixed %s in %s: %r, not %r', a.name, what, v, a.rows[0])
    def describe(self): return 'n=%d [%s] fixed [%s]' % (self.n, ' '.join('%s:%s[%d]' % (a.name, T[a.type], a.count) for a in self.attrs), ' '.join('%s:%s[%d]' % (a.name, T[a.type], a.count) for a in self.fixed))
    def digest(self): return [(a.name, a.type, a.count, a.strings, [repr(r) for r in a.rows]) for a in self.attrs + self.fixed]
