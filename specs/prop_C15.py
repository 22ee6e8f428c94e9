"""C15: piecewise linear tables"""
from dsl import Spec
TU = 'harness/tables.cpp'

def nodes(c, name, n, desc=False):
    """strictly monotone nodes"""
    def gen(r, m):
        out = [r.randint(-16, 16) / 4.0]
        while len(out) < m: out.append(out[-1] + r.randint(1, 6) / 4.0)
        return out[::-1] if desc else out
    x = c.arr(name, 'double', n, gen=gen)
    c.assume(c.forall2(0, n, lambda i, j: c.Or(i == j, x[i] > x[j] if desc else x[i] < x[j]), pat=lambda i, j: (x[i], x[j])))
    return x
def argument(c, x, n, name='a'):
    """anywhere, often at or between nodes"""
    def gen(r):
        k = r.randrange(int(n)); t = r.random()
        if t < .3: return x[k]
        if t < .8 and k + 1 < int(n): return x[k] + (x[k + 1] - x[k]) * r.choice([.25, .5, .75])
        return r.randint(-60, 60) / 4.0
    return c.real(name, gen=gen)
def inseg(c, x, n, a, j, desc, strict=True):
    """a lies in segment j; the first and last segment extend outwards"""
    lt = lambda p, q: (q < p if desc else p < q)
    le = lambda p, q: (q <= p if desc else p <= q)
    f = lt if strict else le
    return c.And(c.Or(j == 0, f(x[j], a)), c.Or(j == n - 2, f(a, x[j + 1])))
def value(x, y, j, a): return (y[j + 1] - y[j]) / (x[j + 1] - x[j]) * (a - x[j]) + y[j]
def rvalue(x, y, j, a): return (y[j] - y[j + 1]) / (x[j] - x[j + 1]) * (a - x[j + 1]) + y[j + 1]
def slope(x, y, j): return (y[j + 1] - y[j]) / (x[j + 1] - x[j])

class Tab(Spec):
    tu, samples, desc, two = TU, 400, False, True
    extra = 0
    def setup(self, c):
        v = c.v
        v.n = c.size('n', 2)
        v.x = nodes(c, 'x', v.n, self.desc); v.y = c.arr('y', 'double', v.n)
        v.a = argument(c, v.x, v.n)
        return [v.x] + ([v.y] if self.two else []) + [v.n, ('double', v.a)] + self.more(c)
    def more(self, c): return []
    def xs(self, c): return c.v.x
    def inv(self, c, L):
        v, x = c.v, self.xs(c)
        ints = L.named_ints
        for n1, l in ints:
            yield 'range ' + n1, c.And(0 <= l, l <= v.n - 1)
            yield 'lower ' + n1, c.Or(l == 0, x[l] >= v.a if self.desc else x[l] <= v.a)
            yield 'lower< ' + n1, c.Or(l == 0, x[l] > v.a if self.desc else x[l] <= v.a)
            yield 'upper ' + n1, c.Or(l == v.n - 1, x[l] <= v.a if self.desc else x[l] >= v.a)
            yield 'upper> ' + n1, c.Or(l == v.n - 1, x[l] <= v.a if self.desc else x[l] > v.a)
            for n2, u in ints:
                if n1 != n2: yield 'order %s %s' % (n1, n2), l < u
    def checkval(self, c, r, x, y, n, a, desc, value=value):
        c.check_all(0, n - 1, lambda j: c.Implies(inseg(c, x, n, a, j, desc), c.near(r, value(x, y, j, a))), 'value of the piecewise linear function')
        c.check_all(0, n, lambda j: c.Implies(a == x[j], c.near(r, y[j])), 'tabulated value at a node')
    def checkder(self, c, r, x, y, n, a, desc):
        c.check_all(0, n - 1, lambda j: c.Implies(inseg(c, x, n, a, j, desc), c.near(r, slope(x, y, j))), 'slope of the segment')
        c.check_all(1, n - 1, lambda j: c.Implies(a == x[j], c.Or(c.near(r, slope(x, y, j)), c.near(r, slope(x, y, j - 1)))), 'slope of an adjacent segment at a node')
class Index(Tab):
    fn, ret, two = 'h_index', 'int', False
    def post(self, c, r):
        v = c.v
        c.check(c.And(0 <= r, r <= v.n - 2), 'a segment of the table')
        c.check(inseg(c, v.x, v.n, v.a, r, self.desc, False), 'argument between the nodes of the segment')
class Lin(Tab):
    fn, ret = 'h_lin', 'double'
    def post(self, c, r): v = c.v; self.checkval(c, r, v.x, v.y, v.n, v.a, self.desc)
class LinAt(Tab):
    fn, ret = 'h_lin_at', 'double'
    def more(self, c): c.v.ix = c.arr('ix', 'int', 1); return [c.v.ix]
    def post(self, c, r):
        v = c.v; self.checkval(c, r, v.x, v.y, v.n, v.a, self.desc)
        j = v.ix[0]
        c.check(c.And(0 <= j, j <= v.n - 2), 'reported segment exists')
        c.check(inseg(c, v.x, v.n, v.a, j, self.desc, False), 'reported segment contains the argument')
class LinDer(Tab):
    fn, ret = 'h_lin_der', 'double'
    def post(self, c, r): v = c.v; self.checkder(c, r, v.x, v.y, v.n, v.a, self.desc)

class Inverse(Tab):
    """the inverse of the table: interpolation with nodes and values exchanged"""
    fn, ret = 'h_non_inv', 'double'
    twice = False
    def setup(self, c):
        v = c.v
        v.n = c.size('n', 2)
        v.x = nodes(c, 'x', v.n); v.y = nodes(c, 'y', v.n, self.desc)
        v.a = argument(c, v.y, v.n)
        out = [v.x, v.y, v.n, ('double', v.a)]
        if self.twice: v.b = argument(c, v.y, v.n, 'b'); out.append(('double', v.b))
        return out
    def inv(self, c, L):
        """interpolation works on the reversed table when the values descend"""
        v = c.v
        Y = (lambda k: v.y[v.n - 1 - k]) if self.desc else (lambda k: v.y[k])
        ints = L.named_ints
        for a in [v.a] + ([v.b] if self.twice else []):
            for n1, l in ints:
                yield 'range ' + n1, c.And(0 <= l, l <= v.n - 1)
                yield 'lower ' + n1, c.Or(l == 0, Y(l) <= a)
                yield 'upper ' + n1, c.Or(l == v.n - 1, Y(l) > a)
                for n2, u in ints:
                    if n1 != n2: yield 'order %s %s' % (n1, n2), l < u
    def post(self, c, r): v = c.v; self.checkval(c, r, v.y, v.x, v.n, v.a, self.desc)
class Scaled:
    def __init__(self, c, x, n, lo, hi): self.c, self.x, self.n, self.lo, self.hi = c, x, n, lo, hi
    def __getitem__(self, i):
        a, b = self.x[0], self.x[self.n - 1]
        return (self.x[i] - a) * (self.hi - self.lo) / (b - a) + self.lo

class Rescaled(Tab):
    """rescaling moves the nodes affinely onto the new domain and keeps the values"""
    fn, ret = 'h_non_rescaled', 'double'
    inverse = False
    def setup(self, c):
        v = c.v
        v.n = c.size('n', 2)
        v.x = nodes(c, 'x', v.n); v.y = nodes(c, 'y', v.n, self.desc) if self.inverse else c.arr('y', 'double', v.n)
        v.lo = c.real('lo'); v.hi = c.real('hi', gen=lambda r: v.lo + r.randint(1, 8) / 2.0)
        c.assume(v.lo < v.hi)
        v.z = Scaled(c, v.x, v.n, v.lo, v.hi)
        c.lemma(c.forall2(0, v.n, lambda i, j: c.Or(i == j, v.z[i] < v.z[j]), pat=lambda i, j: (v.x[i], v.x[j])))
        v.a = argument(c, v.y if self.inverse else v.z, v.n)
        return [v.x, v.y, v.n, ('double', v.a), ('double', v.lo), ('double', v.hi)]
    def inv(self, c, L):
        v = c.v
        for A in L.real_arrays():
            yield 'scaled ' + A.name, c.forall(0, L.N, lambda i: A[i] == v.z[i], pat=lambda i: A[i])
        Y = ((lambda k: v.y[v.n - 1 - k]) if self.desc else (lambda k: v.y[k])) if self.inverse else (lambda k: v.z[k])
        for n1, l in L.named_ints:
            yield 'range ' + n1, c.And(0 <= l, l <= v.n - 1)
            yield 'lower ' + n1, c.Or(l == 0, Y(l) <= v.a)
            yield 'upper ' + n1, c.Or(l == v.n - 1, Y(l) > v.a)
            for n2, u in L.named_ints:
                if n1 != n2: yield 'order %s %s' % (n1, n2), l < u
    def post(self, c, r):
        v = c.v
        if self.inverse: self.checkval(c, r, v.y, v.z, v.n, v.a, self.desc, rvalue if self.desc else value)
        else: self.checkval(c, r, v.z, v.y, v.n, v.a, False)
class Domain(Tab):
    """domain() reports the first and last node"""
    fn = 'h_non_domain'
    def setup(self, c):
        v = c.v
        v.n = c.size('n', 2)
        v.x = nodes(c, 'x', v.n); v.y = c.arr('y', 'double', v.n)
        v.lo = c.real('lo'); v.hi = c.real('hi')
        v.out = c.arr('out', 'double', 4)
        return [v.x, v.y, v.n, ('double', v.lo), ('double', v.hi), v.out]
    def inv(self, c, L):
        v = c.v
        z = Scaled(c, v.x, v.n, v.lo, v.hi)
        for A in L.real_arrays():
            yield 'scaled ' + A.name, c.forall(0, L.N, lambda i: A[i] == z[i], pat=lambda i: A[i])
    def post(self, c, r):
        v, o = c.v, c.v.out
        c.check(c.And(o[0] == v.x[0], o[1] == v.x[v.n - 1]), 'domain')
        c.check(c.And(c.near(o[2], v.lo), c.near(o[3], v.hi)), 'domain after rescaling')
class Uni(Spec):
    """equidistant nodes lo, lo+h, ..., hi; the closest value is used outside"""
    tu, fn, ret, samples, der, scaled = TU, 'h_uni', 'double', 400, False, False
    def setup(self, c):
        v = c.v
        v.n = c.size('n', 2)
        v.lo = c.real('lo'); v.h = c.real('h', gen=lambda r: r.choice([.25, .5, 1.0, 2.0]))
        c.assume(v.h > 0)
        v.hi = v.lo + v.h * (v.n - 1)
        v.y = c.arr('y', 'double', v.n)
        v.lo2, v.h2 = v.lo, v.h
        if self.scaled: 
            v.lo2 = c.real('lo2'); v.h2 = c.real('h2', gen=lambda r: r.choice([.25, .5, 1.0, 2.0])); c.assume(v.h2 > 0)
        v.hi2 = v.lo2 + v.h2 * (v.n - 1)
        v.a = c.real('a', gen=lambda r: v.lo2 + v.h2 * r.randint(0, int(v.n) - 1) + v.h2 * r.choice([0, 0, 0, .25, .5, -.5]) if r.random() < .8 else r.randint(-50, 50) / 4.0)
        return [('double', v.lo), ('double', v.hi), v.y, v.n, ('double', v.a)] + ([('double', v.lo2), ('double', v.hi2)] if self.scaled else [])
    def post(self, c, r):
        v, y = c.v, c.v.y
        x = lambda j: v.lo2 + v.h2 * j
        if self.der:
            c.check(c.Implies(c.Or(v.a < v.lo2, v.a > v.hi2), r == 0), 'no slope outside the table')
            c.check_all(0, v.n - 1, lambda j: c.Implies(c.And(x(j) < v.a, v.a < x(j + 1)), c.near(r, (y[j + 1] - y[j]) / v.h2)), 'slope of the segment')
            c.check_all(0, v.n, lambda j: c.Implies(v.a == x(j), c.Or(c.And(j > 0, c.near(r, (y[j] - y[j - 1]) / v.h2)), c.And(j < v.n - 1, c.near(r, (y[j + 1] - y[j]) / v.h2)))), 'slope of an adjacent segment at a node')
            return
        c.check(c.Implies(v.a <= v.lo2, c.near(r, y[0])), 'first value to the left')
        c.check(c.Implies(v.a >= v.hi2, c.near(r, y[v.n - 1])), 'last value to the right')
        c.check_all(0, v.n - 1, lambda j: c.Implies(c.And(x(j) <= v.a, v.a < x(j + 1)), c.near(r, y[j] + (v.a - x(j)) / v.h2 * (y[j + 1] - y[j]))), 'value of the piecewise linear function')
class UniDomain(Spec):
    tu, fn = TU, 'h_uni_domain'
    def setup(self, c):
        v = c.v
        v.n = c.size('n', 2)
        v.lo = c.real('lo'); v.hi = c.real('hi', gen=lambda r: v.lo + r.randint(1, 9) / 4.0); c.assume(v.lo < v.hi)
        v.lo2, v.hi2 = c.real('lo2'), c.real('hi2')
        v.y = c.arr('y', 'double', v.n); v.out = c.arr('out', 'double', 4)
        return [('double', v.lo), ('double', v.hi), v.y, v.n, ('double', v.lo2), ('double', v.hi2), v.out]
    def post(self, c, r):
        v, o = c.v, c.v.out
        c.check(c.And(o[0] == v.lo, o[1] == v.hi, o[2] == v.lo2, o[3] == v.hi2), 'domain')
class Mono(Spec):
    tu, fn, ret = TU, 'h_mono', 'int'
    def setup(self, c):
        v = c.v
        v.n = c.size('n', 0); v.x = c.arr('x', 'double', v.n, gen=lambda r, m: sorted(r.randint(0, 9) for _ in range(m)) if r.random() < .5 else [r.randint(0, 4) for _ in range(m)])
        return [v.x, v.n]
    def inv(self, c, L):
        v = c.v
        yield 'so far', c.forall(0, L.N, lambda i: v.x[i] <= v.x[i + 1], pat=lambda i: v.x[i])
    def post(self, c, r):
        v = c.v
        c.check(c.Or(r == 0, r == 1), 'truth value')
        c.check_all(0, v.n - 1, lambda i: c.Implies(r == 1, v.x[i] <= v.x[i + 1]), 'no descent when true')
        c.check(c.Or(r == 1, c.exists(0, v.n - 1, lambda i: v.x[i + 1] < v.x[i])), 'a descent when false')

SPECS = []
for cls in (Index, Lin, LinAt, LinDer):
    for d in (0, 1):
        s = cls(); s.desc = bool(d); s.name = cls.__name__ + ('/descending' if d else ''); SPECS.append(s)
for fn, cls in (('h_non', Lin), ('h_non_der', LinDer)):
    s = cls(); s.fn = fn; s.name = 'Nonuniform' + ('/derivative' if cls is LinDer else ''); SPECS.append(s)
for d in (0, 1):
    for t in (0, 1):
        s = Inverse(); s.desc, s.twice = bool(d), bool(t); s.fn = 'h_non_inv2' if t else 'h_non_inv'; s.name = 'Inverse' + ('/descending' if d else '') + ('/again' if t else ''); SPECS.append(s)
s = Rescaled(); s.name = 'Rescaled'; SPECS.append(s)
for d in (0, 1):
    s = Rescaled(); s.inverse, s.desc, s.fn = True, bool(d), 'h_non_rescaled_inv'; s.name = 'Rescaled/inverse' + ('/descending' if d else ''); SPECS.append(s)
SPECS += [Domain(), UniDomain(), Mono()]
for fn, de, sc, nm in (('h_uni', 0, 0, 'Uniform'), ('h_uni_ptr', 0, 0, 'Uniform/pointer'), ('h_uni_der', 1, 0, 'Uniform/derivative'), ('h_uni_rescaled', 0, 1, 'Uniform/rescaled')):
    s = Uni(); s.fn, s.der, s.scaled, s.name = fn, bool(de), bool(sc), nm; SPECS.append(s)
