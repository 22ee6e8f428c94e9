"""C17: bracketing root finders, for an arbitrary function"""
from dsl import Spec
import z3
from terms import Ite, P
from ir import Ty
D = Ty('double')
TU = 'harness/roots.cpp'
MACHEPS = 2.0 ** -52
_f = z3.Function('vp_f', z3.RealSort(), z3.RealSort())

def model_f(ex, st, a, inst):
    import models
    from terms import R
    return models.ret(st, R(_f(R.of(a[0]).z3())))
def model_max(ex, st, a, inst):
    import models, cxxmodels
    x, y = ex.load(st, D, a[0], inst), ex.load(st, D, a[1], inst)
    if x is None or y is None: return []
    q = ex.malloc(st, P.of(8), 'max', nullable=False)
    ex.store(st, D, Ite(x < y, y, x), q, inst)
    return models.ret(st, q)
def func(c, p):
    if not c.native:
        from terms import R
        return lambda x: R(_f(R.of(x).z3()))
    def f(x):
        k = int(p[0])
        if k == 0: return p[1] * (x - p[2])
        if k == 1: return p[1] * (x - p[2]) * (x - p[2]) * (x - p[2]) + p[3] * (x - p[2])
        if k == 2: return -p[1] if x < p[2] else p[1]
        if k == 3: return p[1] * (x - p[2]) * (x - p[3])
        return p[1]
    return f
def genp(r, n):
    return [float(r.choice([0, 0, 1, 1, 2, 3, 4])), r.choice([-1, 1]) * r.choice([.5, 1.0, 3.0, 100.0, 1e-6]), r.randint(-20, 20) / 4.0 + r.choice([0, .1]), r.choice([0.0, 1.0, -2.5])]

class Solve(Spec):
    tu, ret, samples, throws, structs = TU, 'double', 600, True, ()
    guess = False
    def handlers(self): return {'vp_f': model_f, '_ZSt3maxIdERKT_S2_S2_': model_max}
    def setup(self, c):
        v = c.v
        v.p = c.arr('p', 'double', 4, gen=genp)
        v.F = func(c, v.p)
        v.a = c.real('a', gen=lambda r: r.choice([r.randint(-40, 0) / 4.0, v.p[2]])); v.b = c.real('b', gen=lambda r: r.choice([r.randint(0, 40) / 4.0, r.randint(-60, 0) / 4.0, v.p[2]]))
        v.n = c.int('maxit', 0, None, gen=lambda r: r.choice([0, 1, 5, 60, 60]))
        v.tol = c.real('tol', gen=lambda r: r.choice([0.0, 1e-3, 1e-8, 1e-12])); c.assume(v.tol >= 0)
        v.it = c.arr('it', 'int', 1)
        v.lo, v.hi = c.min(v.a, v.b), c.max(v.a, v.b)
        args = []
        if self.guess:
            v.g = c.real('g', gen=lambda r: r.choice([v.a, v.b, (v.a + v.b) / 2, (3 * v.a + v.b) / 4, min(max(v.p[2], v.lo), v.hi)]))
            c.assume(c.And(v.lo <= v.g, v.g <= v.hi))
            args = [('double', v.g)]
        one = c.R(1)
        v.eps = v.tol + MACHEPS * c.max(c.max(c.abs(v.a), c.abs(v.b)), one)
        v.first = v.g if self.guess else v.a
        v.epsF = v.tol + MACHEPS * c.max(c.abs(v.F(v.first)), one)
        v.fa, v.fb = v.F(v.a), v.F(v.b)
        return [v.p] + args + [('double', v.a), ('double', v.b), v.n, ('double', v.tol), v.it]
    def inv(self, c, L):
        v, F = c.v, c.v.F
        rs = L.named_reals
        names = dict(rs)
        base = {k.split('.')[0]: k for k in names}
        if all(k in base for k in ('%x0', '%x1', '%f0', '%f1')): xs, fs = (base['%x0'], base['%x1']), (base['%f0'], base['%f1'])
        else: xs = fs = tuple(names)
        for k in xs:
            yield 'inside ' + k, c.And(v.lo <= names[k], names[k] <= v.hi)
            for f in fs:
                if f == k: continue
                yield 'value %s %s' % (k, f), names[f] == F(names[k])
                yield 'sign %s %s' % (k, f), c.And((names[f] > 0) == (F(names[k]) > 0), (names[f] < 0) == (F(names[k]) < 0))
        for i, f in enumerate(fs):
            for g in fs[:i]: yield 'bracket %s %s' % (f, g), c.Or(c.And(names[f] > 0, names[g] < 0), c.And(names[f] < 0, names[g] > 0))
        yield 'count', v.it[0] == L.N
        yield 'limit', L.N <= v.n
    def samesign(self, c):
        v = c.v
        small = lambda x: c.abs(x) < v.epsF
        return c.And(c.Or(c.And(v.fa > 0, v.fb > 0), c.And(v.fa < 0, v.fb < 0)), c.Not(small(v.fa)), c.Not(small(v.fb)))
    def bracketed(self, c, r):
        """r lies between two points of opposite sign closer than the tolerance"""
        v, F = c.v, c.v.F
        w = v.eps * 1e-9
        if c.native:
            # for the native families the sign changes at p[2] (and p[3])
            # (up to rounding, which the bracket width does not exceed by more than a few units)
            roots = [v.p[2]] + ([v.p[3]] if int(v.p[0]) == 3 else [])
            if int(v.p[0]) == 1 and v.p[1] * v.p[3] < 0: d = (-v.p[3] / v.p[1]) ** .5; roots += [v.p[2] + d, v.p[2] - d]
            return any(abs(r - z) <= w + 8 * MACHEPS * max(abs(v.a), abs(v.b), 1) for z in roots)
        from terms import R
        x, y = z3.Real('bx'), z3.Real('by')
        X, Y = R(x), R(y)
        body = c.And(v.lo <= X, X <= v.hi, v.lo <= Y, Y <= v.hi, F(X) * F(Y) < 0, c.abs(X - Y) < w, c.Or(c.And(X <= r, r <= Y), c.And(Y <= r, r <= X)))
        return z3.Not(z3.ForAll([x, y], z3.Not(body), patterns=[z3.MultiPattern(_f(x), _f(y))]))
    def post(self, c, r):
        v = c.v
        thr = 'throw' in self.fn
        inside = c.And(c.le(v.lo, r), c.le(r, v.hi))
        c.check(inside, 'result inside the bracket')
        same = self.samesign(c)
        if not self.guess:
            if thr: c.check(c.Not(same), 'a bracket without sign change is reported')
            else: c.check(c.Implies(same, c.Or(c.And(r == v.a, c.abs(v.fa) <= c.abs(v.fb)), c.And(r == v.b, c.abs(v.fb) <= c.abs(v.fa)))), 'better end point without a sign change')
        it = v.it[0]
        good = c.Or(c.abs(v.F(r)) < v.epsF, self.bracketed(c, r))
        nosign = same if not self.guess else c.And(self.samesign(c), c.Not(c.Or(v.F(v.g) * v.fa < 0, v.F(v.g) * v.fb < 0)))
        if thr:
            c.check(good, 'within tolerance, or in a narrow bracket with a sign change')
            c.check(c.And(0 <= it, it <= v.n), 'no more iterations than allowed')
        else:
            c.check(c.Or(good, nosign, it > v.n), 'within tolerance, or in a narrow bracket with a sign change, or reported')
            c.check(c.And(0 <= it, it <= v.n + 1), 'no more iterations than allowed')
    def on_throw(self, c):
        v = c.v
        c.check('throw' in self.fn, 'only the throwing policy throws')
        if 'throw' in self.fn: 
            nosign = self.samesign(c) if not self.guess else c.And(c.Or(c.And(v.fa >= 0, v.fb >= 0), c.And(v.fa <= 0, v.fb <= 0)), c.Not(c.abs(v.F(v.g)) < v.epsF))
            c.check(c.Or(nosign, v.it[0] > v.n), 'only a bad bracket or too many iterations are reported')

class Bracket(Spec):
    tu, fn, samples, throws = TU, 'h_bracket', 400, True
    def handlers(self): return {'vp_f': model_f}
    def setup(self, c):
        v = c.v
        v.p = c.arr('p', 'double', 4, gen=genp); v.F = func(c, v.p)
        v.x0 = c.real('x0', gen=lambda r: r.choice([r.randint(-40, 40) / 4.0, v.p[2]])); v.dx = c.real('dx', gen=lambda r: r.choice([-1, 1]) * r.choice([.25, 1.0, .01, 30.0]))
        c.assume(c.Not(v.dx == 0))
        v.a, v.b = c.arr('oa', 'double', 1), c.arr('ob', 'double', 1)
        return [v.p, ('double', v.x0), ('double', v.dx), v.a, v.b]
    def inv(self, c, L):
        v, F = c.v, c.v.F
        f0 = F(v.x0)
        for n, d in L.named_reals:
            ok = lambda x: c.Or(c.And(f0 > 0, F(x) > 0), c.And(f0 < 0, F(x) < 0))
            yield 'nonzero ' + n, c.Not(d == 0)
            yield 'first ' + n, c.Implies(L.N == 0, d == v.dx)
            yield 'prev ' + n, c.Implies(L.N >= 1, ok(v.x0 - d / 2))
            yield 'prev2 ' + n, c.Implies(L.N >= 2, ok(v.x0 + d / 4))
    def post(self, c, r):
        v = c.v; a, b = v.a[0], v.b[0]
        c.check(a < b, 'proper interval')
        c.check(v.F(a) * v.F(b) <= 0, 'sign change in the interval')

SPECS = [Bracket()]
for g in (0, 1):
    for p in ('throw', 'warn', 'cont'):
        s = Solve(); s.guess = bool(g); s.fn = 'h_rf%s_%s' % ('g' if g else '', p); s.name = 'Solve/%s%s' % (p, '/guess' if g else ''); SPECS.append(s)
