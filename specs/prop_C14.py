"""C14: basic rock and fluid properties"""
from dsl import Spec, NS
from lib import *
from prop_C15 import Tab, inseg, slope, value
import params, itertools
TU = 'harness/basicprops.cpp'
FUNC = ('Constant', 'Linear', 'Quadratic')
def kr(f, s): return (1.0, s, s * s)[f]
def dkr(f, s): return (0.0, 1.0, 2.0 * s)[f]

class Base(Spec):
    tu, samples, flags, structs = TU, 200, ('-Iharness/stubs',), ()
    func, deriv, init = 1, True, True
    throws = True
    def on_throw(self, c): c.check(False, 'nothing to reject')
    def out(self, c, *names):
        v = c.v
        for n, k in names: setattr(v, n, c.arr(n, 'double', k))
        return [getattr(v, n) for n, _ in names]
    def null(self, c, name, n): return self.out(c, (name, n))[0] if self.deriv else c.null()
class Approx(object):
    """val times a unit constant; the product of double constants the code computes may differ from the nominal unit in its last digits"""
    def __init__(self, val, unit): self.val, self.unit = val, unit
    def __eq__(self, a): raise TypeError
def same(c, a, b):
    if not isinstance(b, Approx): return c.near(a, b)
    x = b.val * b.unit; d = c.abs(x) * 1e-12
    return c.near(a, x) if c.native else c.And(a - x <= d, x - a <= d)
def layout(c, a, n, np, val, label, what='pp'):
    """a[np*i + p] == val(i, p) for all i < n, p < np"""
    for p in range(np): c.check_all(0, n, lambda i, p=p: same(c, a[np * i + p], val(i, p)), '%s of phase %d' % (label, p))
def layout2(c, a, n, np, val, label):
    for p, q in itertools.product(range(np), range(np)):
        c.check_all(0, n, lambda i, p=p, q=q: same(c, a[np * np * i + np * p + q], val(i, p, q)), '%s (%d, %d)' % (label, p, q))
def lay(c, L, a, np, val, label):
    for p in range(np): yield '%s %s %d' % (label, a.name, p), c.forall(0, L.N, lambda i, p=p: same(c, a[np * i + p], val(i, p)), pat=lambda i, p=p: [a[np * i + p]])
def lay2(c, L, a, np, val, label):
    for p, q in itertools.product(range(np), range(np)):
        yield '%s %s %d %d' % (label, a.name, p, q), c.forall(0, L.N, lambda i, p=p, q=q: same(c, a[np * np * i + np * p + q], val(i, p, q)), pat=lambda i, p=p, q=q: [a[np * np * i + np * p + q]])

class Relperm(Base):
    fn = 'h_relperm'
    def setup(self, c):
        v, np = c.v, self.np
        v.n = c.size('n', 0); v.s = c.arr('s', 'double', np * v.n); v.kr = c.arr('kr', 'double', np * v.n)
        v.dkr = self.null(c, 'dkr', np * np * v.n)
        return [np, self.func, v.n, v.s, v.kr, v.dkr]
    def inv(self, c, L):
        v, np = c.v, self.np
        yield 'all', c.forall(0, L.N, lambda k: v.kr[k] == kr(self.func, v.s[k]), pat=lambda k: [v.kr[k]])
        yield from lay(c, L, v.kr, np, lambda i, p: kr(self.func, v.s[np * i + p]), 'kr')
        if self.deriv: yield from lay2(c, L, v.dkr, np, lambda i, p, q: dkr(self.func, v.s[np * i + p]) if p == q else 0.0, 'dkr')
    def post(self, c, r):
        v, np = c.v, self.np
        layout(c, v.kr, v.n, np, lambda i, p: kr(self.func, v.s[np * i + p]), 'relative permeability')
        if self.deriv: layout2(c, v.dkr, v.n, np, lambda i, p, q: dkr(self.func, v.s[np * i + p]) if p == q else 0.0, 'derivative')
class CapPress(Relperm):
    fn = 'h_cappress'
    def inv(self, c, L): return ()
    def post(self, c, r):
        v, np = c.v, self.np
        layout(c, v.kr, v.n, np, lambda i, p: 0.0, 'capillary pressure')
        if self.deriv: layout2(c, v.dkr, v.n, np, lambda i, p, q: 0.0, 'derivative')
class SatRange(Base):
    fn = 'h_satrange'
    def setup(self, c):
        v, np = c.v, self.np
        v.n = c.size('n', 0); v.q = c.arr('q', 'int', 1)
        return [np, self.func, v.n] + self.out(c, ('lo', np * v.n), ('hi', np * v.n)) + [v.q]
    def post(self, c, r):
        v, np = c.v, self.np
        c.check(v.q[0] == np, 'number of phases')
        layout(c, v.lo, v.n, np, lambda i, p: 0.0, 'smallest saturation'); layout(c, v.hi, v.n, np, lambda i, p: 1.0, 'largest saturation')
class Pvt(Base):
    fn = 'h_pvt'
    def setup(self, c):
        v, np = c.v, self.np
        v.rho, v.mu = c.arr('rho', 'double', np), c.arr('mu', 'double', np)
        v.n = c.size('n', 0); v.p, v.z = c.arr('p', 'double', v.n), c.arr('z', 'double', np * v.n); v.q = c.arr('q', 'int', 1)
        return [np, v.rho, v.mu, v.n, v.p, v.z, v.q] + self.out(c, ('dens', np), *[(k, np * v.n) for k in ('m', 'b', 'b2', 'db', 'r', 'r2', 'dr')])
    def inv(self, c, L):
        v, np = c.v, self.np
        for k, f in (('m', lambda p: v.mu[p]), ('b', lambda p: 1.0), ('b2', lambda p: 1.0), ('db', lambda p: 0.0), ('r', lambda p: 0.0), ('r2', lambda p: 0.0), ('dr', lambda p: 0.0)):
            yield from lay(c, L, getattr(v, k), np, lambda i, p: f(p), k)
            for p in range(np): yield 'whole %s %d' % (k, p), c.forall(0, v.n, lambda i: getattr(v, k)[np * i + p] == f(p), pat=lambda i: [getattr(v, k)[np * i + p]])
    def post(self, c, r):
        v, np = c.v, self.np
        c.check(v.q[0] == np, 'number of phases')
        for p in range(np): c.check(v.dens[p] == v.rho[p], 'surface density of phase %d' % p)
        layout(c, v.m, v.n, np, lambda i, p: v.mu[p], 'viscosity')
        layout(c, v.b, v.n, np, lambda i, p: 1.0, 'formation volume factor'); layout(c, v.b2, v.n, np, lambda i, p: 1.0, 'formation volume factor (with derivative)')
        layout(c, v.db, v.n, np, lambda i, p: 0.0, 'derivative of the formation volume factor')
        for a in (v.r, v.r2, v.dr): layout(c, a, v.n, np, lambda i, p: 0.0, 'solution factor and derivative')
class PvtBad(Base):
    """only one to three phases are accepted"""
    fn = 'h_pvt_bad'
    def setup(self, c):
        v = c.v
        v.np = c.int('np', gen=lambda r: r.randrange(-1, 6)); v.m = c.size('m', 0); v.rho, v.mu = c.arr('rho', 'double', v.m), c.arr('mu', 'double', v.m)
        return [v.np, v.rho, v.mu, v.m]
    def on_throw(self, c): c.check(c.Or(c.v.np < 1, c.v.np > 3), 'only a bad number of phases is rejected')
    def post(self, c, r): c.check(c.And(1 <= c.v.np, c.v.np <= 3), 'a bad number of phases is rejected')
class Rock(Base):
    fn = 'h_rock'
    def setup(self, c):
        v, d = c.v, self.d
        v.nc, v.po, v.pe, v.q = c.size('nc', 0), c.real('poro'), c.real('perm'), c.arr('q', 'int', 2)
        return [d, v.nc, ('double', v.po), ('double', v.pe), v.q] + self.out(c, ('P', v.nc), ('K', d * d * v.nc))
    def inv(self, c, L):
        d, v = self.d, c.v
        for a in L.real_arrays():
            yield from lay2(c, L, a, d, lambda i, p, q: v.pe if p == q else 0.0, 'perm')
            yield 'rest ' + a.name, c.forall(d * d * L.N, d * d * v.nc, lambda k: a[k] == 0, pat=lambda k: [a[k]])
    def post(self, c, r): self.rock(c, v := c.v, self.d)
    def rock(self, c, v, d):
        c.check(c.And(v.q[0] == d, v.q[1] == v.nc), 'sizes')
        c.check_all(0, v.nc, lambda i: v.P[i] == v.po, 'porosity')
        layout2(c, v.K, v.nc, d, lambda i, p, q: v.pe if p == q else 0.0, 'permeability')
class Comp(Base):
    """RockCompressibility from parameters: quadratic pore volume multiplier"""
    fn = 'h_comp'
    def handlers(self): return params.handlers(self)
    def setup(self, c):
        v = c.v
        self.params = v.P = params.Params(c, [('rock_compressibility_pref', 'real', lambda r: r.randrange(0, 9) * 50), ('rock_compressibility', 'real', lambda r: r.randrange(-3, 3) / 1e4)])
        v.p = c.real('p', gen=lambda r: r.randrange(0, 400) * 1e5); v.q = c.arr('q', 'int', 1)
        return v.P.args() + [('double', v.p), v.q] + self.out(c, ('x', 2))
    def post(self, c, r):
        v = c.v
        comp = v.P.get('rock_compressibility', c.R(0)) / 1e5
        e = comp * (v.p - v.P.get('rock_compressibility_pref', c.R(100)) * 1e5)
        c.check(c.Iff(v.q[0] != 0, c.Not(comp == 0)), 'active exactly if compressible')
        c.check(c.near(v.x[0], 1 + e + e * e / 2), 'pore volume multiplier'); c.check(c.near(v.x[1], comp), 'compressibility')
class CompMult(Tab):
    """pore volume multiplier from a table"""
    tu, flags, fn, ret, samples, throws = TU, ('-Iharness/stubs',), 'h_comp_mult', 'double', 300, False
    def post(self, c, r): v = c.v; self.checkval(c, r, v.x, v.y, v.n, v.a, False)
class CompRate(CompMult):
    """compressibility from a table: slope over multiplier (where that is not zero)"""
    fn = 'h_comp_rate'
    def more(self, c):
        v = c.v
        c.assume(c.forall(0, v.n - 1, lambda j: c.Implies(inseg(c, v.x, v.n, v.a, j, False, False), c.Not(value(v.x, v.y, j, v.a) == 0)), pat=lambda j: v.x[j + 1]))
        return []
    def post(self, c, r):
        v = c.v
        f = lambda j: c.native and value(v.x, v.y, j, v.a) == 0 or c.near(r, slope(v.x, v.y, j) / value(v.x, v.y, j, v.a))
        c.check_all(0, v.n - 1, lambda j: c.Implies(inseg(c, v.x, v.n, v.a, j, False), f(j)), 'slope of the segment over the multiplier')
        c.check_all(1, v.n - 1, lambda j: c.Implies(v.a == v.x[j], c.Or(f(j), f(j - 1))), 'slope of an adjacent segment over the multiplier at a node')
class CompActive(CompMult):
    fn, ret = 'h_comp_active', 'int'
    def setup(self, c):
        v = c.v; v.n = c.size('n', 0); return self.out(c)
    def out(self, c): v = c.v; v.x, v.y = c.arr('x', 'double', v.n), c.arr('y', 'double', v.n); return [v.x, v.y, v.n]
    def post(self, c, r): c.check(c.Iff(r != 0, c.v.n > 0), 'a table makes the rock compressible')
class CompDeck(Base):
    """rock compressibility from a deck: the table, else the pair of values, else nothing"""
    fn = 'h_comp_deck'
    def setup(self, c):
        v = c.v
        v.n = c.size('n', 0); v.pp, v.mm, v.rock = c.arr('pp', 'double', v.n), c.arr('mm', 'double', v.n), c.arr('rock', 'double', 2)
        v.t, v.r = c.int('has_tab', 0, 1, gen=lambda r: r.randrange(2)), c.int('has_rock', 0, 1, gen=lambda r: r.randrange(2))
        v.q = c.arr('q', 'int', 3)
        return [v.pp, v.mm, v.n, v.rock, v.t, v.r] + self.out(c, ('p2', v.n), ('m2', v.n)) + [v.q] + self.out(c, ('x', 2))
    def inv(self, c, L):
        v = c.v
        for a in L.real_arrays():
            yield 'p ' + a.name, c.forall(0, L.N, lambda i: a[i] == v.pp[i], pat=lambda i: [a[i]])
            yield 'm ' + a.name, c.forall(0, L.N, lambda i: a[i] == v.mm[i], pat=lambda i: [a[i]])
    def post(self, c, r):
        v = c.v
        tab, one = v.t != 0, c.And(v.t == 0, v.r != 0)
        n = c.Ite(tab, v.n, c.I(0))
        c.check(c.And(v.q[1] == n, v.q[2] == n), 'table length')
        c.check_all(0, n, lambda i: c.And(v.p2[i] == v.pp[i], v.m2[i] == v.mm[i]), 'table')
        c.check(c.And(v.x[0] == c.Ite(one, v.rock[0], c.R(0)), v.x[1] == c.Ite(one, v.rock[1], c.R(0))), 'reference pressure and compressibility')
        c.check(c.Iff(v.q[0] != 0, c.Or(n > 0, c.And(one, c.Not(v.rock[1] == 0)))), 'active')
class Incomp(Base):
    fn = 'h_incomp'
    d = 2
    def setup(self, c):
        v, np, d = c.v, self.np, self.d
        v.nr = c.int('nr', 0, gen=lambda r: r.choice([np, np, np, np + 1, 1]))
        v.rho, v.mu = c.arr('rho', 'double', v.nr), c.arr('mu', 'double', v.nr)
        v.po, v.pe, v.nc = c.real('poro'), c.real('perm'), c.size('nc', 0)
        v.q = c.arr('q', 'int', 4)
        return [np, self.func, v.rho, v.mu, v.nr, ('double', v.po), ('double', v.pe), d, v.nc, v.q] + self.out(c, ('dens', np), ('visc', np), ('P', v.nc), ('K', d * d * v.nc))
    def on_throw(self, c): c.check(c.Not(c.v.nr == self.np), 'only inconsistent numbers of phases are rejected')
    def inv(self, c, L):
        yield from Rock.inv(self, c, L)
        v = c.v
        for a in L.real_arrays():
            for i in range(self.np): yield 'mu %s %d' % (a.name, i), c.Implies(i < L.N, a[i] == v.mu[i])
    def post(self, c, r):
        v, np, d = c.v, self.np, self.d
        c.check(v.nr == np, 'inconsistent numbers of phases are rejected')
        c.check(c.And(v.q[0] == np, v.q[1] == d, v.q[2] == v.nc, v.q[3] != 0), 'sizes')
        for p in range(np): c.check(v.dens[p] == v.rho[p], 'density'); c.check(v.visc[p] == v.mu[p], 'viscosity')
        c.check_all(0, v.nc, lambda i: v.P[i] == v.po, 'porosity')
        layout2(c, v.K, v.nc, d, lambda i, p, q: v.pe if p == q else 0.0, 'permeability')
def satcheck(c, v, np, func):
    layout(c, v.kr, v.n, np, lambda i, p: kr(func, v.s[np * i + p]), 'relative permeability')
    layout2(c, v.dkr, v.n, np, lambda i, p, q: dkr(func, v.s[np * i + p]) if p == q else 0.0, 'derivative')
    layout(c, v.pc, v.n, np, lambda i, p: 0.0, 'capillary pressure'); layout2(c, v.dpc, v.n, np, lambda i, p, q: 0.0, 'derivative of capillary pressure')
    layout(c, v.lo, v.n, np, lambda i, p: 0.0, 'smallest saturation'); layout(c, v.hi, v.n, np, lambda i, p: 1.0, 'largest saturation')
class IncompSat(Base):
    fn = 'h_incomp_sat'
    def setup(self, c):
        v, np = c.v, self.np
        v.rho, v.mu, v.n = c.arr('rho', 'double', np), c.arr('mu', 'double', np), c.size('n', 0)
        v.s, v.cells = c.arr('s', 'double', np * v.n), c.arr('cells', 'int', v.n)
        m, mm = np * v.n, np * np * v.n
        return [np, self.func, v.rho, v.mu, v.n, v.s, v.cells] + self.out(c, ('kr', m), ('dkr', mm), ('pc', m), ('dpc', mm), ('lo', m), ('hi', m))
    inv = Relperm.inv
    def post(self, c, r): satcheck(c, c.v, self.np, self.func)
ALLFUNC = FUNC + ('Cubic',)
def parameters(self, c):
    """num_phases and relperm_func as given by the instance, all other parameters arbitrary"""
    pos = lambda r: r.randrange(1, 9) / 2
    P = params.Params(c, [('num_phases', 'int', None, self.np), ('relperm_func', ALLFUNC, None, None if self.func is None else ALLFUNC[self.func]), ('porosity', 'real', pos), ('permeability', 'real', pos)]
        + [(n, 'real', pos) for n in ('rho1', 'rho2', 'rho3', 'mu1', 'mu2', 'mu3')])
    self.params = c.v.P = P
    v = c.v
    v.np = P.get('num_phases', 2); f = P.get('relperm_func', 'Linear'); v.f = ALLFUNC.index(f)
    v.good = 1 <= v.np <= 2 and v.f < 3 and (v.f > 0 or v.np == 1)
    v.rho = [P.get('rho%d' % (i + 1), c.R(1000)) for i in range(3)]
    v.mu = [Approx(P.get('mu%d' % (i + 1), c.R(1)), 1e-3) for i in range(3)]
    return P.args()
class Par(Base):
    """properties built from parameters"""
    fn, d = 'h_incomp_par', 3
    def handlers(self): return params.handlers(self)
    def setup(self, c):
        v, d = c.v, self.d; a = parameters(self, c)
        v.nc, v.q = c.size('nc', 0), c.arr('q', 'int', 3); m = max(v.np, 0)
        v.s = c.arr('s', 'double', m * v.nc)
        return a + [0, d, v.nc, v.q] + self.out(c, ('dens', m), ('visc', m), ('Po', v.nc), ('K', d * d * v.nc), ('kr', m * v.nc)) + [v.s]
    def inv(self, c, L):
        v, d, np = c.v, self.d, c.v.np
        pe = Approx(v.P.get('permeability', c.R(100)), 9.869232667160130e-16)
        if v.good: yield 'all', c.forall(0, L.N, lambda k: v.kr[k] == kr(v.f, v.s[k]), pat=lambda k: [v.kr[k]])
        for a in L.real_arrays():
            yield from lay2(c, L, a, d, lambda i, p, q: pe if p == q else 0.0, 'perm')
            yield 'rest ' + a.name, c.forall(d * d * L.N, d * d * v.nc, lambda k: a[k] == 0, pat=lambda k: [a[k]])
            for i in range(min(np, 3)): yield 'mu %s %d' % (a.name, i), same(c, a[i], v.mu[i])
    def on_throw(self, c): c.check(not c.v.good, 'only inconsistent parameters are rejected')
    def post(self, c, r):
        v, np, d = c.v, c.v.np, self.d
        c.check(v.good, 'inconsistent parameters are rejected')
        if not v.good: return
        pe = Approx(v.P.get('permeability', c.R(100)), 9.869232667160130e-16)
        c.check(c.And(v.q[0] == np, v.q[1] == d, v.q[2] == v.nc), 'sizes')
        for p in range(np): c.check(c.near(v.dens[p], v.rho[p]), 'density'); c.check(same(c, v.visc[p], v.mu[p]), 'viscosity')
        c.check_all(0, v.nc, lambda i: c.near(v.Po[i], v.P.get('porosity', c.R(1))), 'porosity')
        layout2(c, v.K, v.nc, d, lambda i, p, q: pe if p == q else 0.0, 'permeability')
        layout(c, v.kr, v.nc, np, lambda i, p: kr(v.f, v.s[np * i + p]), 'relative permeability')
class ParBo(Par):
    fn = 'h_bo_par'
class Bo(Base):
    def handlers(self): return params.handlers(self)
    def base(self, c):
        v, np = c.v, self.np
        a = parameters(self, c); v.n = c.size('n', 0)
        v.p, v.z, v.cells = c.arr('p', 'double', v.n), c.arr('z', 'double', np * v.n), c.arr('cells', 'int', v.n)
        return a + [v.n]
class Matrix(Bo):
    fn = 'h_bo_matrix'
    def setup(self, c):
        v, np = c.v, self.np; a = self.base(c)
        return a + [v.p, v.z, v.cells] + self.out(c, ('A', np * np * v.n)) + [self.null(c, 'dA', np * np * v.n)]
    def inv(self, c, L):
        v, np = c.v, self.np
        yield from lay2(c, L, v.A, np, lambda i, p, q: float(p == q), 'A')
        if self.deriv: yield from lay2(c, L, v.dA, np, lambda i, p, q: 0.0, 'dA')
    def post(self, c, r):
        v, np = c.v, self.np
        layout2(c, v.A, v.n, np, lambda i, p, q: float(p == q), 'matrix')
        if self.deriv: layout2(c, v.dA, v.n, np, lambda i, p, q: 0.0, 'derivative')
class Density(Bo):
    fn = 'h_bo_density'
    def setup(self, c):
        v, np = c.v, self.np; a = self.base(c)
        return a + self.out(c, ('A', np * np * v.n), ('out', np * v.n))
    def val(self, c, i, p): v, np = c.v, self.np; return sum((v.A[np * np * i + np * p + q] * v.rho[q] for q in range(1, np)), v.A[np * np * i + np * p] * v.rho[0])
    def inv(self, c, L): yield from lay(c, L, c.v.out, self.np, lambda i, p: self.val(c, i, p), 'rho')
    def post(self, c, r): layout(c, c.v.out, c.v.n, self.np, lambda i, p: self.val(c, i, p), 'density')
class Viscosity(Bo):
    fn = 'h_bo_visc'
    def setup(self, c):
        v, np = c.v, self.np; a = self.base(c)
        return a + [v.p, v.z, v.cells] + self.out(c, ('out', np * v.n)) + [self.null(c, 'd', np * v.n)]
    def on_throw(self, c): c.check(self.deriv, 'only derivatives are rejected')
    def inv(self, c, L):
        v, np = c.v, self.np
        yield from lay(c, L, v.out, np, lambda i, p: v.mu[p], 'mu')
        for p in range(np): yield 'whole %d' % p, c.forall(0, v.n, lambda i: same(c, v.out[np * i + p], v.mu[p]), pat=lambda i: [v.out[np * i + p]])
    def post(self, c, r):
        v = c.v
        c.check(not self.deriv, 'derivatives are rejected')
        layout(c, v.out, v.n, self.np, lambda i, p: v.mu[p], 'viscosity')
class Sat(Bo):
    fn = 'h_bo_sat'
    def setup(self, c):
        v, np = c.v, self.np; a = self.base(c); m, mm = np * v.n, np * np * v.n
        v.s = c.arr('s', 'double', m)
        return a + [v.s, v.cells] + self.out(c, ('kr', m), ('dkr', mm), ('pc', m), ('dpc', mm), ('lo', m), ('hi', m))
    inv = Relperm.inv
    def post(self, c, r): satcheck(c, c.v, self.np, self.func)

def variants(cls, nps, funcs=None, derivs=(True, False)):
    out = []
    for np in nps:
        for f in funcs if funcs is not None else (1,):
            for d in derivs:
                s = cls(); s.np, s.func, s.deriv = np, f, d
                s.name = '%s/np%d' % (cls.__name__, np) + ('/' + FUNC[f] if funcs is not None else '') + ('' if len(derivs) == 1 else '/deriv' if d else '/noderiv')
                out.append(s)
    return out
SPECS = variants(Relperm, (1, 2, 3), (0, 1, 2)) + variants(CapPress, (1, 2, 3)) + variants(SatRange, (1, 2, 3), derivs=(True,)) \
    + each_np(Pvt) + [PvtBad()] + each_dim(Rock) + [Comp(), CompMult(), CompRate(), CompActive(), CompDeck()] + variants(Incomp, (1, 2, 3), derivs=(True,)) + variants(IncompSat, (1, 2, 3), (1, 2), derivs=(True,)) \
    + variants(Matrix, (1, 2)) + variants(Density, (1, 2), derivs=(True,)) + variants(Viscosity, (1, 2)) + variants(Sat, (1, 2), (1, 2), derivs=(True,))
for cls in (Par, ParBo):
    for np in (None, 0, 1, 2, 3):
        for f in (None, 0, 1, 2, 3):
            if np in (None, 0, 3) and f not in (None, 2): continue
            s = cls(); s.np, s.func = np, f
            s.name = '%s/np%s/%s' % (cls.__name__, 'def' if np is None else np, 'def' if f is None else ALLFUNC[f]); SPECS.append(s)
