"""C19: cell-wise reservoir quantities"""
from dsl import Spec
from lib import *
TU = 'harness/misc.cpp'

class PoreVolume(Spec):
    tu, fn, ret, structs = TU, 'h_porevolume', 'int', ('UnstructuredGrid',)
    def setup(self, c):
        v = c.v
        v.n = c.size('nc', 0); v.o = c.size('old', 0)
        v.poro, v.vol = c.arr('poro', 'double', v.n), c.arr('vol', 'double', v.n)
        v.out = c.arr('out', 'double', v.n)
        g = c.struct('g', 'UnstructuredGrid', number_of_cells=v.n, cell_volumes=v.vol)
        return [g, v.poro, v.o, v.out]
    def inv(self, c, L):
        v = c.v
        for A in L.real_arrays():
            yield 'pv ' + A.name, c.forall(0, L.N, lambda i: A[i] == v.poro[i] * v.vol[i])
    def post(self, c, r):
        v = c.v
        c.check(r == v.n, 'one value per cell')
        c.check_all(0, v.n, lambda i: c.eq(v.out[i], v.poro[i] * v.vol[i]), 'pore volume is porosity times volume')
        c.unchanged(v.poro); c.unchanged(v.vol)

class SatVol(Spec):
    tu, fn = TU, 'h_satvol'
    def setup(self, c):
        v, np = c.v, self.np
        v.n = c.size('nc', 1)
        v.pv, v.s = c.arr('pv', 'double', v.n), c.arr('s', 'double', v.n * np)
        v.out = c.arr('out', 'double', np)
        v.S = [c.psum('sv%d' % p, v.n, lambda k, p=p: v.pv[k] * v.s[np * k + p], ret='real') for p in range(np)]
        v.PV = c.psum('pv', v.n, lambda k: v.pv[k], ret='real')
        return [v.pv, v.n, v.s, v.n * np, v.out]
    def inv(self, c, L):
        v = c.v
        for S in v.S + [v.PV]: S.unfold(L.N)
        for A in L.real_arrays():
            for p in range(self.np): yield 'sum %s%d' % (A.name, p), A[p] == v.S[p](L.N)
        for n, x in L.named_reals: yield 'pv' + n, x == v.PV(L.N)
    def post(self, c, r):
        v = c.v
        for p in range(self.np): c.check(c.eq(v.out[p], v.S[p](v.n)), 'saturated volume of phase %d' % p)
class AveSat(SatVol):
    fn = 'h_avesat'
    def setup(self, c):
        a = super().setup(c)
        v = c.v
        c.assume(v.PV(v.n) > 0)
        return a
    def post(self, c, r):
        v = c.v
        for p in range(self.np): c.check(c.eq(v.out[p] * v.PV(v.n), v.S[p](v.n)), 'average saturation of phase %d' % p)
class Mismatch(Spec):
    """sizes that do not match are refused"""
    tu, fn, throws = TU, 'h_satvol', True
    def setup(self, c):
        v, np = c.v, 2
        v.n = c.size('nc', 2); v.rem = c.int('rem', 1, None, gen=lambda r: 1)
        c.assume(v.rem < v.n)
        v.pv, v.s = c.arr('pv', 'double', v.n), c.arr('s', 'double', v.n * np + v.rem)
        v.out = c.arr('out', 'double', np + 1)
        return [v.pv, v.n, v.s, v.n * np + v.rem, v.out]
    def post(self, c, r): c.check(False, 'mismatching sizes are refused')

class ToWater(Spec):
    tu, fn, ret = TU, 'h_tosw', 'int'
    def setup(self, c):
        v = c.v
        v.n = c.size('n', 0); v.s = c.arr('s', 'double', 2 * v.n); v.out = c.arr('out', 'double', v.n)
        return [v.s, 2 * v.n, v.out]
    def inv(self, c, L):
        for A in L.real_arrays(): yield 'w ' + A.name, c.forall(0, L.N, lambda i: A[i] == c.v.s[2 * i])
    def post(self, c, r):
        v = c.v
        c.check(r == v.n, 'one value per cell')
        c.check_all(0, v.n, lambda i: v.out[i] == v.s[2 * i], 'water saturation is the first of the pair')
class ToBoth(Spec):
    tu, fn, ret = TU, 'h_toboth', 'int'
    def setup(self, c):
        v = c.v
        v.n = c.size('n', 0); v.s = c.arr('s', 'double', v.n); v.out = c.arr('out', 'double', 2 * v.n)
        return [v.s, v.n, v.out]
    def inv(self, c, L):
        for A in L.real_arrays(): yield 'b ' + A.name, c.forall(0, L.N, lambda i: c.And(A[2 * i] == c.v.s[i], A[2 * i + 1] == 1 - c.v.s[i]), pat=lambda i: [A[2 * i], A[2 * i + 1]])
    def post(self, c, r):
        v = c.v
        c.check(r == 2 * v.n, 'two values per cell')
        c.check_all(0, v.n, lambda i: c.And(v.out[2 * i] == v.s[i], c.eq(v.out[2 * i + 1], 1 - v.s[i])), 'saturations are (s, 1-s)')

class InjProd(Spec):
    abs_only = True
    tu, fn = TU, 'h_injprod'
    def setup(self, c):
        v, np = c.v, self.np
        v.n = c.size('nc', 1)
        v.kr = c.arr('kr', 'double', v.n * np, lo=0.125, hi=1); v.mu = c.arr('mu', 'double', np, lo=0.5, hi=8)
        v.s, v.src = c.arr('s', 'double', v.n * np, lo=0, hi=1), c.arr('src', 'double', v.n)
        v.dt = c.real('dt', 0)
        v.inj, v.prod = c.arr('inj', 'double', np), c.arr('prod', 'double', np)
        mob = lambda k, p: (v.kr[np * k + p] + v.s[np * k + p]) / v.mu[p]
        def tot(k):
            t = mob(k, 0)
            for p in range(1, np): t = t + mob(k, p)
            return t
        v.I = c.psum('I', v.n, lambda k: c.Ite(v.src[k] > 0, v.src[k] * v.dt, c.R(0)), ret='real')
        v.Pp = [c.psum('P%d' % p, v.n, lambda k, p=p: c.Ite(v.src[k] < 0, mob(k, p) / tot(k) * (-v.src[k] * v.dt), c.R(0)) if not c.native or v.src[k] < 0 else 0.0, ret='real') for p in range(np)]
        v.O = c.psum('O', v.n, lambda k: c.Ite(v.src[k] < 0, -v.src[k] * v.dt, c.R(0)), ret='real')
        return [v.n, np, v.kr, v.mu, v.s, v.src, v.dt, v.inj, v.prod]
    def inv(self, c, L):
        v, np = c.v, self.np
        for S in [v.I, v.O] + v.Pp: S.unfold(L.N)
        for A in L.real_arrays():
            yield 'i ' + A.name, A[0] == v.I(L.N)
            for p in range(np):
                yield 'p%d %s' % (p, A.name), A[p] == v.Pp[p](L.N)
                if p: yield 'z%d %s' % (p, A.name), A[p] == 0
            yield 'tot ' + A.name, sum((A[p] for p in range(1, np)), A[0]) == v.O(L.N)
    def post(self, c, r):
        v, np = c.v, self.np
        c.check(c.eq(v.inj[0], v.I(v.n)), 'injected first phase is the total inflow')
        for p in range(1, np): c.check(v.inj[p] == 0, 'only the first phase is injected')
        for p in range(np): c.check(c.eq(v.prod[p], v.Pp[p](v.n)), 'produced volume follows the fractional flow')
        c.check(c.eq(sum((v.prod[p] for p in range(1, np)), v.prod[0]), v.O(v.n)), 'produced volumes add up to the total outflow')

class Mob(Spec):
    abs_only = True
    tu, fn, ret = TU, 'h_totmob', 'int'
    which = 0
    def setup(self, c):
        v, np = c.v, self.np
        v.n = c.size('n', 1); v.nc = c.size('nc', 1)
        v.kr = c.arr('kr', 'double', v.nc * np, lo=0.125, hi=1); v.mu = c.arr('mu', 'double', np, lo=0.5, hi=8); v.rho = c.arr('rho', 'double', np)
        v.cells = c.arr('cells', 'int', v.n, lo=0, hi=v.nc)
        v.s = c.arr('s', 'double', v.n * np, lo=0, hi=1)
        v.out, v.out2 = c.arr('out', 'double', v.n * np), c.arr('out2', 'double', v.n)
        v.mob = [c.fun('mob%d' % p, 1, lambda i, p=p: self.kr(c, i, p) / v.mu[p]) for p in range(np)]
        return [v.n, v.nc, np, v.kr, v.mu, v.rho, v.cells, v.s, self.which, v.out, v.out2]
    def kr(self, c, i, p): return c.v.kr[c.v.cells[i] * self.np + p] + c.v.s[i * self.np + p]
    def mob(self, c, i, p): return c.v.mob[p](i)
    def positive(self, c, i):
        for p in range(self.np):
            c.v.mob[p].unfold(i)
            c.lemma(self.mob(c, i, p) > 0)
    def tot(self, c, i, upto=None):
        t = c.R(0)
        for p in range(self.np if upto is None else upto): t = t + self.mob(c, i, p)
        return t
    def inv(self, c, L):
        v, np = c.v, self.np
        for i in [L.N] + L.outer:
            for m in v.mob: m.unfold(i)
        yield 'pos', True
        for A in L.real_arrays():
            for p in range(np):
                yield 'kr%d %s' % (p, A.name), c.forall(0, L.N, lambda i: A[i * np + p] == self.kr(c, i, p))
                yield 'mob%d %s' % (p, A.name), c.forall(0, L.N, lambda i: A[i * np + p] == self.mob(c, i, p))
                yield 'krrest%d %s' % (p, A.name), c.forall(L.N, v.n, lambda i: A[i * np + p] == self.kr(c, i, p))
                yield 'mobrest%d %s' % (p, A.name), c.forall(L.N, v.n, lambda i: A[i * np + p] == self.mob(c, i, p))
                yield 'ff%d %s' % (p, A.name), c.forall(0, L.N, lambda i: A[i * np + p] == self.mob(c, i, p) / self.tot(c, i))
            yield 'tot ' + A.name, c.forall(0, L.N, lambda i: A[i] == self.tot(c, i))
            yield 'rest0 ' + A.name, c.forall(L.N, v.n, lambda i: A[i] == 0)
            yield 'omega ' + A.name, c.forall(0, L.N, lambda i: A[i] == self.omega(c, i))
    def omega(self, c, i): return sum((self.mob(c, i, p) * c.v.rho[p] for p in range(self.np)), c.R(0)) / self.tot(c, i)
    def post(self, c, r):
        v, np = c.v, self.np
        c.check(r == v.n * np, 'one mobility per phase and cell')
        for p in range(np): c.check_all(0, v.n, lambda i: c.eq(v.out[i * np + p], self.kr(c, i, p) / v.mu[p]), 'phase mobility is relperm over viscosity', hint=lambda i: [v.mob[p].unfold(i)])
class TotMob(Mob):
    which = 1
    def post(self, c, r):
        v = c.v
        c.check(r == v.n, 'one value per cell')
        c.check_all(0, v.n, lambda i: c.eq(v.out[i], self.tot(c, i)), 'total mobility is the sum of phase mobilities')
class Omega(Mob):
    which = 2
    def post(self, c, r):
        v = c.v
        c.check(r == v.n, 'one value per cell')
        c.check_all(0, v.n, lambda i: c.eq(v.out[i], self.tot(c, i)), 'total mobility is the sum of phase mobilities')
        c.check_all(0, v.n, lambda i: c.eq(v.out2[i], self.omega(c, i)), 'omega is the mobility weighted density')
class FracFlow(Mob):
    which = 3
    def post(self, c, r):
        v, np = c.v, self.np
        c.check(r == v.n * np, 'one value per phase and cell')
        for p in range(np): c.check_all(0, v.n, lambda i: c.eq(v.out[i * np + p], self.mob(c, i, p) / self.tot(c, i)), 'fractional flow is the mobility share')
        c.check_all(0, v.n, lambda i: c.eq(sum((v.out[i * np + p] for p in range(np)), c.R(0)), c.R(1)), 'fractional flows add up to one',
                    hint=lambda i: [self.positive(c, i), self.tot(c, i) > 0, c.eq(sum((self.mob(c, i, p) / self.tot(c, i) for p in range(np)), c.R(0)), c.R(1))] + [v.out[i * np + p] == self.mob(c, i, p) / self.tot(c, i) for p in range(np)])

class WellRates(Spec):
    """flow rate of a well: the sum over its perforations"""
    tu, fn, ret, structs = TU, 'h_wellrates', 'int', ('Wells',)
    def setup(self, c):
        v = c.v
        v.n = c.size('nw', 0)
        v.pos, v.nq = monotone(c, 'connpos', v.n)
        v.q, v.out = c.arr('q', 'double', v.nq), c.arr('out', 'double', v.n)
        v.S = c.sum2('rate', lambda w, k: v.q[k], lo=lambda w: v.pos[w])
        v.S.base_all()
        return [v.n, v.pos, v.q, v.nq, v.out]
    def inv(self, c, L):
        v = c.v
        w = L.outer[-1] if L.outer else None
        if w is None:
            yield from ((n, x == v.pos[L.N]) for n, x in L.named_ints)
            for A in L.real_arrays():
                if L.writes(A): yield 'done ' + A.name, c.forall(0, L.N, lambda i: A[i] == v.S(i, v.pos[i + 1]), pat=lambda i: A[i])
        else:
            k = v.pos[w] + L.N
            v.S.unfold(w, k)
            for n, x in L.named_ints: yield n, x == k
            for n, x in list(L.named_reals) + list(L.cell_reals): yield n, x == v.S(w, k)
    def post(self, c, r):
        v = c.v
        c.check(r == v.n, 'one rate per well')
        c.check_all(0, v.n, lambda i: c.eq(v.out[i], v.S(i, v.pos[i + 1])), 'rate of a well is the sum over its perforations')
        c.unchanged(v.q); c.unchanged(v.pos)

class WellPhases(Spec):
    """phase rates of a well: the sum over its perforations of rate times fractional flow in the cell"""
    abs_only = True
    tu, fn, ret, structs = TU, 'h_wellphases', 'int', ('Wells',)
    def setup(self, c):
        v, np = c.v, self.np
        v.n = c.size('nw', 1); v.nc = c.size('nc', 1); v.o = c.size('old', 0)
        v.pos, v.nq = monotone(c, 'connpos', v.n)
        v.cells = c.arr('cells', 'int', v.nq, lo=0, hi=v.nc)
        v.q, v.ff, v.out = c.arr('q', 'double', v.nq), c.arr('ff', 'double', v.nc * np), c.arr('out', 'double', v.n * np)
        v.S = [c.sum2('rate%d' % p, lambda w, k, p=p: v.q[k] * v.ff[v.cells[k] * np + p], lo=lambda w: v.pos[w]) for p in range(np)]
        for S in v.S: S.base_all()
        return [v.n, np, v.pos, v.cells, v.q, v.nq, v.ff, v.nc * np, v.o, v.out]
    def inv(self, c, L):
        v, np = c.v, self.np
        w = L.outer[-1] if L.outer else L.N
        k = v.pos[w] + L.N
        if L.outer:
            for S in v.S: S.unfold(w, k)
        for A in L.real_arrays():
            if not L.writes(A): continue
            for p in range(np):
                yield 'done%d %s' % (p, A.name), c.forall(0, w, lambda i: A[i * np + p] == v.S[p](i, v.pos[i + 1]), pat=lambda i: A[i * np + p])
                if L.outer: yield 'now%d %s' % (p, A.name), A[w * np + p] == v.S[p](w, k)
        if L.outer:
            for n, x in L.named_ints: yield 'at ' + n, x == k
    def post(self, c, r):
        v, np = c.v, self.np
        c.check(r == v.n * np, 'one rate per phase and well')
        for p in range(np): c.check_all(0, v.n, lambda i: c.eq(v.out[i * np + p], v.S[p](i, v.pos[i + 1])), 'phase rate of a well')
        for a in (v.q, v.ff, v.cells, v.pos): c.unchanged(a)

class TransportSource(Spec):
    """transport source of a cell: its source and the flux over the boundary, inflow reduced to the inflow fraction"""
    abs_only = True
    tu, fn, ret, structs = TU, 'h_tsrc', 'int', ('UnstructuredGrid', 'Wells')
    def part(self, c, x): return c.Ite(x > 0, c.v.frac * x, x)
    def setup(self, c):
        v = c.v
        v.G = G = grid_cells(c, 2)
        v.src, v.flux = c.arr('src', 'double', G.nc), c.arr('flux', 'double', G.nf)
        v.frac = c.real('frac'); v.out = c.arr('out', 'double', G.nc)
        v.perf = c.arr('perf', 'double', 1)
        def term(i, k):
            f = G.faces[k]
            x = c.Ite(G.fc[2 * f] == i, -v.flux[f], v.flux[f])
            bdy = c.Or(c.And(G.fc[2 * f] == i, G.fc[2 * f + 1] == -1), c.And(G.fc[2 * f] == -1, G.fc[2 * f + 1] == i))
            return c.Ite(bdy, self.part(c, x), c.R(0))
        v.T = c.sum2('boundary', term, lo=lambda i: G.pos[i])
        v.T.base_all()
        return [G.g, v.src, v.flux, v.frac, c.null(), v.perf, 0, v.out]
    def inv(self, c, L):
        v, G = c.v, c.v.G
        i = L.outer[-1] if L.outer else L.N
        k = G.pos[i] + L.N
        if L.outer: v.T.unfold(i, k)
        for A in L.real_arrays():
            if not L.writes(A): continue
            yield 'done ' + A.name, c.forall(0, i, lambda q: A[q] == self.part(c, v.src[q]) + v.T(q, G.pos[q + 1]), pat=lambda q: A[q])
            if L.outer: yield 'now ' + A.name, A[i] == self.part(c, v.src[i]) + v.T(i, k)
        if L.outer:
            for n, x in L.named_ints: yield 'at ' + n, x == k
    def post(self, c, r):
        v, G = c.v, c.v.G
        c.check(r == G.nc, 'one source per cell')
        c.check_all(0, G.nc, lambda q: c.eq(v.out[q], self.part(c, v.src[q]) + v.T(q, G.pos[q + 1])), 'source and boundary flux, inflow reduced to the inflow fraction')
        for a in (v.src, v.flux, G.faces, G.fc, G.pos): c.unchanged(a)

class WellSource(TransportSource):
    """transport source with wells: perforation rates, inflow of injectors reduced to their first component, crossflow ignored"""
    def setup(self, c):
        v = c.v
        out = TransportSource.setup(self, c)
        G = v.G
        c.assume(G.nc >= 1)
        v.nw = c.size('nw', 0)
        v.wpos, v.nperf = monotone(c, 'connpos', v.nw)
        v.wown = owner(c, 'well', v.wpos, v.nw, v.nperf)
        v.wcells = c.arr('wcells', 'int', v.nperf, lo=0, hi=G.nc, gen=lambda r, n: [r.randrange(max(int(G.nc), 1)) for _ in range(n)])
        v.type = c.arr('type', 'int', v.nw, lo=0, hi=2, gen=lambda r, n: [r.randint(0, 1) for _ in range(n)])
        def fr(r, n):
            o = []
            while len(o) < n: x = r.randint(0, 4) / 4; o += [x, 1 - x]
            return o
        v.cf = c.arr('compfrac', 'double', 2 * v.nw, gen=fr)
        c.assume(c.forall(0, v.nw, lambda w: v.cf[2 * w] + v.cf[2 * w + 1] == 1))
        v.rate = c.arr('perfrate', 'double', v.nperf)
        def term(i, k):
            w = v.wown[k]
            x = c.Ite(v.rate[k] > 0, c.Ite(v.type[w] == 0, v.rate[k] * v.cf[2 * w], c.R(0)), v.rate[k])
            return c.Ite(v.wcells[k] == i, x, c.R(0))
        v.W = c.sum2('wells', term)
        v.W.base_all()
        W = c.struct('W', 'Wells', number_of_wells=v.nw, number_of_phases=2, well_connpos=v.wpos, well_cells=v.wcells, type=v.type, comp_frac=v.cf)
        return out[:4] + [W, v.rate, v.nperf, v.out]
    def value(self, c, q):
        v, G = c.v, c.v.G
        return self.part(c, v.src[q]) + v.T(q, G.pos[q + 1])
    def inv(self, c, L):
        v, G = c.v, c.v.G
        yield from TransportSource.inv(self, c, L)
        w = L.outer[-1] if L.outer else L.N
        k = v.wpos[w] + (L.N if L.outer else 0)
        if L.outer:
            v.W.unfold_all(k)
            yield 'well', owned(c, v.wpos, v.wown, w, k)
            for n, x in L.named_ints: yield 'perforation ' + n, x == k
        for A in L.real_arrays():
            if L.writes(A): yield 'wells ' + A.name, c.forall(0, G.nc, lambda q: A[q] == self.value(c, q) + v.W(q, k), pat=lambda q: A[q])
    def post(self, c, r):
        v, G = c.v, c.v.G
        c.check(r == G.nc, 'one source per cell')
        c.check_all(0, G.nc, lambda q: c.eq(v.out[q], self.value(c, q) + v.W(q, v.nperf)), 'source, boundary flux and perforation rates')
        for a in (v.src, v.flux, v.rate, v.cf): c.unchanged(a)

class CellVelocity(Spec):
    """cell velocity: the sum over the faces of a cell of outward flux times the vector from the cell to the face, over the volume"""
    abs_only = True
    tu, fn, ret, structs = TU, 'h_cellvel', 'int', ('UnstructuredGrid',)
    def setup(self, c):
        v, d = c.v, self.d
        v.G = G = grid_cells(c, d, geometry='positive')
        c.assume(c.forall(0, G.nc, lambda i: G.vol[i] > 0, pat=lambda i: G.vol[i]))
        v.flux = c.arr('flux', 'double', G.nf); v.out = c.arr('out', 'double', G.nc * d)
        def term(e):
            def at(i, f):
                x = (G.fcen[f * d + e] - G.cc[i * d + e]) * (v.flux[f] / G.vol[i])
                return c.Ite(G.fc[2 * f] == i, x, c.Ite(G.fc[2 * f + 1] == i, -x, c.R(0)))
            return lambda i, f: at(i, f) if not c.native or 0 <= i < int(G.nc) else 0.0
        v.V = [c.sum2('velocity%d' % e, term(e)) for e in range(d)]
        for V in v.V: V.base_all()
        return [G.g, v.flux, v.out]
    def inv(self, c, L):
        v, d, G = c.v, self.d, c.v.G
        if L.outer: return
        for V in v.V: V.unfold_all(L.N)
        for A in L.real_arrays():
            if not L.writes(A): continue
            for e in range(d): yield 'velocity%d %s' % (e, A.name), c.forall(0, G.nc, lambda i: A[i * d + e] == v.V[e](i, L.N), pat=lambda i: [v.V[e](i, L.N)])
    def post(self, c, r):
        v, d, G = c.v, self.d, c.v.G
        c.check(r == G.nc * d, 'one vector per cell')
        for e in range(d): c.check_all(0, G.nc, lambda i: c.eq(v.out[i * d + e], v.V[e](i, G.nf)), 'velocity of a cell, component %d' % e)
        for a in (v.flux, G.fc, G.fcen, G.cc, G.vol): c.unchanged(a)

class SurfaceVol(Spec):
    """surface volumes: the matrix of every cell times its saturations"""
    abs_only = True
    tu, fn = 'harness/blackoil.cpp', 'h_surfacevol'
    def setup(self, c):
        v, np = c.v, self.np
        v.n = c.size('n', 0)
        v.A, v.s, v.out = c.arr('A', 'double', v.n * np * np), c.arr('s', 'double', v.n * np), c.arr('out', 'double', v.n * np)
        return [v.n, np, v.A, v.s, v.out]
    def val(self, c, i, row):
        v, np = c.v, self.np
        t = c.R(0)
        for col in range(np): t = t + v.A[i * np * np + row + col * np] * v.s[i * np + col]
        return t
    def inv(self, c, L):
        v, np = c.v, self.np
        if L.fn.name != 'h_surfacevol' and 'computeSurfacevol' not in L.fn.name:
            yield 'cleared', c.forall(0, L.N, lambda i: v.out[i] == 0, pat=lambda i: v.out[i]); return
        for p in range(np):
            yield 'done%d' % p, c.forall(0, L.N, lambda i: v.out[i * np + p] == self.val(c, i, p), pat=lambda i: v.out[i * np + p])
            yield 'rest%d' % p, c.forall(L.N, v.n, lambda i: v.out[i * np + p] == 0, pat=lambda i: v.out[i * np + p])
    def post(self, c, r):
        v, np = c.v, self.np
        for p in range(np): c.check_all(0, v.n, lambda i: c.eq(v.out[i * np + p], self.val(c, i, p)), 'surface volume is the matrix times the saturations')
        c.unchanged(v.A); c.unchanged(v.s)

class BlackoilMob(Mob):
    """phase mobilities of the black-oil model: viscosities vary by cell"""
    tu, fn = 'harness/blackoil.cpp', 'h_bmob'
    def setup(self, c):
        v, np = c.v, self.np
        v.n = c.size('n', 1)
        v.kr = c.arr('kr', 'double', v.n * np, lo=0.125, hi=1); v.mu = c.arr('mu', 'double', v.n * np, lo=0.5, hi=8)
        v.cells = c.arr('cells', 'int', v.n, lo=0, hi=v.n)
        v.p = c.arr('p', 'double', v.n, lo=0, hi=1); v.z = c.arr('z', 'double', v.n * np, lo=0, hi=1)
        v.s = c.arr('s', 'double', v.n * np, lo=0, hi=1)
        v.out = c.arr('out', 'double', v.n * np)
        v.fm = c.fun('flat', 1, lambda k: self.fkr(c, k) / self.fmu(c, k))
        v.share = [c.fun('share%d' % p, 1, lambda i, p=p: self.mob(c, i, p) / self.tot(c, i)) for p in range(np)]
        return [v.n, np, v.kr, v.mu, v.cells, v.p, v.z, v.s, self.which, v.out]
    def mob(self, c, i, p): return c.v.fm(i * self.np + p)
    def positive(self, c, i):
        for p in range(self.np):
            c.v.fm.unfold(i * self.np + p)
            c.lemma(self.mob(c, i, p) > 0)
    def visc(self, c, i, p): return c.v.mu[c.v.cells[i] * self.np + p] + c.v.p[i] + c.v.z[i * self.np + p]
    def inv(self, c, L):
        v, np = c.v, self.np
        N = L.N
        v.fm.unfold(N)
        for p in range(np): v.fm.unfold(N * np + p)
        if not L.outer: c.lemma(c.Implies(c.And(0 <= N, N < v.n * np), c.And(self.fmu(c, N) > 0, self.fkr(c, N) > 0)))
        for A in L.real_arrays():
            if not L.writes(A): continue
            if 'computeTotal' in L.fn.name:
                yield 'tot ' + A.name, c.forall(0, N, lambda i: A[i] == self.tot(c, i))
                yield 'rest ' + A.name, c.forall(N, v.n, lambda i: A[i] == 0)
                continue
            if 'computeFrac' in L.fn.name:
                c.lemma(c.Implies(c.And(0 <= N, N < v.n), c.And(*[self.mob(c, N, p) > 0 for p in range(np)])))
                for p in range(np):
                    v.share[p].unfold(N)
                    yield 'ff%d %s' % (p, A.name), c.forall(0, N, lambda i: A[i * np + p] == v.share[p](i), pat=lambda i: [A[i * np + p], v.share[p](i)])
                yield 'mobrest ' + A.name, c.forall(N * np, v.n * np, lambda k: A[k] == v.fm(k), pat=lambda k: A[k])
                continue
            for nm, f, up in (('kr', self.fkr, N * np), ('mu', self.fmu, N * np), ('mob', lambda c, k: v.fm(k), N)):
                yield '%s %s' % (nm, A.name), c.forall(0, up, lambda k: A[k] == f(c, k), pat=lambda k: A[k])
            yield 'krrest ' + A.name, c.forall(N, v.n * np, lambda k: A[k] == self.fkr(c, k), pat=lambda k: A[k])
    def fkr(self, c, k): return c.v.kr[c.v.cells[c.div(k, self.np)] * self.np + c.mod(k, self.np)] + c.v.s[k]
    def fmu(self, c, k): return c.v.mu[c.v.cells[c.div(k, self.np)] * self.np + c.mod(k, self.np)] + c.v.p[c.div(k, self.np)] + c.v.z[k]
    def post(self, c, r):
        v, np = c.v, self.np
        c.check(r == v.n * np, 'one mobility per phase and cell')
        for p in range(np): c.check_all(0, v.n, lambda i: c.eq(v.out[i * np + p], self.kr(c, i, p) / self.visc(c, i, p)), 'phase mobility is relperm over viscosity', hint=lambda i: [v.fm.unfold(i * np + p)])
class BlackoilTot(BlackoilMob):
    which, post = 1, TotMob.post
class BlackoilFrac(BlackoilMob):
    which = 2
    def post(self, c, r):
        v, np = c.v, self.np
        c.check(r == v.n * np, 'one value per phase and cell')
        def facts(i):
            self.positive(c, i)
            for p in range(np): v.share[p].unfold(i)
            c.lemma(c.eq(sum((v.share[p](i) for p in range(np)), c.R(0)), c.R(1)))
            return True
        for p in range(np): c.check_all(0, v.n, lambda i: c.eq(v.out[i * np + p], self.mob(c, i, p) / self.tot(c, i)), 'fractional flow is the mobility share', hint=lambda i: [v.share[p].unfold(i)])
        c.check_all(0, v.n, lambda i: c.eq(sum((v.out[i * np + p] for p in range(np)), c.R(0)), c.R(1)), 'fractional flows add up to one', hint=lambda i: [facts(i)] + [v.out[i * np + p] == v.share[p](i) for p in range(np)])

class BlackoilInjProd(Spec):
    """injected and produced surface volumes of the black-oil model"""
    abs_only = True
    tu, fn = 'harness/blackoil.cpp', 'h_binjprod'
    def setup(self, c):
        v, np = c.v, self.np
        v.n = c.size('nc', 1)
        v.kr = c.arr('kr', 'double', v.n * np, lo=0.125, hi=1); v.mu = c.arr('mu', 'double', v.n * np, lo=0.5, hi=8)
        v.A = c.arr('A', 'double', v.n * np * np)
        v.p = c.arr('p', 'double', v.n, lo=0, hi=1); v.z = c.arr('z', 'double', v.n * np, lo=0, hi=1)
        v.s, v.src = c.arr('s', 'double', v.n * np, lo=0, hi=1), c.arr('src', 'double', v.n)
        v.dt = c.real('dt', 0)
        v.inj, v.prod = c.arr('inj', 'double', np), c.arr('prod', 'double', np)
        mob = lambda k, p: (v.kr[np * k + p] + v.s[np * k + p]) / (v.mu[np * k + p] + v.p[k] + v.z[np * k + p])
        def tot(k):
            t = mob(k, 0)
            for p in range(1, np): t = t + mob(k, p)
            return t
        def out(k, q):
            if c.native and not v.src[k] < 0: return 0.0
            t = c.R(0)
            for p in range(np): t = t + mob(k, p) / tot(k) * (-v.src[k] * v.dt) * v.A[k * np * np + q + np * p]
            return c.Ite(v.src[k] < 0, t, c.R(0))
        v.I = c.psum('I', v.n, lambda k: c.Ite(v.src[k] > 0, v.src[k] * v.dt, c.R(0)), ret='real')
        v.Q = [c.psum('P%d' % q, v.n, lambda k, q=q: out(k, q), ret='real') for q in range(np)]
        return [v.n, np, v.kr, v.mu, v.A, v.p, v.z, v.s, v.src, v.dt, v.inj, v.prod]
    def inv(self, c, L):
        v, np = c.v, self.np
        for S in [v.I] + v.Q: S.unfold(L.N)
        for A in L.real_arrays():
            yield 'i ' + A.name, A[0] == v.I(L.N)
            for p in range(np):
                yield 'p%d %s' % (p, A.name), A[p] == v.Q[p](L.N)
                if p: yield 'z%d %s' % (p, A.name), A[p] == 0
    def post(self, c, r):
        v, np = c.v, self.np
        c.check(c.eq(v.inj[0], v.I(v.n)), 'injected first phase is the total inflow')
        for p in range(1, np): c.check(v.inj[p] == 0, 'only the first phase is injected')
        for p in range(np): c.check(c.eq(v.prod[p], v.Q[p](v.n)), 'produced surface volume')

SPECS = [PoreVolume(), ToWater(), ToBoth(), Mismatch(), WellRates(), TransportSource(), WellSource()]
for k in (SatVol, AveSat, InjProd, Mob, TotMob, Omega, FracFlow, WellPhases, SurfaceVol, BlackoilMob, BlackoilTot, BlackoilInjProd): SPECS += each_np(k)
SPECS += each_np(BlackoilFrac, (1, 2))
SPECS += each_dim(CellVelocity)
