"""C13: explicit upwind transport step, compressible quantities"""
from dsl import Spec
from lib import *

def faces_only(c):
    from dsl import NS
    G = NS()
    G.nc, G.nf = c.size('nc', 1), c.size('nf', 0)
    def genfc(r, m):
        out = []
        nc = int(G.nc)
        for _ in range(int(G.nf)):
            a, b = r.randrange(nc), r.randrange(nc)
            if a == b or r.random() < 0.15: b = -1
            if r.random() < 0.5: a, b = b, a
            out += [a, b]
        return out
    G.fc = c.arr('fc', 'int', 2 * G.nf, gen=genfc)
    c.assume(c.forall(0, 2 * G.nf, lambda k: c.And(G.fc[k] >= -1, G.fc[k] < G.nc), pat=lambda k: G.fc[k]))
    c.assume(c.forall(0, G.nf, lambda f: G.fc[2 * f] != G.fc[2 * f + 1], pat=lambda f: (G.fc[2 * f], G.fc[2 * f + 1])))
    G.g = c.struct('g', 'UnstructuredGrid', number_of_cells=G.nc, number_of_faces=G.nf, face_cells=G.fc)
    return G

def upwind(c, df, gf, mi, mj):
    """upwind mobilities (water, oil) for Darcy flux df and gravity flux gf from i to j;
    mi, mj = (water, oil) mobilities of the two cells"""
    same = c.Or(c.And(df > 0, gf > 0), c.And(df < 0, gf < 0))
    mw1 = c.Ite(df > 0, mi[0], mj[0])
    mo1 = c.Ite(df - mw1 * gf > 0, mi[1], mj[1])
    mo2 = c.Ite(c.Or(df > 0, c.And(df == 0, gf < 0)), mi[1], mj[1])
    mw2 = c.Ite(df + mo2 * gf > 0, mi[0], mj[0])
    return c.Ite(same, mw1, mw2), c.Ite(same, mo1, mo2)

class Explicit(Spec):
    tu, fn, structs = 'opm/core/transport/minimal/spu_explicit.c', 'spu_explicit', ('UnstructuredGrid',)
    abs_only, abs_modes = True, ('flat',)
    samples = 150
    def setup(self, c):
        v = c.v
        v.G = G = faces_only(c)
        fl = lambda r, n: [r.choice([0.0, 0.0, 1.0, -1.0, 2.0, -0.5]) for _ in range(n)]
        v.s0, v.s = c.arr('s0', 'double', G.nc), c.arr('s', 'double', G.nc)
        v.mob = c.arr('mob', 'double', 2 * G.nc, gen=lambda r, n: [r.choice([0.5, 1.0, 2.0, 0.25, 4.0, 3.0]) for _ in range(n)])
        c.assume(c.forall(0, 2 * G.nc, lambda k: v.mob[k] > 0, pat=lambda k: v.mob[k]))
        v.df, v.gf = c.arr('dflux', 'double', G.nf, gen=fl), c.arr('gflux', 'double', G.nf, gen=fl)
        v.src = c.arr('src', 'double', G.nc)
        v.dt = c.real('dt', 0)
        v.F = c.fun('flux', 1, lambda f: self.flux(c, f))
        v.S0 = c.fun('base', 1, lambda i: self.base(c, i))
        v.T = c.sum2('T', lambda i, f: c.Ite(c.And(G.fc[2 * f] >= 0, G.fc[2 * f + 1] >= 0), c.Ite(G.fc[2 * f] == i, -v.F(f) * v.dt, c.Ite(G.fc[2 * f + 1] == i, v.F(f) * v.dt, c.R(0))), c.R(0)))
        v.T.base_all()
        return [G.g, v.s0, v.s, v.mob, v.df, v.gf, v.src, v.dt]
    def mobs(self, c, f):
        G, v = c.v.G, c.v
        i, j = G.fc[2 * f], G.fc[2 * f + 1]
        return upwind(c, v.df[f], v.gf[f], (v.mob[2 * i], v.mob[2 * i + 1]), (v.mob[2 * j], v.mob[2 * j + 1]))
    def flux(self, c, f):
        """water flux over face f"""
        mw, mo = self.mobs(c, f)
        if c.native and mw + mo == 0: return 0.0
        return mw / (mw + mo) * (c.v.df[f] + mo * c.v.gf[f])
    def base(self, c, i):
        v = c.v
        mw, mo = v.mob[2 * i], v.mob[2 * i + 1]
        return v.s0[i] + c.Ite(v.src[i] > 0, v.dt * v.src[i], v.dt * v.src[i] * mw / (mw + mo))
    def inv(self, c, L):
        v, G = c.v, c.v.G
        v.S0.unfold(L.N); v.F.unfold(L.N); v.T.unfold_all(L.N)
        yield 'base', c.forall(0, L.N, lambda i: v.s[i] == v.S0(i), pat=lambda i: [v.s[i]])
        yield 'faces', c.forall(0, G.nc, lambda i: v.s[i] == v.S0(i) + v.T(i, L.N), pat=lambda i: [v.s[i]])
    def post(self, c, r):
        v, G = c.v, c.v.G
        c.check_all(0, G.nc, lambda i: c.eq(v.s[i], v.S0(i) + v.T(i, G.nf)), 'new saturation is the old one plus sources plus net upwind inflow')
        if not c.native or True:
            # the mobilities above are those of the cells the phases come from
            def body(f):
                i, j = G.fc[2 * f], G.fc[2 * f + 1]
                if c.native and (i < 0 or j < 0): return
                mw, mo = self.mobs(c, f)
                vw, vo = v.df[f] + mo * v.gf[f], v.df[f] - mw * v.gf[f]
                def chk():
                    c.check(c.And(c.Implies(vw > 0, mw == v.mob[2 * i]), c.Implies(vw < 0, mw == v.mob[2 * j])), 'water mobility is taken upstream')
                    c.check(c.And(c.Implies(vo > 0, mo == v.mob[2 * i + 1]), c.Implies(vo < 0, mo == v.mob[2 * j + 1])), 'oil mobility is taken upstream')
                c.when(c.And(i >= 0, j >= 0), chk)
            c.each(0, G.nf, body)
        for a in (v.s0, v.mob, v.df, v.gf, v.src, G.fc): c.unchanged(a)

CQ = 'opm/core/pressure/tpfa/compr_quant.c'
class FluxTerm(Spec):
    tu, fn, structs = CQ, 'compr_flux_term', ('UnstructuredGrid',)
    def setup(self, c):
        v = c.v
        v.G = G = grid_cells(c, 3)
        v.ff, v.z, v.out = c.arr('fflux', 'double', G.nf), c.arr('zeta', 'double', G.nc), c.arr('Biv', 'double', G.nhf)
        return [G.g, v.ff, v.z, v.out]
    def val(self, c, k):
        v, G = c.v, c.v.G
        f = G.faces[k]
        return c.Ite(G.fc[2 * f] == G.own[k], v.z[G.own[k]] * v.ff[f], -(v.z[G.own[k]] * v.ff[f]))
    def inv(self, c, L):
        v, G = c.v, c.v.G
        yield from own_inv(c, G, L)
        for n, x in L.phis.items():
            if type(x).__name__ == 'P': yield 'done ' + n, c.forall(0, x, lambda k: v.out[k] == self.val(c, k))
    def post(self, c, r):
        v, G = c.v, c.v.G
        c.check_all(0, G.nhf, lambda k: c.eq(v.out[k], self.val(c, k)), 'half-face value is zeta times the outward flux')
        for a in (v.ff, v.z, G.faces, G.pos, G.fc): c.unchanged(a)

class Accum(Spec):
    tu, fn = CQ, 'compr_accum_term'
    def setup(self, c):
        v = c.v
        n = v.n = c.size('nc', 0)
        v.dt = c.real('dt', 0.5)
        v.pv, v.ct, v.P = c.arr('pv', 'double', n), c.arr('ct', 'double', n), c.arr('P', 'double', n)
        return [n, v.dt, v.pv, v.ct, v.P]
    def inv(self, c, L):
        v = c.v
        yield 'P', c.forall(0, L.N, lambda i: v.P[i] == v.ct[i] * v.pv[i] / v.dt)
    def post(self, c, r):
        v = c.v
        c.check_all(0, v.n, lambda i: c.eq(v.P[i] * v.dt, v.ct[i] * v.pv[i]), 'accumulation is compressibility times pore volume over dt')
        c.unchanged(v.pv); c.unchanged(v.ct)
class SrcAccum(Spec):
    tu, fn = CQ, 'compr_src_add_press_accum'
    def setup(self, c):
        v = c.v
        n = v.n = c.size('nc', 0)
        v.p0, v.P, v.src = c.arr('p0', 'double', n), c.arr('P', 'double', n), c.arr('src', 'double', n)
        return [n, v.p0, v.P, v.src]
    def inv(self, c, L):
        v = c.v
        o = c.old(v.src)
        yield 'src', c.forall(0, L.N, lambda i: v.src[i] == o[i] + v.P[i] * v.p0[i])
    def post(self, c, r):
        v = c.v
        o = c.old(v.src)
        c.check_all(0, v.n, lambda i: c.eq(v.src[i], o[i] + v.P[i] * v.p0[i]), 'pressure accumulation is added to the sources')
        c.unchanged(v.p0); c.unchanged(v.P)

CG = 'opm/core/pressure/tpfa/compr_quant_general.c'
class GenAlloc(Spec):
    tu, fn, ret, structs, oom = [CG, 'opm/core/linalg/sparse_sys.c'], 'compr_quantities_gen_allocate', 'ptr', ('compr_quantities_gen',), True
    def setup(self, c):
        v = c.v
        v.nc, v.nf = c.size('nc', 0), c.size('nf', 0)
        return [v.nc, v.nf, self.np]
    def inv(self, c, L):
        for A in L.real_arrays(): yield 'zero ' + A.name, c.forall(0, L.N, lambda k: A[k] == 0)
    def post(self, c, r):
        v, np = c.v, self.np
        def bad(): c.no_leak()
        c.when(c.isnull(r), bad)
        def good():
            q = c.at_struct(r, 'compr_quantities_gen')
            sz = (('Ac', np * np * v.nc), ('dAc', np * np * v.nc), ('Af', np * np * v.nf), ('phasemobf', np * v.nf), ('voldiscr', v.nc))
            c.check(q.get('nphases') == np, 'number of phases')
            off = c.I(0)
            tot = sum((s for _, s in sz), c.I(0))
            base = c.view(q.get('Ac'), 'double', tot)
            c.check(c.capacity(base, 'double') >= tot, 'the block holds all quantities')
            for f, s in sz:
                c.check(c.offset(q.get(f), base, 'double') == off, f + ' follows the quantities before it')
                off = off + s
            c.check_all(0, tot, lambda k: base[k] == 0, 'all quantities start at zero')
            c.no_leak(r, base)
        c.when(c.Not(c.isnull(r)), good)
class GenDealloc(Spec):
    tu, fn, structs = CG, 'compr_quantities_gen_deallocate', ('compr_quantities_gen',)
    def setup(self, c):
        v = c.v
        v.Ac = c.arr('Ac', 'double', c.size('n', 1), heap=True)
        v.q = c.struct('q', 'compr_quantities_gen', heap=True, Ac=v.Ac)
        return [v.q]
    def post(self, c, r): c.no_leak()
class GenDeallocNull(Spec):
    tu, fn = CG, 'compr_quantities_gen_deallocate'
    def setup(self, c): return [c.null()]
    def post(self, c, r): c.no_leak()

SPECS = [Explicit(), FluxTerm(), Accum(), SrcAccum(), GenDealloc(), GenDeallocNull()] + each_np(GenAlloc)
