"""C11: two-point transmissibilities"""
from dsl import Spec
from lib import *
TU = 'opm/core/pressure/tpfa/trans_tpfa.c'

class HTrans(Spec):
    tu, fn, structs, abs_only = TU, 'tpfa_htrans_compute', ('UnstructuredGrid',), True
    abs_modes = ('flat',)
    def setup(self, c):
        v, d = c.v, self.d
        v.G = G = grid_cells(c, d, geometry=True)
        # one symmetric tensor per cell
        def genk(r, n):
            out = []
            for _ in range(int(G.nc)):
                m = [[r.choice([0.5, 1.0, 2.0, -1.0, 3.0]) for _ in range(d)] for _ in range(d)]
                out += [m[min(i, j)][max(i, j)] for i in range(d) for j in range(d)]
            return out
        v.K = c.arr('perm', 'double', G.nc * d * d, gen=genk)
        c.assume(c.forall(0, G.nc, lambda q: c.And(True, *[v.K[q * d * d + m * d + j] == v.K[q * d * d + j * d + m] for m in range(d) for j in range(m)])))
        v.ht = c.arr('htrans', 'double', G.nhf)
        v.num = c.fun('num', 1, lambda k: self.num(c, k))
        v.den = c.fun('den', 1, lambda k: self.den(c, k))
        # the face centroid differs from the cell centroid
        c.assume(c.forall(0, G.nhf, lambda k: self.den(c, k) > 0, pat=lambda k: G.own[k]))
        return [G.g, v.K, v.ht]
    def dist(self, c, k, j):
        G, d = c.v.G, self.d
        return G.fcen[G.faces[k] * d + j] - G.cc[G.own[k] * d + j]
    def num(self, c, k):
        """sum_j dist_j * (K n)_j with K stored by columns"""
        G, d, v = c.v.G, self.d, c.v
        t = c.R(0)
        for j in range(d):
            kn = c.R(0)
            for m in range(d): kn = kn + v.K[G.own[k] * d * d + m * d + j] * G.nrm[G.faces[k] * d + m]
            t = t + self.dist(c, k, j) * kn
        return t
    def den(self, c, k):
        t = c.R(0)
        for j in range(self.d): t = t + self.dist(c, k, j) * self.dist(c, k, j)
        return t
    def inv(self, c, L):
        v, G = c.v, c.v.G
        yield from own_inv(c, G, L)
        for n, x in L.phis.items():
            if type(x).__name__ == 'P':
                if not x.same(L.N): v.num.unfold(x); v.den.unfold(x)
                yield 'ht ' + n, c.forall(0, x, lambda k: v.ht[k] == c.abs(v.num(k)) / v.den(k))
    def post(self, c, r):
        v, G = c.v, c.v.G
        def hint(k):
            v.num.unfold(k); v.den.unfold(k)
            return []
        c.check_all(0, G.nhf, lambda k: c.eq(v.ht[k], c.abs(self.num(c, k)) / self.den(c, k)), 'half-face transmissibility', hint=hint)
        c.check_all(0, G.nhf, lambda k: v.ht[k] >= 0, 'half-face transmissibility is not negative', hint=hint)
        for a in (v.K, G.cc, G.fcen, G.nrm, G.faces, G.fc): c.unchanged(a)

class Trans(Spec):
    tu, fn, structs, abs_only = TU, 'tpfa_trans_compute', ('UnstructuredGrid',), True
    eff = False
    def setup(self, c):
        v = c.v
        v.G = G = grid_cells(c, 3, cover=True)
        v.ht = c.arr('htrans', 'double', G.nhf, gen=lambda r, n: [r.choice([0.5, 1.0, 2.0, 4.0, 3.0]) for _ in range(n)])
        c.assume(c.forall(0, G.nhf, lambda k: v.ht[k] > 0))
        v.trans = c.arr('trans', 'double', G.nf)
        args = [G.g, v.ht, v.trans]
        if self.eff:
            v.mob = c.arr('totmob', 'double', G.nc, gen=lambda r, n: [r.choice([0.5, 1.0, 2.0, 5.0]) for _ in range(n)])
            c.assume(c.forall(0, G.nc, lambda k: v.mob[k] > 0))
            args.insert(1, v.mob)
        v.T = c.sum2('T', lambda f, k: c.Ite(G.faces[k] == f, c.R(1) / (v.mob[G.own[k]] * v.ht[k] if self.eff else v.ht[k]), c.R(0)))
        v.T.base_all()
        return args
    def inv(self, c, L):
        v, G = c.v, c.v.G
        yield from own_inv(c, G, L)
        yield 'zero', c.forall(0, L.N, lambda f: v.trans[f] == 0)
        for n, x in L.phis.items():
            if type(x).__name__ != 'P': continue
            v.T.unfold_all(x)
            yield 'sum ' + n, c.forall(0, G.nf, lambda f: v.trans[f] == v.T(f, x), pat=lambda f: [v.trans[f]])
            yield 'nonneg ' + n, c.forall(0, G.nf, lambda f: v.trans[f] >= 0)
            yield 'pos ' + n, c.forall(0, G.nf, lambda f: c.Implies(G.first[f] < x, v.trans[f] > 0), pat=lambda f: [v.trans[f]])
        yield 'inv', c.forall(0, L.N, lambda f: v.trans[f] == c.R(1) / v.T(f, G.nhf), pat=lambda f: [v.trans[f]])
        yield 'posT', c.forall(0, G.nf, lambda f: v.T(f, G.nhf) > 0, pat=lambda f: [v.T(f, G.nhf)])
        yield 'rest', c.forall(L.N, G.nf, lambda f: v.trans[f] == v.T(f, G.nhf), pat=lambda f: [v.trans[f]])
    def post(self, c, r):
        v, G = c.v, c.v.G
        c.check_all(0, G.nf, lambda f: c.eq(v.trans[f] * v.T(f, G.nhf), c.R(1)), 'face transmissibility is the harmonic combination of its half-faces')
        c.check_all(0, G.nf, lambda f: v.trans[f] > 0, 'face transmissibility is positive')
        for a in (v.ht, G.faces, G.pos): c.unchanged(a)
class EffTrans(Trans):
    fn, eff = 'tpfa_eff_trans_compute', True

SPECS = each_dim(HTrans) + [Trans(), EffTrans()]
