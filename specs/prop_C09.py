"""C09: reordering along the flow"""
from dsl import Spec
from lib import *
TU = 'harness/reorder.cpp'
TARJAN = 'opm/core/transport/reorder/tarjan.c'

class Flow:
    """a grid, a flux and the upwind relation of its half-faces"""
    def flow(self, c, mincells=0):
        v = c.v
        v.G = G = grid_cells(c, 3, mincells)
        v.flux = c.arr('flux', 'double', G.nf, gen=lambda r, m: [float(r.choice([0, 0, 1, -1, 2, -3, 0.5])) for _ in range(m)])
        return G
    def up(self, c, f): return c.Ite(c.v.flux[f] > 0, c.v.G.fc[2 * f], c.v.G.fc[2 * f + 1])
    def signed(self, c, k):
        """flux out of the cell of half-face k"""
        G, v = c.v.G, c.v
        f = G.faces[k]
        return c.Ite(G.own[k] == G.fc[2 * f], v.flux[f], -v.flux[f])
    def inner(self, c, k):
        G = c.v.G
        return c.And(G.fc[2 * G.faces[k]] != -1, G.fc[2 * G.faces[k] + 1] != -1)

class Upwind(Spec, Flow):
    """CSR matrix of the upwind neighbours: one entry per interior half-face with inflow, in order"""
    tu, fn, structs, samples, tscale = TU, 'h_upwind', ('UnstructuredGrid',), 300, 2
    def setup(self, c):
        v = c.v
        G = self.flow(c)
        # both sides of a face list it
        side = lambda s: lambda r, m: [next((k for k in range(int(G.nhf)) if int(G.faces[k]) == f and int(G.own[k]) == int(G.fc[2 * f + s])), 0) for f in range(int(m))]
        v.m = c.mark('sides', trigger=True)
        v.h = [c.arr('half%d' % s, 'int', G.nf, gen=side(s)) for s in (0, 1)]
        for s in (0, 1):
            h = v.h[s]
            c.assume(c.forall(0, G.nf, lambda f: c.Implies(G.fc[2 * f + s] >= 0, c.And(h[f] >= 0, h[f] < G.nhf, G.faces[h[f]] == f, G.own[h[f]] == G.fc[2 * f + s])), pat=lambda f: [v.m(f)]))
        v.cnt = c.psum('inflow', G.nhf, lambda k: c.Ite(self.flows_in(c, k), c.I(1), c.I(0)))
        v.tot = v.cnt(G.nhf)
        c.assume(v.tot >= 0)
        # definition: src[q] is the q-th half-face with inflow
        v.src = c.arr('src', 'int', v.tot, gen=lambda r, m: [k for k in range(int(G.nhf)) if self.flows_in(c, k)])
        c.assume(c.forall(0, G.nhf, lambda k: c.Implies(self.flows_in(c, k), c.And(v.cnt(k) >= 0, v.cnt(k) < v.tot, v.src[v.cnt(k)] == k)), pat=lambda k: v.cnt(k)))
        v.ia, v.ja = c.arr('ia', 'int', G.nc + 1), c.arr('ja', 'int', v.tot)
        v.work = c.arr('work', 'int', G.nf)
        return [G.nc, G.faces, G.pos, G.fc, v.flux, v.ia, v.ja, v.work]
    def flows_in(self, c, k): return c.And(self.inner(c, k), self.signed(c, k) < 0)
    def at(self, c, L):
        G = c.v.G
        return G.pos[L.N] if not L.outer else G.pos[L.outer[-1]] + L.N
    def inv(self, c, L):
        v, G = c.v, c.v.G
        J = self.at(c, L)
        v.cnt.unfold(J)
        yield 'in range', c.And(J >= 0, J <= G.nhf)
        if L.outer: yield 'in cell', J <= G.pos[L.outer[-1] + 1]
        if L.writes(v.work):
            yield 'upwind cells', c.forall(0, J, lambda k: c.Implies(self.signed(c, k) > 0, v.work[G.faces[k]] == self.up(c, G.faces[k])), pat=lambda k: G.faces[k])
        if L.writes(v.ja):
            def known(f): return c.Implies(c.And(G.fc[2 * f] != -1, G.fc[2 * f + 1] != -1, v.flux[f] != 0), v.work[f] == self.up(c, f))
            yield 'upwind cell of every face', c.forall(0, G.nf, lambda f: c.And(c.Implies(v.m(f), known(f)), c.Implies(c.Not(v.m(f)), known(f))), pat=lambda f: v.work[f])
            for n, x in L.named_ints: yield 'entries ' + n, x == v.cnt(J)
            yield 'columns', c.forall(0, v.cnt(J), lambda q: v.ja[q] == self.up(c, G.faces[v.src[q]]), pat=lambda q: v.ja[q])
            N = L.N if not L.outer else L.outer[-1]
            yield 'rows', c.forall(0, N + 1, lambda i: v.ia[i] == v.cnt(G.pos[i]), pat=lambda i: v.ia[i])
    def post(self, c, r):
        v, G = c.v, c.v.G
        c.check(v.ia[0] == 0, 'the matrix starts at 0')
        c.check_all(0, G.nc + 1, lambda i: v.ia[i] == v.cnt(G.pos[i]), 'row i ends after the inflow half-faces of cells 0..i-1')
        c.check_all(0, G.nhf, lambda k: c.Implies(self.flows_in(c, k), v.ja[v.cnt(k)] == self.up(c, G.faces[k])), 'entry is the cell the flow comes from')
        c.unchanged(v.flux); c.unchanged(G.faces); c.unchanged(G.fc)
        c.unchanged(G.pos)

def reach(n, adj):
    R = [set([i]) for i in range(n)]
    for i in range(n):
        todo = [i]
        while todo:
            for w in adj[todo.pop()]:
                if w not in R[i]: R[i].add(w); todo.append(w)
    return R
def judge(c, n, adj, seq, comp, nc):
    c.check(sorted(seq) == list(range(n)), 'every vertex exactly once')
    c.check((0 < nc <= n) if n else nc == 0, 'number of components')
    c.check(comp[0] == 0 and comp[nc] == n and all(comp[i] < comp[i + 1] for i in range(nc)), 'component boundaries increase and cover all vertices')
    R, of = reach(n, adj), {}
    for k in range(nc):
        for q in range(comp[k], comp[k + 1]): of[seq[q]] = k
    for i in range(n):
        for j in range(n):
            c.check((of[i] == of[j]) == (i in R[j] and j in R[i]), 'components are the classes of mutual reachability')
        for j in adj[i]: c.check(of[j] <= of[i], 'a supplying vertex does not come later')

class Tarjan(Spec):
    """random and exhaustive small graphs, self loops and repeated edges included"""
    tu, fn, samples = TARJAN, 'tarjan', 4000
    bounded_only = 'the strong-component algorithm keeps its stacks in the tails of its outputs and needs a depth-first-search reachability invariant; random graphs of up to 9 vertices against reachability'
    def setup(self, c):
        v = c.v
        v.n = c.int('nv', 1, 10, gen=lambda r: r.randint(1, 9))
        def rows(r, m):
            out, self.cols = [0], []
            n, kind = int(v.n), r.random()
            p = r.choice([0.1, 0.25, 0.5, 0.9])
            perm = list(range(n)); r.shuffle(perm)
            for i in range(n):
                if kind < 0.6: row = [j for j in range(n) if r.random() < p]
                elif kind < 0.8: row = [perm[(perm.index(i) + 1) % n]] if r.random() < 0.95 else []      # rings, chains
                else: row = [r.randrange(n) for _ in range(r.randint(0, 4))]
                r.shuffle(row); self.cols += row; out.append(len(self.cols))
            return out
        v.ia = c.arr('ia', 'int', v.n + 1, gen=rows)
        v.ja = c.arr('ja', 'int', v.ia[int(v.n)], gen=lambda r, m: self.cols if len(getattr(self, 'cols', [])) == m else [0] * m)
        v.vert, v.comp, v.nc, v.work = c.arr('vert', 'int', v.n), c.arr('comp', 'int', v.n + 1), c.arr('ncomp', 'int', 1), c.arr('work', 'int', 3 * v.n)
        return [v.n, v.ia, v.ja, v.vert, v.comp, v.nc, v.work]
    def post(self, c, r):
        v = c.v
        n = int(v.n)
        ia, ja = v.ia.list(), v.ja.list()
        judge(c, n, [ja[ia[i]:ia[i + 1]] for i in range(n)], v.vert.list(), v.comp.list(), int(v.nc[0]))
        c.unchanged(v.ia); c.unchanged(v.ja)

class Sequence(Spec, Flow):
    """the whole computation: cells in flow order"""
    tu, fn, structs, samples = [TU, TARJAN], 'h_sequence', ('UnstructuredGrid',), 1500
    bounded_only = 'composition with tarjan(), which is bounded; random grids of up to 8 cells with arbitrary connections and fluxes'
    def setup(self, c):
        v = c.v
        G = self.flow(c, 1)
        v.seq, v.comp, v.nc = c.arr('seq', 'int', G.nc), c.arr('comp', 'int', G.nc + 1), c.arr('ncomp', 'int', 1)
        return [G.g, v.flux, v.seq, v.comp, v.nc]
    def adj(self, c):
        G, v = c.v.G, c.v
        out = [[] for _ in range(int(G.nc))]
        for f in range(int(G.nf)):
            a, b, x = G.fc[2 * f], G.fc[2 * f + 1], v.flux[f]
            if a >= 0 and b >= 0 and x != 0: out[b if x > 0 else a].append(a if x > 0 else b)
        return out
    def post(self, c, r):
        v, G = c.v, c.v.G
        judge(c, int(G.nc), self.adj(c), v.seq.list(), v.comp.list(), int(v.nc[0]))
        c.unchanged(v.flux); c.unchanged(G.fc)
class SequenceGraph(Sequence):
    """the same with the graph handed out"""
    fn = 'h_sequence_graph'
    def setup(self, c):
        a = super().setup(c)
        v = c.v
        v.ia, v.ja = c.arr('ia', 'int', v.G.nc + 1), c.arr('ja', 'int', v.G.nf)
        return a + [v.ia, v.ja]
    def post(self, c, r):
        super().post(c, r)
        ia, ja, adj = c.v.ia.list(), c.v.ja.list(), self.adj(c)
        c.check(ia[0] == 0, 'row pointer')
        for i, l in enumerate(adj): c.check(sorted(ja[ia[i]:ia[i + 1]]) == sorted(l), 'row i lists the upwind neighbours of cell i')

SPECS = [Upwind(), Tarjan(), Sequence(), SequenceGraph()]
