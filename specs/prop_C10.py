"""C10: cell partitions"""
from dsl import Spec
from lib import monotone, owner
TU = 'opm/core/pressure/msmfem/partition.c'

def cells(c, mincells=1):
    """nc cells with block numbers p[i] in [0, nb); block nb-1 is in use (cell v.w)"""
    v = c.v
    v.nc = c.size('nc', mincells)
    def gen(r, n):
        m = r.randint(1, 5)
        return [r.randrange(m) * r.choice((1, 1, 2)) for _ in range(n)]
    v.p = c.arr('p', 'int', v.nc, gen=gen)
    v.nb = c.int('nb', 0, None, size=True, gen=lambda r: 1 + max(v.p.list(), default=-1))
    v.w = c.int('w', 0, None, gen=lambda r: v.p.list().index(int(v.nb) - 1) if int(v.nc) else 0)
    c.assume(c.forall(0, v.nc, lambda i: c.And(v.p[i] >= 0, v.p[i] < v.nb), pat=lambda i: v.p[i]))
    if not c.native or int(v.nc): c.assume(c.And(c.Implies(v.nc > 0, c.And(v.w < v.nc, v.p[v.w] == v.nb - 1)), c.Implies(v.nc == 0, v.nb == 0)))

def counts(c, uses=False):
    """cnt(b, k): cells i < k in block b; below(b, k): cells i < k in blocks before b"""
    v = c.v
    v.cnt = cnt = c.sum2('cnt', lambda b, k: c.Ite(v.p[k] == b, 1, 0), ret='int')
    v.bel = bel = c.sum2('below', lambda b, k: c.Ite(v.p[k] < b, 1, 0), ret='int')
    cnt.base_all(); bel.base_all()
    v.mk = c.mark('block'); v.mc = c.mark('cell')
    if c.native: return
    def facts(n):
        yield 'counts are in range', c.rawforall(1, lambda b: c.And(cnt(b, n) >= 0, cnt(b, n) <= n), lambda b: [cnt(b, n)])
        yield 'counts grow', c.rawforall(2, lambda b, k: c.Implies(c.And(0 <= k, k <= n), c.And(0 <= cnt(b, k), cnt(b, k) <= cnt(b, n))), lambda b, k: [cnt(b, k), cnt(b, n)])
        yield 'counts are not negative', c.rawforall(2, lambda b, k: c.Implies(c.And(0 <= k, k <= n), 0 <= cnt(b, k)), lambda b, k: [cnt(b, k)])
        yield 'blocks in use have cells', c.forall(0, n, lambda i: cnt(v.p[i], n) >= 1, pat=lambda i: v.p[i])
        yield 'blocks follow each other', c.rawforall(1, lambda b: bel(b + 1, n) == bel(b, n) + cnt(b, n), lambda b: [cnt(b, n)])
        yield 'blocks follow each other', c.rawforall(1, lambda b: bel(b + 1, n) == bel(b, n) + cnt(b, n), lambda b: [v.mk(b)])
        yield 'counts grow past a cell', c.rawforall(2, lambda i, k: c.Implies(c.And(0 <= i, i < k, k <= n), cnt(v.p[i], i) + 1 <= cnt(v.p[i], k)), lambda i, k: [v.p[i], cnt(v.p[i], k)])
        if uses: yield 'a counted block has a cell', c.rawforall(1, lambda b: c.Implies(cnt(b, n) > 0, c.exists(0, n, lambda i: v.p[i] == b, pat=lambda i: [v.p[i]])), lambda b: [cnt(b, n)])
        yield 'first block starts at 0', bel(0, n) == 0
        yield 'last block ends at n', bel(v.nb, n) == n
        yield 'starts grow', c.rawforall(2, lambda a, b: c.Implies(a <= b, bel(a, n) <= bel(b, n)), lambda a, b: [bel(a, n), bel(b, n)])
    c.induct('counting cells', v.nc, facts, lambda k: (cnt.unfold_all(k), bel.unfold_all(k)))
    c.lemma(c.Implies(v.nb > 0, bel(v.nb - 1, v.nc) + cnt(v.nb - 1, v.nc) == v.nc))

class AllocInverse(Spec):
    """room for the inverse of a partition, or nothing"""
    tu, fn, ret, oom, structs, flags = 'harness/part.c', 'vp_alloc_inverse', 'int', True, ('VpInts',), ()
    def sizes(self, c): return (c.v.mb + 2, c.v.nc)
    def setup(self, c):
        v = c.v
        v.nc = c.size('nc', 1); v.mb = c.size('max_bin', 0)
        v.o = c.struct('o', 'VpInts', a=c.null(), b=c.null(), c=c.null(), d=c.null())
        return [v.nc, v.mb, v.o]
    def post(self, c, r):
        v = c.v
        def ok():
            ps = []
            for f, n in zip('abcd', self.sizes(c)):
                a = v.o.arr(f, 'int', n)
                c.check(c.Not(c.isnull(a)), 'array %s allocated' % f)
                c.check(c.capacity(a, 'int') >= n, 'array %s is large enough' % f)
                ps.append(a)
            c.no_leak(*ps)
        def failed():
            for f, n in zip('abcd', self.sizes(c)): c.check(c.isnull(v.o.get(f)), 'array %s is not left dangling' % f)
            c.no_leak()
        c.when(r == v.nc, ok)
        c.when(r != v.nc, failed)
        if c.native and c.nfail == 0: c.check(r == v.nc, 'allocation succeeds when memory is available')

class AllocDfs(AllocInverse):
    fn = 'vp_alloc_dfs'
    def sizes(self, c): return (c.v.nc + 1, c.v.mb, c.v.nc, 2 * c.v.nc)

class Release(Spec):
    tu, fn = TU, 'partition_deallocate_inverse'
    def setup(self, c): return [c.arr('pi', 'int', c.size('n', 0) + 1, heap=True), c.arr('inverse', 'int', c.size('nc', 0), heap=True)]
    def post(self, c, r): c.no_leak(label='everything released')

class Invert(Spec):
    tu, fn, frames, reseed = TU, 'partition_invert', False, True
    def setup(self, c):
        v = c.v
        cells(c, 0); counts(c)
        v.pi = c.arr('pi', 'int', v.nb + 1); v.inv = c.arr('inverse', 'int', v.nc)
        return [v.nc, v.p, v.pi, v.inv]
    def row(self, c, n):
        """the first n cells are in place"""
        v = c.v
        def f(b, j):
            i = v.inv[j]
            return c.Implies(c.And(v.mk(b), 0 <= b, b < v.nb, v.bel(b, v.nc) <= j, j < v.bel(b, v.nc) + v.cnt(b, n)), c.And(0 <= i, i < n, v.p[i] == b, v.cnt(b, i) == j - v.bel(b, v.nc)))
        return f
    def inv(self, c, L):
        v = c.v
        nc, nb, cnt, bel = v.nc, v.nb, v.cnt, v.bel
        for n, x in L.named_ints:
            yield n + ' bounds the blocks', c.forall(0, L.N, lambda k: v.p[k] <= x, pat=lambda k: v.p[k])
            yield n + ' is at most the last', c.And(-1 <= x, x <= nb - 1)
        cnt.unfold_all(L.N)
        if L.writes(v.pi):
            yield 'cleared', c.forall(0, L.N, lambda k: v.pi[k] == 0)
            yield 'counting', c.forall(1, nb + 1, lambda k: v.pi[k] == cnt(k - 1, L.N), pat=lambda k: v.pi[k])
            yield 'first', v.pi[0] == 0
            yield 'total', v.pi[0] == bel(L.N, nc)
            yield 'starts', c.forall(1, L.N + 1, lambda k: v.pi[k] == bel(k - 1, nc), pat=lambda k: v.pi[k])
            yield 'not yet starts', c.forall(L.N + 1, nb + 1, lambda k: v.pi[k] == cnt(k - 1, nc), pat=lambda k: v.pi[k])
            yield 'next free', c.forall(1, nb + 1, lambda k: v.pi[k] == bel(k - 1, nc) + cnt(k - 1, L.N), pat=lambda k: v.pi[k])
            yield 'sum', v.pi[0] == nc
        if L.writes(v.inv):
            f = self.row(c, L.N)
            yield 'rows', c.rawforall(2, f, lambda b, j: [v.mk(b), v.inv[j]])
            yield 'listed', c.forall(0, L.N, lambda i: c.Implies(v.mc(i), v.inv[bel(v.p[i], nc) + cnt(v.p[i], i)] == i), pat=lambda i: [v.mc(i)])
    def post(self, c, r):
        v = c.v
        v.cnt.unfold_all(v.nc)
        c.check(c.And(v.pi[0] == 0, v.pi[v.nb] == v.nc), 'start pointers run from 0 to the number of cells')
        c.check_all(0, v.nb, lambda b: v.pi[b + 1] - v.pi[b] == v.cnt(b, v.nc), 'every block gets as many positions as it has cells')
        c.check_all(0, v.nc, lambda i: c.Implies(v.mc(i), c.And(v.pi[v.p[i]] <= v.pi[v.p[i]] + v.cnt(v.p[i], i), v.pi[v.p[i]] + v.cnt(v.p[i], i) < v.pi[v.p[i] + 1], v.inv[v.pi[v.p[i]] + v.cnt(v.p[i], i)] == i)), 'every cell is listed under its own block')
        def blk(b):
            c.check_all(v.pi[b], v.pi[b + 1], lambda j: c.Implies(v.mk(b), c.And(0 <= v.inv[j], v.inv[j] < v.nc) and v.p[v.inv[j]] == b if c.native else c.And(0 <= v.inv[j], v.inv[j] < v.nc, v.p[v.inv[j]] == b)), 'a block lists only its own cells')
            c.check_all(v.pi[b], v.pi[b + 1] - 1, lambda j: c.Implies(v.mk(b), v.inv[j] < v.inv[j + 1]), 'cells of a block are listed in increasing order')
        c.each(0, v.nb, blk)
        c.unchanged(v.p)


class LocalIdx(Spec):
    tu, fn = TU, 'partition_localidx'
    def setup(self, c):
        v = c.v
        v.nb = c.size('nb', 0)
        v.pi, v.n = monotone(c, 'pi', v.nb)
        v.own = owner(c, 'block', v.pi, v.nb, v.n)
        v.nc = c.int('nc', 0, None, size=True, gen=lambda r: int(v.n) + r.randint(0, 2))
        v.inv = c.arr('inverse', 'int', v.n, gen=lambda r, n: r.sample(range(int(v.nc)), n))
        v.at = c.arr('at', 'int', v.nc, gen=lambda r, n: [(v.inv.list() + [i]).index(i) for i in range(n)])
        c.assume(c.forall(0, v.n, lambda j: c.And(v.inv[j] >= 0, v.inv[j] < v.nc, v.at[v.inv[j]] == j), pat=lambda j: v.inv[j]))
        v.loc = c.arr('loc', 'int', v.nc)
        return [v.nb, v.pi, v.inv, v.loc]
    def done(self, c, n):
        v = c.v
        return c.forall(0, n, lambda j: v.loc[v.inv[j]] == j - v.pi[v.own[j]], pat=lambda j: v.inv[j])
    def inv(self, c, L):
        v = c.v
        if not L.outer: yield 'numbered', self.done(c, v.pi[L.N])
        else: yield 'numbered', self.done(c, v.pi[L.outer[-1]] + L.N)
        others = lambda k: c.Implies(c.forall(0, v.n, lambda j: v.inv[j] != k), v.loc[k] == c.old(v.loc)[k])
        yield 'other cells', c.forall(0, v.nc, lambda k: c.Implies(c.Or(v.at[k] < 0, v.at[k] >= v.n, v.inv[v.at[k]] != k), v.loc[k] == c.old(v.loc)[k]), pat=lambda k: v.loc[k])
    def post(self, c, r):
        v = c.v
        c.check_all(0, v.n, lambda j: v.loc[v.inv[j]] == j - v.pi[v.own[j]], 'a cell is numbered by its place in its block')
        c.check_all(0, v.nc, lambda k: c.Implies(c.Or(v.at[k] < 0, v.at[k] >= v.n, v.inv[v.at[k]] != k), v.loc[k] == c.old(v.loc)[k]) if not c.native else (k in v.inv.list() or v.loc[k] == c.old(v.loc)[k]), 'cells in no block keep their number')
        c.unchanged(v.pi); c.unchanged(v.inv)

class Compress(Spec):
    """consecutive block numbers in the same order, none left out"""
    tu, fn, ret, oom, frames = TU, 'partition_compress', 'int', True, False
    def setup(self, c):
        v = c.v
        cells(c, 1); counts(c, True)
        v.rk = c.psum('used', v.nb, lambda b: c.Ite(v.cnt(b, v.nc) > 0, 1, 0))
        v.mt = c.mark('new')
        if not c.native:
            v.rk.nondecreasing(v.nb)
            c.define(c.forall(0, v.nc, lambda i: v.rk(v.p[i] + 1) == v.rk(v.p[i]) + c.Ite(v.cnt(v.p[i], v.nc) > 0, 1, 0), pat=lambda i: v.p[i]))
        return [v.nc, v.p]
    def inv(self, c, L):
        v = c.v; o = c.old(v.p)
        nc, nb, cnt, rk = v.nc, v.nb, v.cnt, v.rk
        for n, x in L.named_ints:
            yield n + ' bounds the blocks', c.forall(0, L.N, lambda k: v.p[k] <= x, pat=lambda k: v.p[k])
            yield n + ' is at most the last', c.And(-1 <= x, x <= nb - 1)
        cnt.unfold_all(L.N); rk.unfold(L.N)
        for A in L.int_arrays():
            if A.p.rid == v.p.p.rid: continue
            yield 'cleared', c.forall(0, L.N, lambda k: A[k] == 0)
            yield 'counting', c.forall(0, nb, lambda b: A[b] == cnt(b, L.N), pat=lambda b: [A[b], cnt(b, L.N)])
            yield 'renumbered', c.forall(0, L.N + 1, lambda b: A[b] == rk(b + 1) - 1, pat=lambda b: A[b])
            yield 'not yet', c.forall(L.N + 1, nb, lambda b: A[b] == cnt(b, nc), pat=lambda b: A[b])
            yield 'in use', c.forall(0, A[L.N] + 1, lambda t: c.Implies(v.mt(t), c.exists(0, L.N + 1, lambda b: c.And(cnt(b, nc) > 0, rk(b) == t), pat=lambda b: [cnt(b, nc)])), pat=lambda t: [v.mt(t)])
        if L.writes(v.p):
            yield 'new numbers', c.forall(0, L.N, lambda i: v.p[i] == rk(o[i] + 1) - 1, pat=lambda i: v.p[i])
            yield 'old numbers', c.forall(L.N, nc, lambda i: v.p[i] == o[i], pat=lambda i: v.p[i])
    def post(self, c, r):
        v = c.v; o = c.old(v.p)
        def ok():
            def pair(i):
                def other(j):
                    c.check(c.Iff(v.p[i] < v.p[j], o[i] < o[j]), 'order of blocks is kept')
                c.each(0, v.nc, other)
            c.each(0, v.nc, pair)
            c.check_all(0, v.nc, lambda i: c.And(0 <= v.p[i], v.p[i] <= r), 'block numbers run from 0 to the returned maximum')
            c.check_all(0, r + 1, lambda t: c.Implies(v.mt(t), c.exists(0, v.nc, lambda i: v.p[i] == t, pat=lambda i: [o[i]])), 'no block number is left out')
            c.no_leak()
        def failed():
            c.unchanged(v.p); c.no_leak()
        c.when(r >= 0, ok)
        c.when(r < 0, failed)
        if c.native and c.nfail == 0: c.check(r >= 0, 'succeeds when memory is available')
        if c.native and r >= 0: c.check(sorted(set(v.p.list())) == list(range(int(r) + 1)), 'no block number is left out')

class Unif(Spec):
    """cell with coordinates x goes to the block whose load-balanced interval holds x in every direction"""
    tu, fn, ret, oom, opaque_div, opaque_mul = TU, 'partition_unif_idx', 'int', True, True, 'comm'
    d = 3
    def setup(self, c):
        v = c.v; d = self.d
        v.nc = c.size('nc', 0)
        v.f = c.arr('fine', 'int', d, gen=lambda r, n: [r.randint(1, 5) for _ in range(n)])
        v.b = c.arr('coarse', 'int', d, gen=lambda r, n: [r.randint(1, int(v.f[k])) for k in range(n)])
        for k in range(d): c.assume(c.And(1 <= v.b[k], v.b[k] <= v.f[k]))
        # coordinates x[k][i]; y[k][i]: index built from the coordinates k, k+1, ...
        v.x = [c.arr('x%d' % k, 'int', v.nc, gen=lambda r, n, k=k: [r.randrange(int(v.f[k])) for _ in range(n)]) for k in range(d)]
        v.y = [None] * d
        for k in reversed(range(d)):
            v.y[k] = v.x[k] if k == d - 1 else c.arr('idx' if k == 0 else 'y%d' % k, 'int', v.nc, gen=lambda r, n, k=k: [int(v.x[k][i] + v.f[k] * v.y[k + 1][i]) for i in range(n)])
            if k < d - 1: c.assume(c.forall(0, v.nc, lambda i: v.y[k][i] == v.x[k][i] + v.f[k] * v.y[k + 1][i], pat=lambda i: v.y[k][i]))
            c.assume(c.forall(0, v.nc, lambda i: c.And(0 <= v.x[k][i], v.x[k][i] < v.f[k], v.y[k][i] >= 0), pat=lambda i: v.y[k][i]))
        v.p = c.arr('p', 'int', v.nc)
        for k in range(d): c.div_facts((v.f[k], v.b[k]))
        return [d, v.nc, v.f, v.b, v.y[0], v.p]
    def bin(self, c, k, i):
        v = c.v
        L, R, x = c.div(v.f[k], v.b[k]), c.mod(v.f[k], v.b[k]), v.x[k][i]
        if c.native: return max(x // (L + 1), (x - R) // L if x >= R else 0)
        q, s = c.cdiv(x, L + 1), c.cdiv(x - R, L)
        return c.Ite(q > s, q, s)
    def block(self, c, i):
        v = c.v
        r = self.bin(c, self.d - 1, i)
        for k in reversed(range(self.d - 1)): r = self.bin(c, k, i) + v.b[k] * r
        return r
    def split(self, c, i):
        v = c.v
        for k in range(self.d): c.div_facts((v.y[k][i], v.f[k]))
    def inv(self, c, L):
        v = c.v
        self.split(c, L.N)
        yield 'blocks', c.forall(0, L.N, lambda i: v.p[i] == self.block(c, i), pat=lambda i: v.p[i])
    def post(self, c, r):
        v = c.v
        def ok():
            c.check_all(0, v.nc, lambda i: v.p[i] == self.block(c, i), 'block index is built from the directions')
            for k in range(self.d):
                L, R = c.div(v.f[k], v.b[k]), c.mod(v.f[k], v.b[k])
                def one(i):
                    x = v.x[k][i]
                    c.div_facts((x, L + 1), (x - R, L))
                    b = self.bin(c, k, i)
                    start = lambda b: L * b + c.min(b, R)
                    if not c.native:
                        B = c.int(f'b{k}'); c.assume(B == b); b = B
                    c.check(c.And(start(b) <= x, x < start(b + 1)), 'cell lies in the interval of its block')
                    c.check(c.And(0 <= b, b < v.b[k]), 'block exists')
                c.each(0, v.nc, one)
            c.no_leak()
        c.when(r == v.nc, ok)
        c.when(r != v.nc, lambda: (c.check(r == -1, 'failure is reported'), c.unchanged(v.p), c.no_leak()))
        if c.native and c.nfail == 0: c.check(r == v.nc, 'succeeds when memory is available')


def graph(c):
    """symmetric graph: edge e leaves node own[e] for ja[e]; rev[e] is the same edge backwards. comp: any labelling that is equal at both ends of every edge"""
    v = c.v
    v.n = c.size('n', 0)
    g = {}
    if c.native:
        r, n = c.rng, int(v.n)
        es = [(r.randrange(n), r.randrange(n)) for _ in range(r.randint(0, 2 * n))] if n else []
        if r.random() < 0.5: es += [(i, i) for i in range(n)]
        arcs = []
        for k, (a, b) in enumerate(es): arcs += [(a, b, k)] if a == b else [(a, b, k), (b, a, k)]
        r.shuffle(arcs); arcs.sort(key=lambda t: t[0])
        g['ia'] = [sum(1 for t in arcs if t[0] < i) for i in range(n + 1)]
        g['own'] = [t[0] for t in arcs]; g['ja'] = [t[1] for t in arcs]
        g['rev'] = [next((q for q, u in enumerate(arcs) if u[2] == t[2] and (q != p or t[0] == t[1]))) for p, t in enumerate(arcs)]
        lab = list(range(n))
        for _ in range(n):
            for a, b, k in arcs: lab[a] = lab[b] = min(lab[a], lab[b])
        g['comp'] = lab
    def gen(k): return lambda r, n: g[k][:n] + [0] * (n - len(g[k]))
    v.ia, v.m = monotone(c, 'ia', v.n, gen=gen('ia'))
    v.own = c.arr('own', 'int', v.m, gen=gen('own'))
    c.assume(c.forall(0, v.m, lambda e: c.And(v.own[e] >= 0, v.own[e] < v.n, v.ia[v.own[e]] <= e, e < v.ia[v.own[e] + 1]), pat=lambda e: v.own[e]))
    v.ja = c.arr('ja', 'int', v.m, gen=gen('ja'))
    v.rev = c.arr('rev', 'int', v.m, gen=gen('rev'))
    v.comp = c.arr('comp', 'int', v.n, gen=gen('comp'))
    c.assume(c.forall(0, v.m, lambda e: c.And(v.ja[e] >= 0, v.ja[e] < v.n), pat=lambda e: v.ja[e]))
    c.assume(c.forall(0, v.m, lambda e: c.And(v.rev[e] >= 0, v.rev[e] < v.m, v.rev[v.rev[e]] == e, v.own[v.rev[e]] == v.ja[e], v.ja[v.rev[e]] == v.own[e]), pat=lambda e: v.ja[e]))
    c.assume(c.forall(0, v.m, lambda e: v.comp[v.own[e]] == v.comp[v.ja[e]], pat=lambda e: v.ja[e]))

class Dfs(Spec):
    """colours are the connected components"""
    tu, fn, frames, reseed, fresh, par = 'opm/core/pressure/msmfem/dfs.c', 'dfs', False, True, True, True
    tscale, budget, soft = 3, 280, 'the search invariants need several seconds of solver time each; a run that misses one of them decides this contract by bounded execution'
    def setup(self, c):
        v = c.v
        graph(c)
        v.nc = c.arr('ncolors', 'int', 1)
        v.col = c.arr('color', 'int', v.n); v.W = c.arr('work', 'int', 2 * v.n)
        v.mk = c.mark('node'); v.mt = c.mark('colour')
        return [v.n, v.ia, v.ja, v.nc, v.col, v.W]
    def inv(self, c, L):
        v = c.v
        S, C, W, own, ja, ia, nc = v.n, v.col, v.W, v.own, v.ja, v.ia, v.nc[0]
        if not L.writes(C): return
        if not L.outer: yield 'initial colours', c.forall(0, L.N, lambda k: C[k] == -1)
        if not L.outer: yield 'initial counts', c.forall(S, S + L.N, lambda k: W[k] == ia[k - S + 1] - ia[k - S], pat=lambda k: W[k])
        # search
        inner = len(L.outer) > 0
        yield 'colours', c.forall(0, S, lambda k: c.And(C[k] >= -2, C[k] < nc + (1 if inner else 0)), pat=lambda k: C[k])
        yield 'number of colours', nc >= 0
        yield 'counts', c.forall(S, 2 * S, lambda k: c.And(W[k] >= 0, W[k] <= ia[k - S + 1] - ia[k - S]), pat=lambda k: W[k])
        yield 'not visited', c.forall(0, S, lambda k: c.Implies(C[k] == -1, W[S + k] == ia[k + 1] - ia[k]), pat=lambda k: C[k])
        yield 'components', c.forall(0, v.m, lambda e: c.Implies(c.And(C[own[e]] >= 0, C[own[e]] < nc), C[ja[e]] == C[own[e]]), pat=lambda e: ja[e])
        yield 'labels', c.rawforall(2, lambda a, b: c.Implies(c.And(0 <= a, a < S, 0 <= b, b < S, C[a] == C[b], C[a] >= 0, C[a] < nc), v.comp[a] == v.comp[b]), lambda a, b: [v.comp[a], v.comp[b]])
        yield 'colours used', c.forall(0, nc, lambda t: c.Implies(v.mt(t), c.exists(0, S, lambda k: C[k] == t, pat=lambda k: [C[k]])), pat=lambda t: [v.mt(t)])
        i = L.outer[-1] if inner else L.N
        yield 'earlier nodes', c.forall(0, i, lambda k: C[k] >= 0, pat=lambda k: C[k])
        for nm, off, _ in L.moving:
            sp = c.div(off, 4)
            yield nm + ' is at the bottom', sp == 0
            yield nm + ' is not below the bottom', sp >= 0
            if not inner: continue
            c.pigeonhole(W, sp, S)
            yield nm + ' depth', sp <= S
            yield nm + ' nodes', c.forall(0, sp, lambda k: c.And(W[k] >= 0, W[k] < S, C[W[k]] == -2), pat=lambda k: W[k])
            yield nm + ' distinct', c.rawforall(2, lambda a, b: c.Implies(c.And(0 <= a, a < b, b < sp), W[a] != W[b]), lambda a, b: [W[a], W[b]])
            yield nm + ' holds the visited nodes', c.forall(0, S, lambda k: c.Implies(C[k] == -2, c.exists(0, sp, lambda j: W[j] == k, pat=lambda j: [W[j]])), pat=lambda k: C[k])
        if not inner:
            yield 'nothing half done', c.forall(0, S, lambda k: C[k] != -2, pat=lambda k: C[k])
        else:
            yield 'seed', c.Or(C[i] == -2, C[i] == nc)
            yield 'finished', c.forall(0, S, lambda k: c.Implies(C[k] == nc, W[S + k] == 0), pat=lambda k: C[k])
            yield 'this component', c.forall(0, S, lambda k: c.Implies(c.Or(C[k] == -2, C[k] == nc), v.comp[k] == v.comp[i]), pat=lambda k: C[k])
            yield 'looked at', c.forall(0, v.m, lambda e: c.Implies(c.And(c.Or(C[own[e]] == -2, C[own[e]] == nc), e >= ia[own[e]] + W[S + own[e]]), c.Or(C[ja[e]] == -2, C[ja[e]] == nc)), pat=lambda e: ja[e])
    def post(self, c, r):
        v = c.v
        c.check_all(0, v.n, lambda k: c.And(0 <= v.col[k], v.col[k] < v.nc[0]), 'every node gets a colour')
        c.check_all(0, v.m, lambda e: v.col[v.own[e]] == v.col[v.ja[e]], 'neighbours have the same colour')
        c.each(0, v.n, lambda a: c.check_all(0, v.n, lambda b: c.Implies(v.col[a] == v.col[b], v.comp[a] == v.comp[b]), 'nodes of one colour are connected'))
        c.check_all(0, v.nc[0], lambda t: c.Implies(v.mt(t), c.exists(0, v.n, lambda k: v.col[k] == t, pat=lambda k: [v.col[k]])), 'every colour is used')
        c.unchanged(v.ia); c.unchanged(v.ja)

class Split(Spec):
    """blocks are split into their connected parts"""
    tu, fn, ret, oom = [TU, 'opm/core/pressure/msmfem/dfs.c'], 'partition_split_disconnected', 'int', True
    bounded_only = 'composition of CSR construction, block-local graphs and component labelling: block-local graphs have no contract here'
    def setup(self, c):
        v = c.v
        v.nc, v.m = c.size('nc', 1), c.size('m', 1)
        v.neigh = c.arr('neigh', 'int', 2 * v.m, gen=lambda r, n: [r.randrange(-1, int(v.nc)) for _ in range(n)])
        c.assume(c.forall(0, 2 * v.m, lambda k: c.And(v.neigh[k] >= -1, v.neigh[k] < v.nc), pat=lambda k: v.neigh[k]))
        v.p = c.arr('p', 'int', v.nc, gen=lambda r, n: [r.randrange(3) for _ in range(n)])
        c.assume(c.forall(0, v.nc, lambda k: v.p[k] >= 0, pat=lambda k: v.p[k]))
        return [v.nc, v.m, v.neigh, v.p]
    def post(self, c, r):
        v = c.v
        if not c.native: return
        o, p, n = [int(c.old(v.p)[k]) for k in range(int(v.nc))], v.p.list(), int(v.nc)
        c.no_leak()
        if r < 0:
            c.check(c.nfail > 0, 'succeeds when memory is available'); c.check(p == o, 'partition kept on failure'); return
        lab = list(range(n))
        for _ in range(n):
            for k in range(int(v.m)):
                a, b = int(v.neigh[2 * k]), int(v.neigh[2 * k + 1])
                if a >= 0 and b >= 0 and o[a] == o[b]: lab[a] = lab[b] = min(lab[a], lab[b])
        for a in range(n):
            for b in range(n): c.check((p[a] == p[b]) == (o[a] == o[b] and lab[a] == lab[b]), 'cells share a block exactly when they are connected inside their old block')
        c.check(len(set(p)) == len(set(o)) + r, 'number of new blocks is returned')
        for b in set(o): c.check(any(p[k] == b and o[k] == b for k in range(n)), 'every old block number stays in use')
        c.check(all(p[k] == o[k] or p[k] > max(o) for k in range(n)), 'new blocks are numbered after the old ones')
        c.unchanged(v.neigh)

from lib import each_dim
SPECS = [AllocInverse(), AllocDfs(), Release(), Invert(), LocalIdx(), Compress(), Dfs(), Split()] + each_dim(Unif)
