"""C16: sparse containers"""
from dsl import Spec
TU = 'harness/sparse.cpp'

def rows(c, valid=True):
    v = c.v
    v.nr = c.size('nr', 1 if valid else 0)
    v.rs = c.arr('rs', 'int', v.nr, gen=lambda r, n: [r.choice([0, 0, 1, 2, 3]) if valid or r.random() < .95 else -1 for _ in range(n)])
    v.S = c.array_sum(v.rs, v.nr); v.S.nondecreasing(v.nr)
    if valid:
        c.assume(c.forall(0, v.nr, lambda i: v.rs[i] >= 0, pat=lambda i: v.rs[i]))
        c.assume(v.S(v.nr) >= 0)
    v.r = c.int('r', 0, gen=lambda r: r.randrange(max(1, int(v.nr)))); v.j = c.int('j', 0, gen=lambda r: r.randrange(4))
def table(c, valid=True):
    v = c.v
    rows(c, valid)
    if valid: v.nd = c.int('nd', 0, gen=lambda r: v.S(v.nr)); c.assume(v.nd == v.S(v.nr))
    else: v.nd = c.int('nd', 0, gen=lambda r: r.choice([v.S(v.nr), v.S(v.nr), r.randrange(6)]))
    v.d = c.arr('d', 'double', v.nd)
    return [v.d, v.nd, v.rs, v.nr]
def outs(c):
    v = c.v; v.q, v.x = c.arr('q', 'int', 6), c.arr('x', 'double', 2)
    return [v.q, v.x]
class Table(Spec):
    tu, samples, throws = TU, 400, True
    def inv(self, c, L):
        v = c.v
        if not hasattr(v, 'S'): return
        for n, x in L.named_ints: yield 'sum ' + n, x == v.S(L.N)
        for a in L.int_arrays():
            yield 'starts %s' % a.name, c.forall(0, L.N + 1, lambda i: a[i] == v.S(i), pat=lambda i: a[i])
    def valid(self, c):
        v = c.v
        return c.And(v.nr >= 1, c.forall(0, v.nr, lambda i: v.rs[i] >= 0), v.nd == v.S(v.nr))
    def queried(self, c, nr, nd, size, elem):
        v = c.v; q, x = v.q, v.x
        c.check(q[0] == nr, 'number of rows'); c.check(q[1] == nd, 'number of data elements'); c.check(q[2] == 0, 'not empty')
        c.check(q[3] == size, 'row size'); c.check(c.And(q[4] == size, q[5] == size), 'length of the row range')
        c.check(c.Implies(v.j < size, x[0] == elem), 'row data'); c.check(c.Implies(v.j < size, x[1] == elem), 'row data (mutable row)')
class Construct(Table):
    fn = 'h_st'
    def setup(self, c):
        a = table(c, False); v = c.v
        c.assume(c.Or(v.r < v.nr, c.Not(self.valid(c))))
        return a + [v.r, v.j] + outs(c)
    def on_throw(self, c):
        c.check(c.Not(self.valid(c)), 'only inconsistent sizes are rejected')
    def post(self, c, r):
        v = c.v; v.S.unfold(v.r)
        c.check(self.valid(c), 'inconsistent sizes are rejected')
        self.queried(c, v.nr, v.nd, v.rs[v.r], v.d[v.S(v.r) + v.j])
class Assign(Construct):
    fn = 'h_st_assign'
    def setup(self, c):
        a = table(c, False); v = c.v
        c.assume(c.Or(v.r < v.nr, c.Not(self.valid(c))))
        v.nd0 = c.size('nd0', 0); v.d0 = c.arr('d0', 'double', v.nd0)
        return a + [v.d0, v.nd0, v.r, v.j] + outs(c)
class Append(Table):
    fn, throws = 'h_st_append', False
    def setup(self, c):
        a = table(c); v = c.v
        v.n1 = c.size('n1', 0); v.d1 = c.arr('d1', 'double', v.n1)
        c.assume(v.r <= v.nr)
        return a + [v.d1, v.n1, v.r, v.j] + outs(c)
    def post(self, c, r):
        v = c.v
        q = v.S.unfold(v.r)
        c.when(v.r < v.nr, lambda: self.queried(c, v.nr + 1, v.nd + v.n1, v.rs[v.r], v.d[v.S(v.r) + v.j]))
        c.when(v.r == v.nr, lambda: self.queried(c, v.nr + 1, v.nd + v.n1, v.n1, v.d1[v.j]))
class Append0(Table):
    fn, throws = 'h_st_append0', False
    def setup(self, c):
        v = c.v
        v.nd, v.n1 = c.size('nd', 0), c.size('n1', 0)
        v.d, v.d1 = c.arr('d', 'double', v.nd), c.arr('d1', 'double', v.n1)
        v.used = c.int('used', 0, 1, gen=lambda r: r.randrange(2))
        v.r = c.int('r', 0, 1, gen=lambda r: r.randrange(2)); v.j = c.int('j', 0, gen=lambda r: r.randrange(4))
        return [v.d, v.nd, v.d1, v.n1, v.used, v.r, v.j] + outs(c)
    def post(self, c, r):
        v = c.v
        c.when(v.r == 0, lambda: self.queried(c, 2, v.nd + v.n1, v.nd, v.d[v.j]))
        c.when(v.r == 1, lambda: self.queried(c, 2, v.nd + v.n1, v.n1, v.d1[v.j]))
class Alloc(Table):
    fn = 'h_st_alloc'
    def setup(self, c):
        rows(c, False); v = c.v; v.nd = v.S(v.nr)
        c.assume(c.Or(v.r < v.nr, c.Not(self.valid(c)), v.nr == 0))
        v.y = c.real('y'); o = outs(c)
        v.p, v.z = c.arr('p', 'int', 6), c.arr('z', 'double', 2)
        c.assume(v.S(v.nr) >= 0)      # the number of data elements; a negative total is no size at all
        return [v.rs, v.nr, v.r, v.j, ('double', v.y)] + o + [v.p, v.z]
    def on_throw(self, c): c.check(c.Not(self.valid(c)), 'only inconsistent sizes are rejected')
    def post(self, c, r):
        v = c.v; v.S.unfold(v.r)
        c.check(self.valid(c), 'inconsistent sizes are rejected')
        self.queried(c, v.nr, v.nd, v.rs[v.r], v.y)
        c.check(c.Implies(v.j < v.rs[v.r], c.And(v.z[0] == 0, v.z[1] == 0)), 'new elements are zero')
        c.check(c.And(v.p[0] == v.nr, v.p[1] == v.nd, v.p[3] == v.rs[v.r]), 'sizes')
class Size(Table):
    fn, throws, ret = 'h_st_size', False, 'int'
    def setup(self, c):
        a = table(c); v = c.v; v.q = c.arr('q', 'int', 6)
        return a + [v.q]
    def post(self, c, r):
        v = c.v; q = v.q
        c.check(c.And(q[0] == 0, q[1] == 0, q[2] != 0), 'a new table is empty')
        c.check(q[3] == v.nr, 'swap exchanges the contents')
        c.check(r != 0, 'cleared and swapped-out tables are empty')
class Equal(Table):
    fn, throws, ret = 'h_st_eq', False, 'int'
    def setup(self, c):
        a = table(c); v = c.v
        v.ns = c.size('ns', 1)
        v.ss = c.arr('ss', 'int', v.ns, gen=lambda r, n: [v.rs[i] if i < int(v.nr) and r.random() < .9 else r.randrange(3) for i in range(n)])
        c.assume(c.forall(0, v.ns, lambda i: v.ss[i] >= 0, pat=lambda i: v.ss[i]))
        v.W = c.array_sum(v.ss, v.ns); v.W.nondecreasing(v.ns); c.assume(v.W(v.ns) >= 0)
        v.ne = c.int('ne', 0, gen=lambda r: v.W(v.ns)); c.assume(v.ne == v.W(v.ns))
        v.e = c.arr('e', 'double', v.ne, gen=lambda r, n: [v.d[i] if i < int(v.nd) and r.random() < .95 else r.randrange(3) / 2.0 for i in range(n)])
        return a + [v.e, v.ne, v.ss, v.ns]
    def post(self, c, r):
        v = c.v
        same = c.And(v.nr == v.ns, v.nd == v.ne, c.forall(0, v.nd, lambda i: v.d[i] == v.e[i], pat=lambda i: v.d[i]))
        c.check(c.Implies(r != 0, same), 'equal tables have equal data')
        # equal row starts are equal row sizes
        c.when(r != 0, lambda: c.each(0, v.nr, lambda k: (v.S.unfold(k), v.W.unfold(k), c.check(v.rs[k] == v.ss[k], 'equal tables have equal row sizes'))))
        c.check(c.Implies(c.And(same, c.forall(0, v.nr + 1, lambda i: v.S(i) == v.W(i))), r != 0), 'tables with equal contents are equal')

def vec(c, valid=True, name='ix', dn='d', nn='n', szn='sz'):
    v = c.v
    n = c.size(nn, 0)
    def gen(r, m):
        out, k = [], -1
        for _ in range(m): k += r.choice([1, 1, 2, 3]) if valid or r.random() < .95 else 0; out.append(k)
        return out
    ix = c.arr(name, 'int', n, gen=gen)
    sz = c.int(szn, 0 if valid else None, gen=lambda r: (ix[n - 1] + r.choice([1, 2, 4] if valid else [1, 1, 2, 4, 0]) if int(n) else r.randrange(0 if valid else -1, 3)))
    d = c.arr(dn, 'double', n)
    if valid: c.assume(ok(c, sz, ix, n))
    return sz, d, ix, n
def ok(c, sz, ix, n):
    return c.And(sz >= 0, c.forall(0, n, lambda i: c.And(0 <= ix[i], ix[i] < sz), pat=lambda i: ix[i]), c.forall2(0, n, lambda i, j: c.Or(i >= j, ix[i] < ix[j]), pat=lambda i, j: (ix[i], ix[j])))
def index(c, name='i'):
    v = c.v
    return c.int(name, 0, gen=lambda r: r.choice([v.ix[r.randrange(int(v.n))] if int(v.n) else 0, r.randrange(max(1, int(v.sz)))]))
class Vec(Spec):
    tu, samples, throws, ret = TU, 400, True, 'double'
    def inv(self, c, L):
        v = c.v
        if not hasattr(v, 'ix'): return
        for ix in [v.ix] + ([v.jx] if hasattr(v, 'jx') else []):
            for n, x in L.named_ints:
                yield 'last %s %s' % (n, ix.name), x == c.Ite(L.N == 0, -1, ix[L.N - 1])
                yield 'range %s %s' % (n, ix.name), x >= -1
            yield 'bounds ' + ix.name, c.forall(0, L.N, lambda i: c.And(0 <= ix[i], ix[i] < v.sz), pat=lambda i: ix[i])
            yield 'upto ' + ix.name, c.forall(0, L.N, lambda i: ix[i] <= ix[L.N - 1], pat=lambda i: ix[i])
            yield 'sorted ' + ix.name, c.forall2(0, L.N, lambda i, j: c.Or(i >= j, ix[i] < ix[j]), pat=lambda i, j: (ix[i], ix[j]))
    def lookup(self, c, r, extra=None):
        v = c.v
        new = (lambda: v.i == v.at) if extra else (lambda: False)
        c.check_all(0, v.n, lambda m: c.Implies(v.ix[m] == v.i, r == v.d[m]), 'stored element')
        if extra: c.check(c.Implies(v.i == v.at, r == v.e), 'added element')
        c.check(c.Implies(c.And(c.Not(new()), c.forall(0, v.n, lambda m: c.Not(v.ix[m] == v.i), pat=lambda m: v.ix[m])), r == 0), 'default elsewhere')
class VecConstruct(Vec):
    fn = 'h_sv'
    def setup(self, c):
        v = c.v
        v.sz, v.d, v.ix, v.n = vec(c, False)
        v.i, v.k = index(c), c.int('k', 0, gen=lambda r: r.randrange(5)); v.o = c.arr('o', 'int', 4)
        c.assume(c.Or(v.i < v.sz, c.Not(ok(c, v.sz, v.ix, v.n))))
        return [v.sz, v.d, v.ix, v.n, v.i, v.k, v.o]
    def on_throw(self, c): c.check(c.Not(ok(c, c.v.sz, c.v.ix, c.v.n)), 'only bad indices are rejected')
    def post(self, c, r):
        v = c.v
        c.check(ok(c, v.sz, v.ix, v.n), 'bad indices are rejected')
        c.check(c.And(v.o[0] == v.sz, v.o[1] == v.n, c.Iff(v.o[2] != 0, v.sz == 0)), 'sizes')
        c.check(c.Implies(v.k < v.n, v.o[3] == v.ix[v.k]), 'index of the k-th stored element')
        self.lookup(c, r)
class VecNonzero(Vec):
    fn = 'h_sv_nz'
    def setup(self, c):
        v = c.v
        v.sz, v.d, v.ix, v.n = vec(c)
        v.k = c.int('k', gen=lambda r: r.randrange(-1, 4))
        return [v.sz, v.d, v.ix, v.n, v.k]
    def on_throw(self, c): c.check(c.Or(c.v.k < 0, c.v.k >= c.v.n), 'only bad positions are rejected')
    def post(self, c, r): c.check(r == c.v.d[c.v.k], 'the k-th stored element')
class VecAdd(Vec):
    fn = 'h_sv_add'
    def setup(self, c):
        v = c.v
        v.sz, v.d, v.ix, v.n = vec(c)
        v.e = c.real('e')
        v.at = c.int('at', gen=lambda r: r.choice([v.sz - 1, r.randrange(-1, max(1, int(v.sz))), v.sz]))
        v.i = c.int('i', 0, gen=lambda r: r.choice([v.at if v.at >= 0 else 0, v.ix[r.randrange(int(v.n))] if int(v.n) else 0, r.randrange(max(1, int(v.sz)))])); v.o = c.arr('o', 'int', 4)
        c.assume(v.i < v.sz)
        return [v.sz, v.d, v.ix, v.n, ('double', v.e), v.at, v.i, v.o]
    def legal(self, c): v = c.v; return c.And(0 <= v.at, v.at < v.sz, c.Or(v.n == 0, v.at > v.ix[v.n - 1]))
    def on_throw(self, c): c.check(c.Not(self.legal(c)), 'only bad indices are rejected')
    def post(self, c, r):
        v = c.v
        c.check(self.legal(c), 'bad indices are rejected')
        c.check(c.And(v.o[0] == v.sz, v.o[1] == v.n + 1, v.o[2] == 0, v.o[3] == v.at), 'sizes')
        self.lookup(c, r, True)
class VecAdd0(VecAdd):
    fn = 'h_sv_add0'
    def setup(self, c):
        v = c.v
        v.sz, v.e = c.int('sz', 1, gen=lambda r: r.randrange(1, 5)), c.real('e')
        v.at = c.int('at', gen=lambda r: r.randrange(-1, int(v.sz) + 1)); v.i = c.int('i', 0, gen=lambda r: r.randrange(int(v.sz))); v.o = c.arr('o', 'int', 4)
        c.assume(v.i < v.sz); v.n = 0
        return [v.sz, ('double', v.e), v.at, v.i, v.o]
    def legal(self, c): v = c.v; return c.And(0 <= v.at, v.at < v.sz)
    def lookup(self, c, r, extra=None):
        v = c.v; c.check(r == c.Ite(v.i == v.at, v.e, c.R(0)), 'added element, default elsewhere')
class VecClear(Vec):
    fn, ret, throws = 'h_sv_clear', 'int', True
    def setup(self, c):
        v = c.v
        v.sz, v.d, v.ix, v.n = vec(c)
        return [v.sz, v.d, v.ix, v.n]
    def on_throw(self, c): c.check(False, 'nothing to reject')
    def post(self, c, r): c.check(r != 0, 'a cleared vector is empty')
class VecEqual(Vec):
    fn, ret = 'h_sv_eq', 'int'
    def setup(self, c):
        v = c.v
        v.sz, v.d, v.ix, v.n = vec(c)
        v.sz2, v.e, v.jx, v.m = vec(c, True, 'jx', 'e', 'm', 'sz2')
        return [v.sz, v.d, v.ix, v.n, v.sz2, v.e, v.jx, v.m]
    def inv(self, c, L):
        yield from Vec.inv(self, c, L)
        ix = c.v.jx
        yield 'bounds2', c.forall(0, L.N, lambda i: c.And(0 <= ix[i], ix[i] < c.v.sz2), pat=lambda i: ix[i])
    def on_throw(self, c): c.check(False, 'nothing to reject')
    def post(self, c, r):
        v = c.v
        c.check(c.Iff(r != 0, c.And(v.sz == v.sz2, v.n == v.m, c.forall(0, v.n, lambda i: c.And(v.ix[i] == v.jx[i], v.d[i] == v.e[i])))), 'equality')
SPECS = [Construct(), Assign(), Append(), Append0(), Alloc(), Size(), Equal(), VecConstruct(), VecNonzero(), VecAdd(), VecAdd0(), VecClear(), VecEqual()]
