"""C03: compressed sparse row matrices"""
from dsl import Spec
TU = 'opm/core/linalg/sparse_sys.c'

class NewCount(Spec):
    tu, fn, ret, oom = TU, 'csrmatrix_new_count_nnz', 'ptr', True
    structs = ('CSRMatrix',)
    def setup(self, c):
        c.v.m = c.size('m', 1)
        return [('size_t', c.v.m)]
    def inv(self, c, L):
        if L.st is None: return
        for A in L.int_arrays():
            yield 'zeroed', c.forall(0, L.N, lambda k: A[k] == 0)
    def post(self, c, r):
        def ok():
            A = c.at_struct(r, 'CSRMatrix')
            m = c.v.m
            c.check(c.And(A.get('m') == m, A.get('nnz') == 0), 'new matrix has m rows and no entries')
            c.check(c.And(c.isnull(A.get('ja')), c.isnull(A.get('sa'))), 'structure arrays are not allocated yet')
            ia = A.arr('ia', 'int', m + 1)
            c.check(c.Not(c.isnull(ia)), 'row pointers allocated')
            c.check(c.capacity(ia, 'int') >= m + 1, 'room for m+1 row pointers')
            c.check_all(0, m + 1, lambda i: ia[i] == 0, 'row counters start at zero')
            c.no_leak(A, ia)
        c.when(c.Not(c.isnull(r)), ok)
        c.when(c.isnull(r), lambda: c.no_leak())
        if c.native and c.nfail == 0: c.check(not c.isnull(r), 'allocation succeeds when memory is available')

class NewKnown(Spec):
    tu, fn, ret, oom = TU, 'csrmatrix_new_known_nnz', 'ptr', True
    structs = ('CSRMatrix',)
    def setup(self, c):
        c.v.m = c.size('m', 0); c.v.nnz = c.size('nnz', 0)
        return [('size_t', c.v.m), ('size_t', c.v.nnz)]
    def post(self, c, r):
        def ok():
            A = c.at_struct(r, 'CSRMatrix')
            m, nnz = c.v.m, c.v.nnz
            c.check(c.And(A.get('m') == m, A.get('nnz') == nnz), 'dimensions recorded')
            for f, k, n in (('ia', 'int', m + 1), ('ja', 'int', nnz), ('sa', 'double', nnz)):
                a = A.arr(f, k, n)
                c.check(c.Not(c.isnull(a)), f + ' allocated')
                c.check(c.capacity(a, k) >= n, 'capacity of ' + f)
            c.no_leak(A, A.get('ia'), A.get('ja'), A.get('sa'))
        c.when(c.Not(c.isnull(r)), ok)
        c.when(c.isnull(r), lambda: c.no_leak())
        if c.native and c.nfail == 0: c.check(not c.isnull(r), 'allocation succeeds when memory is available')

class PushBack(Spec):
    tu, fn, ret, oom = TU, 'csrmatrix_new_elms_pushback', 'size_t', True
    structs = ('CSRMatrix',)
    def setup(self, c):
        v = c.v
        v.m = c.size('m', 1)
        v.ia = c.arr('ia', 'int', v.m + 1, heap=True, gen=lambda r, n: [0] + [r.randint(0, 4) for _ in range(n - 1)])
        c.assume(v.ia[0] == 0)
        c.assume(c.forall(0, v.m + 1, lambda k: v.ia[k] >= 0))
        v.S = c.psum('counts', v.m + 1, lambda k: v.ia[k], lo=1)
        c.assume(v.S(v.m + 1) > 0)
        v.A = c.struct('A', 'CSRMatrix', heap=True, m=v.m, nnz=0, ia=v.ia, ja=c.null(), sa=c.null())
        return [v.A]
    def inv(self, c, L):
        v = c.v
        v.S.unfold(L.N + 1)
        yield 'total', v.ia[0] == v.S(L.N + 1)
        yield 'start', c.forall(1, L.N + 1, lambda k: v.ia[k] == v.S(k), pat=lambda k: v.ia[k])
        yield 'rest', c.forall(L.N + 1, v.m + 1, lambda k: v.ia[k] == c.old(v.ia)[k], pat=lambda k: v.ia[k])
    def post(self, c, r):
        v = c.v
        c.check(v.A.get('nnz') == r, 'returned size is recorded')
        c.check(v.ia[0] == 0, 'first row pointer is zero')
        c.check_all(1, v.m + 1, lambda k: v.ia[k] == v.S(k), 'row pointer is the prefix sum of the counts')
        def ok():
            c.check(r == v.S(v.m + 1), 'number of entries is the sum of the counts')
            for f, k in (('ja', 'int'), ('sa', 'double')):
                a = v.A.arr(f, k, r)
                c.check(c.Not(c.isnull(a)), f + ' allocated'); c.check(c.capacity(a, k) >= r, 'capacity of ' + f)
            c.no_leak(v.A, v.ia, v.A.get('ja'), v.A.get('sa'))
        def failed():
            c.check(c.And(c.isnull(v.A.get('ja')), c.isnull(v.A.get('sa'))), 'no dangling arrays after failure')
            c.no_leak(v.A, v.ia)
        c.when(r > 0, ok)
        c.when(r == 0, failed)
        c.check(r >= 0, 'size non-negative')
        if c.native and c.nfail == 0: c.check(r > 0, 'allocation succeeds when memory is available')

class VectorZero(Spec):
    tu, fn = TU, 'vector_zero'
    def setup(self, c):
        v = c.v
        v.n = c.size('n', 0); v.a = c.arr('v', 'double', v.n)
        return [('size_t', v.n), v.a]
    def inv(self, c, L):
        yield 'zeroed', c.forall(0, L.N, lambda k: c.v.a[k] == 0)
    def post(self, c, r):
        c.check_all(0, c.v.n, lambda k: c.v.a[k] == 0, 'every entry is zero')

class CsrZero(VectorZero):
    tu, fn = TU, 'csrmatrix_zero'
    structs = ('CSRMatrix',)
    def setup(self, c):
        v = c.v
        v.n = c.size('n', 0); v.a = c.arr('sa', 'double', v.n); v.m = c.size('m', 0)
        v.ja = c.arr('ja', 'int', v.n); v.ia = c.arr('ia', 'int', v.m + 1)
        v.A = c.struct('A', 'CSRMatrix', m=v.m, nnz=v.n, ia=v.ia, ja=v.ja, sa=v.a)
        return [v.A]
    def post(self, c, r):
        super().post(c, r)
        c.check(c.And(c.v.A.get('m') == c.v.m, c.v.A.get('nnz') == c.v.n), 'dimensions kept')
        c.unchanged(c.v.ia); c.unchanged(c.v.ja)

class Delete(Spec):
    tu, fn = TU, 'csrmatrix_delete'
    structs = ('CSRMatrix',)
    def setup(self, c):
        v = c.v
        n, m = c.size('n', 0), c.size('m', 0)
        A = c.struct('A', 'CSRMatrix', heap=True, m=m, nnz=n, ia=c.arr('ia', 'int', m + 1, heap=True), ja=c.arr('ja', 'int', n, heap=True), sa=c.arr('sa', 'double', n, heap=True))
        return [A]
    def post(self, c, r): c.no_leak(label='everything released')

SPECS = [NewCount(), NewKnown(), PushBack(), VectorZero(), CsrZero(), Delete()]

class SortRows(Spec):
    """rows keep their entries and end up sorted"""
    tu, fn, structs, fresh = TU, 'csrmatrix_sortrows', ('CSRMatrix',), True
    def setup(self, c):
        from lib import monotone, owner
        v = c.v
        v.m = c.size('m', 0)
        v.ia, v.nnz = monotone(c, 'ia', v.m, maxstep=4)
        v.own = owner(c, 'row', v.ia, v.m, v.nnz)
        v.mk = c.mark('e')
        v.ja = c.arr('ja', 'int', v.nnz)
        v.A = c.struct('A', 'CSRMatrix', m=v.m, nnz=v.nnz, ia=v.ia, ja=v.ja, sa=c.null())
        return [v.A]
    def k1(self, c, e):
        v = c.v; o = c.old(v.ja); r = v.own[e]
        return c.Implies(v.mk(e), c.exists(v.ia[r], v.ia[r + 1], lambda k: v.ja[e] == o[k], pat=lambda k: [o[k]]))
    def k2(self, c, e):
        v = c.v; o = c.old(v.ja); r = v.own[e]
        return c.Implies(v.mk(e), c.exists(v.ia[r], v.ia[r + 1], lambda k: o[e] == v.ja[k], pat=lambda k: [v.ja[k]]))
    def inv(self, c, L):
        v = c.v; o = c.old(v.ja)
        yield 'sorted', c.forall2(0, v.ia[L.N], lambda i, j: c.Implies(v.own[i] == v.own[j], v.ja[i] <= v.ja[j]), pat=lambda i, j: (v.ja[i], v.ja[j]))
        yield 'kept1', c.forall(0, v.ia[L.N], lambda e: self.k1(c, e), pat=lambda e: [v.mk(e)])
        yield 'kept2', c.forall(0, v.ia[L.N], lambda e: self.k2(c, e), pat=lambda e: [v.mk(e)])
        yield 'rest', c.forall(v.ia[L.N], v.nnz, lambda e: v.ja[e] == o[e], pat=lambda e: [v.ja[e], o[e]])
    def post(self, c, r):
        v = c.v; o = c.old(v.ja)
        c.each(0, v.nnz, lambda i: c.each(0, v.nnz, lambda j: c.when(c.And(i <= j, v.own[i] == v.own[j]), lambda: c.check(v.ja[i] <= v.ja[j], 'column indices are sorted within each row'))))
        c.check_all(0, v.nnz, lambda e: self.k1(c, e), 'every column index of a row was there before')
        c.check_all(0, v.nnz, lambda e: self.k2(c, e), 'no column index of a row is lost')
        if c.native:
            for r in range(v.m): c.check(sorted(o[k] for k in range(v.ia[r], v.ia[r + 1])) == sorted(v.ja[k] for k in range(v.ia[r], v.ia[r + 1])), 'rows keep their column indices')
        c.unchanged(v.ia)

class ElmIndex(Spec):
    tu, fn, ret, structs = TU, 'csrmatrix_elm_index', 'size_t', ('CSRMatrix',)
    def setup(self, c):
        from lib import monotone, owner
        v = c.v
        v.m = c.size('m', 1)
        v.ia, v.nnz = monotone(c, 'ia', v.m, maxstep=4)
        v.own = owner(c, 'row', v.ia, v.m, v.nnz)
        def gen(r, n):
            out = []
            for i in range(int(v.m)):
                out += sorted(r.sample(range(8), int(v.ia[i + 1] - v.ia[i])))
            return out
        v.ja = c.arr('ja', 'int', v.nnz, gen=gen)
        c.assume(c.forall2(0, v.nnz, lambda i, j: c.Implies(c.And(v.own[i] == v.own[j], i < j), v.ja[i] < v.ja[j]), pat=lambda i, j: (v.ja[i], v.ja[j])))
        v.A = c.struct('A', 'CSRMatrix', m=v.m, nnz=v.nnz, ia=v.ia, ja=v.ja, sa=c.null())
        v.e = c.int('e', 0, gen=lambda r: r.randrange(int(v.nnz)) if v.nnz else 0)
        c.assume(v.e < v.nnz)
        return [v.own[v.e], v.ja[v.e], v.A]
    def post(self, c, r):
        v = c.v
        c.check(r == v.e, 'position of the entry')
        c.unchanged(v.ja); c.unchanged(v.ia)
SPECS += [SortRows(), ElmIndex()]
