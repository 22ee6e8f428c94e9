"""C04: the integer hash set"""
import math
from dsl import Spec, NS
from lib import *
TU, SRC = 'harness/hashset.c', 'opm/core/pressure/msmfem/hash_set.c'

def idx(k, m): return int(math.floor(m * math.fmod(k * 0.6180339887498949, 1.0)))
def gen_key(r): return r.choice([r.randint(0, 20), r.randint(0, 2000), r.randint(0, 2 ** 31 - 1), 13 * r.randint(0, 9)])

class Probe:
    """specification functions: P(k, i) is the i-th probed position of key k in a table of m (a power of two)
    positions, D(k, x) the number of the probe that reaches position x.  hash_set_idx is trusted to return a
    position below m (floating point); that an odd step reaches every position of a table whose size is a power
    of two exactly once in m probes is proved (probe_lemmas)."""
    def handlers(self):
        import models, z3
        from terms import P, And, Implies
        H = z3.Function('H', z3.IntSort(), z3.IntSort(), z3.IntSort())
        def h(ex, st, a, inst):
            k, m = a[0], a[1]
            r = P.of(H(k.z3(), m.z3()))
            st.assume(Implies(And(k >= 0, m >= 1), And(r >= 0, r < m)))
            return models.ret(st, r)
        return {'hash_set_idx': h}
    def probing(self, c, m):
        v = c.v
        if not c.native: c.ex.pow2 = [m, 2 * m]
        t = self.probes(c, m, '')
        v.P, v.D, v.H = t.P, t.D, t.H
    def probes(self, c, m, tag):
        """the probe functions of a table of m positions"""
        v = NS()
        v.m, v.H = m, None
        if c.native:
            def P(k, i): return (idx(k, m) + i * (2 * idx(k, max(m >> 1, 1)) + 1)) % m
            v.P = P
            v.D = lambda k, x: next(i for i in range(m) if P(k, i) == x)
            return v
        import z3
        from terms import P as T
        I = z3.IntSort()
        H, Pf, Df = z3.Function('H', I, I, I), z3.Function('probe' + tag, I, I, I), z3.Function('number' + tag, I, I, I)
        w = lambda f: (lambda *a: T.of(f(*[T.of(x).z3() for x in a])))
        v.H, v.P, v.D = w(H), w(Pf), w(Df)
        M = m.z3()
        k, i, x = z3.Ints('k!pr i!pr x!pr')
        both = z3.ForAll([k, i], z3.Implies(z3.And(0 <= i, i < M), z3.And(0 <= Pf(k, i), Pf(k, i) < M, Df(k, Pf(k, i)) == i)), patterns=[Pf(k, i)])
        inv = z3.ForAll([k, x], z3.Implies(z3.And(0 <= x, x < M), z3.And(0 <= Df(k, x), Df(k, x) < M, Pf(k, Df(k, x)) == x)), patterns=[Df(k, x)])
        c.define(both); c.define(inv)
        return v
    def unfold(self, c, k, i):
        """P(k, 0) and P(k, i+1) from P(k, i)"""
        v = c.v
        if c.native: return
        half = c.Ite(v.m >= 2, c.div(v.m, 2), c.I(1))
        c.define(c.And(v.P(k, 0) == v.H(k, v.m), c.Implies(i >= 0, v.P(k, i + 1) == c.mod(v.P(k, i) + 2 * v.H(k, half) + 1, v.m))))
    def valid(self, c, s, t=None):
        """the set's invariant: keys are distinct and every position probed before a key's own is occupied"""
        v = t or c.v
        if c.native:
            s, m = [s[i] for i in range(int(v.m))], int(v.m)
            ks = [x for x in s if x != -1]
            return len(set(ks)) == len(ks) and all(s[v.P(x, i)] != -1 for p, x in enumerate(s) if x != -1 for i in range(v.D(x, p)))
        a = c.forall(0, v.m, lambda x: c.And(s[x] >= -1, c.Implies(s[x] != -1, v.D(s[x], x) >= 0)), pat=lambda x: s[x])
        p = c.rawforall(2, lambda x, i: c.Implies(c.And(0 <= x, x < v.m, s[x] != -1, 0 <= i, i < v.D(s[x], x)), s[v.P(s[x], i)] != -1), lambda x, i: [v.P(s[x], i)])
        d = c.rawforall(2, lambda x, y: c.Implies(c.And(0 <= x, x < v.m, 0 <= y, y < v.m, s[x] == s[y], s[x] != -1), x == y), lambda x, y: [s[x], s[y]])
        return c.And(a, p, d)
    def table(self, c, heap=False):
        v = c.v
        v.m = c.int('m', 1, None, size=True, gen=lambda r: r.choice([1, 2, 4, 8, 16]))
        if c.native and v.m & (v.m - 1):
            from dsl import Rejected
            raise Rejected('size')
        self.probing(c, v.m)
        def gen(r, n):
            s = [-1] * int(v.m)
            for _ in range(r.choice([r.randint(0, int(v.m)), 8 * int(v.m)])):
                k = gen_key(r)
                for i in range(int(v.m)):
                    j = v.P(k, i)
                    if s[j] in (-1, k): s[j] = k; break
            return s
        v.s = c.arr('s', 'int', v.m, gen=gen, heap=heap)

def probe_lemmas(c):
    """why an odd step reaches every position of a table of M = 2^p positions exactly once: the probes are
    (a + i h) mod M; obligations of their own, from no assumption but the ones stated"""
    import z3
    from terms import P, fresh_name
    ex = c.ex
    d, e, g, h, k, M, w, a, i, j, q, r, u, t, x = z3.Ints(' '.join(n + '!odd' for n in 'd e g h k M w a i j q r u t x'.split()))
    def lemma(label, concl, *hyp):
        st = c.st.fork(); st.pc = []
        for f in hyp: st.assume(f)
        ex.oblige(st, 'lemma: odd step: ' + label, concl, where=c._where)
    odd = h == 2 * g + 1
    # M | d h implies M | d, by induction on p
    lemma('one position', d == d * 1)
    lemma('divisor doubles: even', d == 2 * e, odd, d * h == k * (2 * M), e == k * M - d * g)
    lemma('divisor doubles: half', e * h == k * M, d == 2 * e, d * h == k * (2 * M))
    lemma('divisor doubles', d == w * (2 * M), d == 2 * e, e == w * M)
    # equal probes are a multiple of M apart, hence the same
    lemma('equal probes', (j - i) * h == (u - q) * M, a + i * h == q * M + r, a + j * h == u * M + r)
    lemma('distinct probes', z3.BoolVal(False), M >= 1, 0 <= i, i < j, j < M, j - i == w * M)
    # the next probe is the last one plus h, modulo M
    lemma('next probe', a + (i + 1) * h == (q + t) * M + u, a + i * h == q * M + r, r + h == t * M + u)
    # every position is probed: M different probes and a position x that is none of them would be M + 1 values below M
    z = z3.Const('probes!odd', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    class Z:
        def z3arr(self): return z
    st = c.st.fork(); st.pc = []
    st.assume(M >= 1); st.assume(z3.And(0 <= x, x < M)); st.assume(z[M] == x)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < M), z3.And(0 <= z[i], z[i] < M, z[i] != x)), patterns=[z[i]]))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < M), z[i] != z[j]), patterns=[z3.MultiPattern(z[i], z[j])]))
    with c.at(st, None):
        c.pigeonhole(Z(), P.of(M) + 1, P.of(M))
        ex.oblige(st, 'lemma: odd step: every position is probed', z3.BoolVal(False), where=c._where)

class InsertCore(Probe, Spec):
    """an insertion keeps the invariant, changes at most one free slot to the key, and gives up only when the
    table is full without the key"""
    tu, fn, ret, samples, fresh, tscale = TU, 'h_core', 'int', 400, True, 2
    def setup(self, c):
        v = c.v
        self.table(c)
        v.k = c.int('k', 0, None, gen=lambda r: r.choice([gen_key(r), max(0, v.s[r.randrange(int(v.m))])]))
        c.assume(v.m <= 2 ** 30)
        c.assume(self.valid(c, v.s))
        self.unfold(c, v.k, c.I(0))
        if not c.native: probe_lemmas(c)
        v.o = c.old(v.s)
        return [v.k, v.m, v.s]
    def inv(self, c, L):
        v = c.v
        self.unfold(c, v.k, L.N)
        for n, x in L.named_ints: yield 'probe ' + n, x == v.P(v.k, L.N)
        yield 'fewer probes than positions', L.N < v.m
        yield 'earlier probes', c.forall(0, L.N, lambda i: c.And(v.s[v.P(v.k, i)] != -1, v.s[v.P(v.k, i)] != v.k), pat=lambda i: v.P(v.k, i))
    def post(self, c, r):
        v = c.v
        o, s, k, m = c.old(v.s), v.s, v.k, v.m
        c.check(c.Or(c.And(r >= 0, r < m), r == m + 1), 'a position or none')
        c.check(c.Implies(r < m, c.And(s[r] == k, c.Or(o[r] == -1, o[r] == k))), 'the key is stored, in its own slot or a free one')
        if c.native: c.check(all(s[x] == o[x] for x in range(m) if x != r), 'other slots are unchanged')
        else: c.check_all(0, m, lambda x: c.Or(x == r, s[x] == o[x]), 'other slots are unchanged')
        c.check_all(0, m, lambda x: c.Implies(r == m + 1, c.And(o[x] != -1, o[x] != k)), 'no position is found only when the table is full without the key', hint=lambda x: [v.P(k, v.D(k, x)) == x])
        if c.native: c.check(self.valid(c, s), 'invariant')
        else:
            c.check_all(0, m, lambda x: s[x] >= -1, 'invariant: entries')
            c.check(self.valid(c, s), 'invariant: distinct keys, no gap before a key')

class CoreContract(Probe):
    """hash_set_insert_core replaced by its contract (InsertCore, proved above), for tables of m and of 2m positions.
    Ghost state: pos[o(k)] is the slot that key k was given last."""
    def handlers(self):
        import models
        from ir import IntTy
        from terms import P, Ptr, fresh_int
        def core(ex, st, a, inst):
            c, v = ex.ctx, ex.ctx.v
            k, M, p = a
            t = next((t for t in (v.t1, v.t2) if (t.m - M).const == 0), None)
            with c.at(st, None):
                if t is None:
                    ex.oblige(st, 'size of the table passed on', False, inst); return models.ret(st, M)
                s = c.view(p, 'int', t.m)
                ex.oblige(st, 'key is not negative', k >= 0, inst)
                ex.oblige(st, 'table satisfies the invariant', self.valid(c, s, t), inst)
                # hash_set_insert_core: full without the key
                f = st.fork()
                c.st = f
                f.assume(c.forall(0, t.m, lambda x: c.And(s[x] != -1, s[x] != k), pat=lambda x: s[x]))
                self.absent(c, f, s, t)
                out = models.ret(f, M + 1) if ex.feasible(f) else []
                # or stored
                c.st = st
                r = fresh_int('slot')
                st.assume(c.And(r >= 0, r < t.m, c.Or(s[r] == -1, s[r] == k)))
                ex.store(st, IntTy(32), k, Ptr(p.rid, p.off + r * 4), inst)
                ex.store(st, IntTy(32), r, Ptr(v.pos.p.rid, v.o(k) * 4), inst)
                st.assume(self.valid(c, s, t))
            return out + models.ret(st, r)
        return {'hash_set_insert_core': core}
    def absent(self, c, st, s, t):
        """a table of 2m positions cannot be full of keys from m slots of the old one (pigeonhole)"""
        if t is not c.v.t2: return
        import z3
        from terms import P, fresh_name
        z = z3.Const(fresh_name('slots'), z3.ArraySort(z3.IntSort(), z3.IntSort()))
        class Z:
            def z3arr(self): return z
        y = z3.Int('y!s')
        with c.at(st, None):
            st.assume(z3.ForAll([y], z[y] == c.v.o(s[P.of(y)]).z3(), patterns=[z[y]]))
            c.pigeonhole(Z(), t.m, c.v.m)

class Insert(CoreContract, Spec):
    """insertion into a set with room, or full: the set afterwards is the set before and the key; it fails only
    when memory runs out, leaving the set as it was.  hash_set_expand is part of this contract."""
    tu, fn, ret, structs, oom, samples, fresh = SRC, 'hash_set_insert', 'int', ('hash_set',), True, 400, True
    def setup(self, c):
        v = c.v
        self.table(c, True)
        c.assume(v.m <= 2 ** 28)
        v.k = c.int('k', 0, None, gen=lambda r: r.choice([gen_key(r), max(0, v.s[r.randrange(int(v.m))])]))
        v.t1, v.t2 = NS(), self.probes(c, 2 * v.m, '2')
        v.t1.m, v.t1.P, v.t1.D = v.m, v.P, v.D
        c.assume(self.valid(c, v.s, v.t1))
        if not c.native:
            v.o = c.ghost('slot', ret='int')
            v.pos = c.arr('pos', 'int', v.m + 1)
            c.assume(c.forall(0, v.m, lambda i: v.pos[i] == i, pat=lambda i: v.pos[i]))
            # the slot of every key in the table, which is one since keys are distinct; m for a new key
            c.define(c.forall(0, v.m, lambda i: c.Implies(v.s[i] != -1, v.o(v.s[i]) == i), pat=lambda i: v.s[i]))
            o = v.o(v.k)
            c.define(c.Or(o == v.m, c.And(o >= 0, o < v.m, v.s[o] == v.k)))
        v.T = c.struct('t', 'hash_set', heap=True, m=v.m, s=v.s)
        return [v.k, v.T]
    def from_old(self, c, s, n, hi, withkey):
        """every key of a table comes from the first hi slots of the old one (or is k)"""
        v, b = c.v, c.old(c.v.s)
        def f(y):
            o = v.o(s[y])
            e = c.And(o >= 0, o < hi, b[o] == s[y])
            return c.And(s[y] >= -1, c.Implies(s[y] != -1, c.Or(e, s[y] == v.k) if withkey else e))
        return c.forall(0, n, f, pat=lambda y: s[y])
    def inv(self, c, L):
        v, b = c.v, c.old(c.v.s)
        for A in L.int_arrays():
            if not L.writes(A) or A.p.rid == v.pos.p.rid: continue
            if not L.writes(v.pos):
                yield 'cleared', c.forall(0, L.N, lambda y: A[y] == -1, pat=lambda y: A[y])
            else:
                yield 'copied', c.forall(0, L.N, lambda i: c.And(v.pos[i] >= 0, v.pos[i] < 2 * v.m, A[v.pos[i]] == b[i]), pat=lambda i: v.pos[i])
                yield 'nothing else', self.from_old(c, A, 2 * v.m, L.N, False)
                yield 'invariant', self.valid(c, A, v.t2)
    def post(self, c, r):
        v, T = c.v, c.v.T
        m, b = T.get('m'), c.old(c.v.s)
        if c.native:
            s = T.arr('s', 'int', m)
            was, now = {b[i] for i in range(int(v.m))} - {-1}, {x for x in s.list() if x != -1}
            if r == -1 and v.k not in now:
                c.check(c.nfail > 0, 'an insertion fails only when memory runs out')
                c.check(m == v.m and now == was, 'a failed insertion leaves the set as it was')
            else:
                c.check(r == v.k, 'the key is reported')
                c.check(now == was | {v.k}, 'the set afterwards is the set before and the key')
                c.check(m == v.m or (m == 2 * v.m and len(was) == v.m and v.k not in was), 'the table grows only when it is full')
            t = self.probes(c, int(m), '')
            c.check(self.valid(c, s, t), 'invariant')
            c.no_leak(v.T, s)
            return
        if (m - v.m).const == 0: t = v.t1
        else: t = v.t2; c.check(m == 2 * v.m, 'the table doubles')
        s = T.arr('s', 'int', t.m)
        o = v.o(v.k)
        with_k = c.And(v.pos[o] >= 0, v.pos[o] < t.m, s[v.pos[o]] == v.k)
        c.check(c.Or(r == v.k, r == -1) if self.oom else r == v.k, 'the key is reported')
        c.check(c.Implies(r == v.k, with_k), 'the key is in the set')
        c.check(self.from_old(c, s, t.m, v.m, True), 'nothing else is in the set')
        c.check_all(0, v.m, lambda i: c.Implies(b[i] != -1, c.And(v.pos[i] >= 0, v.pos[i] < t.m, s[v.pos[i]] == b[i])), 'earlier keys are in the set')
        c.check(c.Implies(r == -1, m == v.m), 'a failed insertion leaves the table')
        if t is v.t1: c.check_all(0, v.m, lambda i: c.Implies(r == -1, s[i] == b[i]), 'a failed insertion leaves the set as it was')
        c.check(self.valid(c, s, t), 'distinct keys, no gap before a key')
        c.no_leak(v.T, s)

class Index(Spec):
    """the trusted part of the position computation, on samples"""
    tu, fn, ret, samples = TU, 'h_index', 'int', 4000
    bounded_only = 'floating point fmod and floor; sampled keys and sizes'
    def setup(self, c):
        v = c.v
        v.k = c.int('k', 0, None, gen=gen_key); v.e = c.int('e', 0, 30, gen=lambda r: r.randint(0, 30))
        return [v.k, 2 ** int(v.e)]
    def post(self, c, r):
        c.check(0 <= r < 2 ** int(c.v.e), 'a position of the table')

class Size(Spec):
    """the table size, on samples (bit operations)"""
    tu, fn, ret, samples = TU, 'h_size', 'int', 4000
    bounded_only = 'bit operations on machine words; sampled sizes'
    def setup(self, c):
        v = c.v
        v.m = c.int('m', 0, 2 ** 30, gen=lambda r: r.choice([r.randint(0, 70), 2 ** r.randint(0, 29) + r.randint(0, 2), max(0, 2 ** r.randint(0, 30) - r.randint(0, 2)), r.randint(0, 2 ** 30)]))
        return [v.m]
    def post(self, c, r):
        m = int(c.v.m)
        c.check(r == (1 if m == 0 else 1 << (m - 1).bit_length()), 'smallest power of two that holds the elements')

class Allocate(Spec):
    """a new set is empty and has room (hash_set_size by its contract: Size, bounded)"""
    tu, fn, ret, structs, oom, samples = SRC, 'hash_set_allocate', 'ptr', ('hash_set',), True, 300
    def handlers(self):
        import models, z3
        from terms import P, And
        f = z3.Function('size', z3.IntSort(), z3.IntSort())
        def h(ex, st, a, inst):
            r = P.of(f(a[0].z3()))
            st.assume(And(r >= 1, r >= a[0], r <= 2 ** 30))
            return models.ret(st, r)
        return {'hash_set_size': h}
    def setup(self, c):
        v = c.v
        v.n = c.int('n', 0, 2 ** 30, gen=lambda r: r.choice([0, 1, 2, r.randint(0, 70), 2 ** r.randint(0, 8)]))
        c.assume(v.n <= 2 ** 30)
        return [v.n]
    def inv(self, c, L):
        for a in L.int_arrays(): yield 'cleared', c.forall(0, L.N, lambda y: a[y] == -1, pat=lambda y: a[y])
    def post(self, c, r):
        v = c.v
        def made():
            T = c.at_struct(r, 'hash_set')
            m = T.get('m')
            c.check(c.And(m >= 1, m >= v.n), 'room for the elements')
            if c.native: c.check(m & (m - 1) == 0, 'power of two')
            s = T.arr('s', 'int', m)
            c.check_all(0, m, lambda y: s[y] == -1, 'empty')
            c.no_leak(r, s)
        if c.native:
            if r in (0, None): c.check(c.nfail > 0, 'creation fails only when memory runs out'); c.no_leak()
            else: made()
            return
        if not self.oom: c.check(c.Not(c.isnull(r)), 'created')
        c.when(c.Not(c.isnull(r)), made)
        c.when(c.isnull(r), lambda: c.no_leak())

class Count(Spec):
    tu, fn, ret, structs = SRC, 'hash_set_count_elms', 'long', ('hash_set',)
    def setup(self, c):
        v = c.v
        v.m = c.size('m', 0)
        v.s = c.arr('s', 'int', v.m, gen=lambda r, n: [r.choice([-1, -1, r.randint(0, 9)]) for _ in range(n)])
        v.C = c.psum('occupied', v.m, lambda k: c.Ite(v.s[k] != -1, c.I(1), c.I(0)))
        return [c.struct('t', 'hash_set', m=v.m, s=v.s)]
    def inv(self, c, L):
        v = c.v
        v.C.unfold(L.N)
        for n, x in L.named_ints: yield 'count ' + n, x == v.C(L.N)
    def post(self, c, r):
        c.check(r == c.v.C(c.v.m), 'number of occupied slots')
        c.unchanged(c.v.s)

class Deallocate(Spec):
    tu, fn, structs, kind = SRC, 'hash_set_deallocate', ('hash_set',), 'full'
    def setup(self, c):
        v = c.v
        if self.kind == 'null': return [c.null()]
        v.m = c.size('m', 1)
        v.s = c.null() if self.kind == 'partial' else c.arr('s', 'int', v.m, heap=True)
        return [c.struct('t', 'hash_set', heap=True, m=v.m, s=v.s)]
    def inv(self, c, L): yield from ()
    def post(self, c, r): c.no_leak()

class History(Spec):
    """sequences of insertions against a mathematical set, allocation failing anywhere"""
    tu, fn, ret, oom, samples = TU, 'h_history', 'int', True, 3000
    bounded_only = 'the composition of the functions under contract, over histories of up to 40 keys'
    def setup(self, c):
        v = c.v
        v.m0 = c.int('m0', 0, 70, gen=lambda r: r.choice([0, 1, 1, 2, 3, 5, 8, 17, 64]))
        v.n = c.int('n', 0, 41, gen=lambda r: r.randint(0, 40))
        pool = []
        def keys(r, n):
            out = []
            for _ in range(n): out.append(r.choice(out) if out and r.random() < 0.3 else gen_key(r))
            return out
        v.keys = c.arr('keys', 'int', v.n, gen=keys)
        v.ret, v.cnt, v.size = [c.arr(x, 'int', v.n) for x in ('ret', 'cnt', 'size')]
        v.tab = c.arr('tab', 'int', 256)
        return [v.m0, v.n, v.keys, v.ret, v.cnt, v.size, v.tab, 256]
    def post(self, c, r):
        v = c.v
        if r < 0:
            c.check(c.nfail > 0, 'creation fails only when memory runs out'); c.no_leak(); return
        S, m = set(), None
        failed = 0
        for i in range(int(v.n)):
            k = v.keys[i]
            if v.ret[i] == -1 and k not in S:
                failed += 1
            else:
                c.check(v.ret[i] == k, 'insertion reports the key')
                S.add(k)
            c.check(v.cnt[i] == len(S), 'count after every insertion')
            c.check(v.size[i] >= max(1, v.m0) and v.size[i] & (v.size[i] - 1) == 0, 'table size is a power of two large enough')
        c.check(failed == 0 or c.nfail > 0, 'an insertion fails only when memory runs out')
        c.check(sorted(x for x in v.tab.list()[:int(r)] if x != -1) == sorted(S), 'the table holds exactly the inserted keys, each once')
        c.no_leak()
        c.unchanged(v.keys)

def build():
    out = [InsertCore(), Insert(), Insert(), Allocate(), Allocate(), Size(), Index(), Count(), History()]
    out[2].oom, out[2].name = False, 'Insert/memory'
    out[4].oom, out[4].name = False, 'Allocate/memory'
    for k in ('full', 'partial', 'null'):
        s = Deallocate(); s.kind = k; s.name = 'Deallocate/' + k; out.append(s)
    return out
SPECS = build()
