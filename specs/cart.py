"""closed forms of Cartesian grids"""
class Odo:
    """mixed-radix counter: digit(d, n) is the d-th digit of n, the last one unbounded"""
    def __init__(self, c, name, radices):
        self.c, self.rad = c, [c.I(r) if not isinstance(r, int) else r for r in radices]
        nd = len(radices) + 1
        self.g = [c.fun('%s%d' % (name, d), 1, self._native(d) if c.native else self._step(d), ret='int') for d in range(nd)]
    def _native(self, d):
        def f(n):
            for r in self.rad[:d]: n //= int(r)
            return n % int(self.rad[d]) if d < len(self.rad) else n
        return f
    def _step(self, d):
        c = self.c
        def f(n):
            p = n - 1
            wrap = c.And(*[self.g[e](p) + 1 == self.rad[e] for e in range(d)]) if d else True
            nxt = self.g[d](p) + 1
            if d < len(self.rad): nxt = c.Ite(nxt == self.rad[d], 0, nxt)
            return c.Ite(n <= 0, 0, c.Ite(wrap, nxt, self.g[d](p)))
        return f
    def __call__(self, n): return [g(n) for g in self.g]
    def unfold(self, *ns):
        for n in ns:
            for g in self.g: g.unfold(n)
    def carry(self, ds):
        """digits with carries propagated once"""
        c, ds = self.c, list(ds)
        for d, r in enumerate(self.rad):
            w = ds[d] == r
            ds[d + 1] = c.Ite(w, ds[d + 1] + 1, ds[d + 1])
            ds[d] = c.Ite(w, 0, ds[d])
        return ds
    def value(self, ds):
        n, s = ds[0], 1
        for d, r in enumerate(self.rad):
            s = s * r
            n = n + s * ds[d + 1]
        return n

class Table:
    """entries[m] for m < count: list of (label, lambda m: condition); arrays: (array, first element, elements per entry, position step)"""
    def __init__(self, name, odo, count, rows, arrays): 
        # (mark: arbitrary predicate, only steers quantifier instantiation)
        self.name, self.odo, self.count, self.arrays = name, odo, count, arrays
        self.mark = k = odo.c.mark(name)
        self.rows = [(l, lambda m, f=f: odo.c.Implies(k(m), f(m))) for l, f in rows]

def nest_inv(c, L, tables):
    """invariants of a loop nest filling the tables one after the other"""
    from dsl import ELSZ
    ks = list(L.outer) + [L.N]
    tabs = [T for T in tables if any(L.writes(a) for a, _, _, _ in T.arrays)]
    act = None
    for i, T in enumerate(tabs):
        nd = len(T.odo.g)
        if len(ks) > nd: continue
        n0 = T.odo.value([c.I(0)] * (nd - len(ks) + 1) + ks[:-1][::-1])
        want = [ELSZ[a.kind] * (b + s * n0) for a, b, s, _ in T.arrays]
        if any(w.same(x) for w in want for x in L.cursors): act = i; break
    for i, T in enumerate(tabs):
        nd = len(T.odo.g)
        if len(ks) <= nd and act in (None, i):
            ds = [c.I(0)] * (nd - len(ks)) + ks[::-1]
            n = T.odo.value(ds)
            T.odo.unfold(c.I(0), n, n + 1)
            cd = T.odo.carry(ds)
            for d in range(nd): yield '%s digit %d depth %d' % (T.name, d, len(ks)), T.odo.g[d](n) == cd[d]
            for l, f in T.rows: yield '%s %s depth %d' % (T.name, l, len(ks)), c.forall(0, n, f, pat=lambda m: [T.mark(m)])
            for a, b, _, w in T.arrays:
                if w: yield '%s position depth %d' % (T.name, len(ks)), c.forall(0, b + n + 1, lambda q: a[q] == w * q, pat=lambda q: [a[q]])
        if act is None or i < act:
            for a, b, _, w in T.arrays:
                if w: yield '%s position all' % T.name, c.forall(0, b + T.count + 1, lambda q: a[q] == w * q, pat=lambda q: [a[q]])
            for l, f in T.rows: yield '%s %s all' % (T.name, l), c.forall(0, T.count, f, pat=lambda m: [T.mark(m)])

def ptr_inv(c, L, sizes):
    """pointers that move by a fixed number of bytes per pass"""
    for q, v, e in L.moving:
        for t, s in sizes: yield '%s moves %s' % (q, t), v == e + L.N * s
