"""C01: growable tables of source terms and boundary conditions"""
from dsl import Spec

class Table:
    """description of one table type"""
    def __init__(self, tu, struct, n, cpty, np, cols):
        self.tu, self.struct, self.n, self.cpty, self.np, self.cols = tu, struct, n, cpty, np, cols
TS = Table('opm/core/transport/implicit/transport_source.c', 'TransportSource', 'nsrc', 'cpty', 'nphase',
           [('cell', 'int', 1), ('pressure', 'double', 1), ('flux', 'double', 1), ('saturation', 'double', 0), ('surfvolume', 'double', 0)])
CS = Table('opm/core/pressure/tpfa/compr_source.c', 'compr_src', 'nsrc', 'cpty', 'nphases',
           [('cell', 'int', 1), ('flux', 'double', 1), ('saturation', 'double', 0)])
CB = Table('opm/core/pressure/tpfa/compr_bc.c', 'compr_bc', 'nbc', 'cpty', 'nphases',
           [('type', 'int', 1), ('face', 'int', 1), ('press', 'double', 1), ('flux', 'double', 1), ('saturation', 'double', 0)])

def width(t, v, w): return 1 if w else v.np

def make_table(c, t, empty, maxnp=None):
    v = c.v
    v.np = c.int('np', 1, maxnp, gen=lambda r: r.randint(1, 3))
    if empty:
        v.n = v.cpty = c.I(0)
        v.a = {f: c.null() for f, k, w in t.cols}
    else:
        v.cpty = c.size('cpty', 1)
        v.n = c.int('n', 0, None, size=True, gen=lambda r: r.randint(0, int(v.cpty)) if r.random() < .6 else int(v.cpty))
        c.assume(v.n <= v.cpty)
        v.a = {f: c.arr(f, k, v.cpty * width(t, v, w), heap=True) for f, k, w in t.cols}
    v.S = c.struct('tab', t.struct, heap=True, **dict({t.n: v.n, t.cpty: v.cpty, t.np: v.np}, **v.a))
    return v.S

def valid(c, t, S, np):
    """capacity invariant"""
    n, cp = S.get(t.n), S.get(t.cpty)
    c.check(c.And(n >= 0, n <= cp, S.get(t.np) == np), 'count within capacity')
    for f, k, w in t.cols:
        p = S.get(f)
        c.check(c.Or(cp == 0, c.Not(c.isnull(p))), f + ' allocated')
        def cap(): 
            c.check(c.alive(p), f + ' not dangling')
            c.check(c.capacity(p, k) >= cp * (1 if w else np), 'capacity of ' + f)
        c.when(c.Not(c.isnull(p)), cap)

class Create(Spec):
    ret, oom = 'ptr', True
    def __init__(self, t, fn, order):
        self.t, self.fn, self.tu, self.structs, self.order = t, fn, t.tu, (t.struct,), order
        self.name = fn
    def setup(self, c):
        c.v.np = c.int('np', None, None, gen=lambda r: r.randint(-1, 3)); c.v.cnt = c.int('cnt', None, None, gen=lambda r: r.randint(-1, 4))
        return [c.v.cnt, c.v.np] if self.order == 'n' else [c.v.np, c.v.cnt]
    def post(self, c, r):
        t, v = self.t, c.v
        def ok():
            S = c.at_struct(r, t.struct)
            c.check(v.np > 0, 'only created for a positive number of phases')
            c.check(S.get(t.n) == 0, 'created empty')
            valid(c, t, S, v.np)
            c.check(S.get(t.cpty) >= v.cnt, 'room for the requested number of entries')
            c.no_leak(S, *[S.get(f) for f, k, w in t.cols])
        c.when(c.Not(c.isnull(r)), ok)
        c.when(c.isnull(r), lambda: c.no_leak())
        if c.native and c.nfail == 0 and v.np > 0: c.check(not c.isnull(r), 'creation succeeds when memory is available')

class Destroy(Spec):
    def __init__(self, t, fn, empty):
        self.t, self.fn, self.tu, self.structs, self.empty = t, fn, t.tu, (t.struct,), empty
        self.name = fn + ('/empty' if empty else '')
    def setup(self, c): return [make_table(c, self.t, self.empty)]
    def post(self, c, r): c.no_leak(label='everything released')

class Clear(Spec):
    def __init__(self, t, fn):
        self.t, self.fn, self.tu, self.structs = t, fn, t.tu, (t.struct,)
        self.name = fn
    def setup(self, c): return [make_table(c, self.t, False)]
    def post(self, c, r):
        t, v = self.t, c.v
        c.check(v.S.get(t.n) == 0, 'empty after clearing')
        c.check(v.S.get(t.cpty) == v.cpty, 'capacity kept')
        valid(c, t, v.S, v.np)
        c.no_leak(v.S, *[v.S.get(f) for f, k, w in t.cols])

class Append(Spec):
    ret, oom = 'int', True
    samples = 120
    def __init__(self, t, fn, args, empty):
        self.t, self.fn, self.tu, self.structs, self.args, self.empty = t, fn, t.tu, (t.struct,), args, empty
        self.name = fn + ('/empty' if empty else '')
    def setup(self, c):
        t, v = self.t, c.v
        make_table(c, t, self.empty)
        v.anp = c.int('anp', 1, None, gen=lambda r: int(v.np) if r.random() < .85 else r.randint(1, 3))
        v.val = {}
        out = []
        for a in self.args:
            if a == 'np': out.append(v.anp); continue
            f, k, w = [x for x in t.cols if x[0] == a][0]
            if w: v.val[f] = (c.int('v_' + f, 0, 1, gen=lambda r: r.randint(0, 1)) if f == 'type' else c.int('v_' + f, 0, gen=lambda r: r.randint(0, 9))) if k == 'int' else c.real('v_' + f)
            else: v.val[f] = c.arr('v_' + f, k, v.anp)
            out.append(v.val[f])
        return out + [v.S]
    def post(self, c, r):
        t, v = self.t, c.v
        S = v.S
        n0, cp0 = v.n, v.cpty
        match = v.anp == v.np
        c.check(c.Iff(r == 1, S.get(t.n) == n0 + 1), 'success adds exactly one entry')
        c.check(c.Or(r == 1, S.get(t.n) == n0), 'failure adds no entry')
        c.check(c.Implies(c.Not(match), r == -1), 'phase-count mismatch is rejected')
        c.check(c.Implies(match, c.Or(r == 0, r == 1)), 'status is success or failure')
        valid(c, t, S, v.np)
        for f, k, w in t.cols:
            W = 1 if w else v.np
            if not self.empty:
                a = S.arr(f, k, S.get(t.cpty) * W)
                o = c.old(v.a[f])
                c.check_all(0, n0 * W, lambda i: a[i] == o[i], 'earlier entries of %s kept' % f)
        def ok():
            c.check(match, 'success only for the right phase count')
            for f, k, w in t.cols:
                W = 1 if w else v.np
                a = S.arr(f, k, S.get(t.cpty) * W)
                if w: c.check(a[n0] == v.val[f], 'new entry stored in ' + f)
                else: c.check_all(0, v.np, lambda i: a[n0 * v.np + i] == v.val[f][i], 'new entry stored in ' + f)
        c.when(r == 1, ok)
        for f, k, w in t.cols:
            if not w: c.unchanged(v.val[f])
        c.no_leak(S, *[S.get(f) for f, k, w in t.cols])
        if c.native and c.nfail == 0 and v.anp == v.np: c.check(r == 1, 'append succeeds when memory is available')

# ---- flow boundary conditions: conditions with several faces each
FBC = 'opm/core/pressure/flow_bc.c'
FS = 'FlowBoundaryConditions'
def make_fbc(c):
    v = c.v
    v.nc = c.size('ccpty', 0); v.nbc = c.int('nbc', 0, None, size=True, gen=lambda r: r.randint(0, int(v.nc)))
    c.assume(v.nbc <= v.nc)
    v.type = c.arr('type', 'int', v.nc, heap=True, lo=0, hi=3)
    v.value = c.arr('value', 'double', v.nc, heap=True)
    def genpos(r, n):
        out = [0]
        while len(out) < n: out.append(out[-1] + r.randint(0, 2))
        return out
    v.pos = c.arr('cond_pos', 'size_t', v.nc + 1, heap=True, gen=genpos)
    c.assume(v.pos[0] == 0)
    c.assume(c.forall2(0, v.nbc + 1, lambda i, j: v.pos[i] <= v.pos[j], pat=lambda i, j: (v.pos[i], v.pos[j])))
    nf0 = v.pos[v.nbc]
    c.assume(nf0 >= 0)
    v.fc = c.int('fcpty', 0, None, size=True, gen=lambda r: int(nf0) + r.randint(0, 2))
    c.assume(nf0 <= v.fc)
    v.face = c.arr('face', 'int', v.fc, heap=True)
    v.S = c.struct('fbc', FS, heap=True, nbc=v.nbc, cond_cpty=v.nc, face_cpty=v.fc, cond_pos=v.pos, type=v.type, value=v.value, face=v.face)
    return v.S
def fbc_valid(c, S):
    nb, cc, fc = S.get('nbc'), S.get('cond_cpty'), S.get('face_cpty')
    c.check(c.And(nb >= 0, nb <= cc), 'conditions within capacity')
    for f, k, n in (('type', 'int', cc), ('value', 'double', cc), ('cond_pos', 'size_t', cc + 1), ('face', 'int', fc)):
        p = S.get(f)
        c.check(c.Or(n == 0, c.Not(c.isnull(p))), f + ' allocated')
        def cap(p=p, f=f, k=k, n=n):
            c.check(c.alive(p), f + ' not dangling'); c.check(c.capacity(p, k) >= n, 'capacity of ' + f)
        c.when(c.Not(c.isnull(p)), cap)
    pos = S.arr('cond_pos', 'size_t', cc + 1)
    c.check(pos[0] == 0, 'first condition starts at the first face')
    c.check(pos[nb] <= fc, 'faces within capacity')
FP = ('cond_pos', 'type', 'value', 'face')

class FbcConstruct(Spec):
    tu, fn, ret, oom, structs = FBC, 'flow_conditions_construct', 'ptr', True, (FS,)
    def setup(self, c):
        c.v.n = c.size('nbc', 0); return [('size_t', c.v.n)]
    def post(self, c, r):
        def ok():
            S = c.at_struct(r, FS)
            c.check(S.get('nbc') == 0, 'created empty')
            c.check(c.And(S.get('cond_cpty') >= c.v.n, S.get('face_cpty') >= c.v.n), 'room as requested')
            fbc_valid(c, S)
            c.no_leak(S, *[S.get(f) for f in FP])
        c.when(c.Not(c.isnull(r)), ok)
        c.when(c.isnull(r), lambda: c.no_leak())
        if c.native and c.nfail == 0: c.check(not c.isnull(r), 'construction succeeds when memory is available')

class FbcAppend(Spec):
    tu, fn, ret, oom, structs = FBC, 'flow_conditions_append_multi', 'int', True, (FS,)
    samples = 120
    multi = True
    def setup(self, c):
        v = c.v
        make_fbc(c)
        v.t = c.int('t', 0, 2); v.x = c.real('x')
        if self.multi:
            v.nf = c.int('nf', 0, None, size=True)
            v.new = c.arr('faces', 'int', v.nf)
            return [v.t, ('size_t', v.nf), v.new, v.x, v.S]
        v.nf = 1; v.f = c.int('f', 0, 50); v.new = {0: v.f}
        return [v.t, v.f, v.x, v.S]
    def post(self, c, r):
        v, S = c.v, c.v.S
        c.check(c.Or(r == 0, r == 1), 'status is success or failure')
        c.check(S.get('nbc') == v.nbc + c.Ite(r == 1, 1, 0), 'count grows exactly on success')
        fbc_valid(c, S)
        cc, fc = S.get('cond_cpty'), S.get('face_cpty')
        T, X, Q, F = S.arr('type', 'int', cc), S.arr('value', 'double', cc), S.arr('cond_pos', 'size_t', cc + 1), S.arr('face', 'int', fc)
        c.check_all(0, v.nbc, lambda i: c.And(T[i] == c.old(v.type)[i], X[i] == c.old(v.value)[i]), 'earlier conditions kept')
        c.check_all(0, v.nbc + 1, lambda i: Q[i] == c.old(v.pos)[i], 'earlier face ranges kept')
        nf0 = c.old(v.pos)[v.nbc]
        c.check_all(0, nf0, lambda i: F[i] == c.old(v.face)[i], 'earlier faces kept')
        def ok():
            c.check(c.And(T[v.nbc] == v.t, X[v.nbc] == v.x), 'new condition stored')
            c.check(Q[v.nbc + 1] == nf0 + v.nf, 'new face range has the right length')
            if self.multi: c.check_all(0, v.nf, lambda i: F[nf0 + i] == v.new[i], 'new faces stored')
            else: c.check(F[nf0] == v.f, 'new face stored')
        c.when(r == 1, ok)
        c.no_leak(S, *[S.get(f) for f in FP])
        if c.native and c.nfail == 0: c.check(r == 1, 'append succeeds when memory is available')
class FbcAppend1(FbcAppend):
    fn, multi = 'flow_conditions_append', False

class FbcClear(Spec):
    tu, fn, structs = FBC, 'flow_conditions_clear', (FS,)
    def setup(self, c): return [make_fbc(c)]
    def post(self, c, r):
        v = c.v
        c.check(v.S.get('nbc') == 0, 'empty after clearing')
        fbc_valid(c, v.S)
        c.check(c.And(v.S.get('cond_cpty') == v.nc, v.S.get('face_cpty') == v.fc), 'capacity kept')
class FbcDestroy(Spec):
    tu, fn, structs = FBC, 'flow_conditions_destroy', (FS,)
    def setup(self, c): return [make_fbc(c)]
    def post(self, c, r): c.no_leak(label='everything released')

SPECS = []
for e in (False, True):
    SPECS += [Append(TS, 'append_transport_source', ['cell', 'np', 'pressure', 'flux', 'saturation', 'surfvolume'], e), Destroy(TS, 'destroy_transport_source', e),
              Append(CS, 'append_compr_source_term', ['cell', 'np', 'flux', 'saturation'], e), Destroy(CS, 'compr_src_deallocate', e),
              Append(CB, 'compr_bc_append', ['type', 'face', 'np', 'press', 'flux', 'saturation'], e), Destroy(CB, 'compr_bc_deallocate', e)]
SPECS += [Create(TS, 'create_transport_source', 'n'), Clear(TS, 'clear_transport_source'), Create(CS, 'compr_src_allocate', 'np'), Clear(CS, 'clear_compr_source_term'),
          Create(CB, 'compr_bc_allocate', 'np'), Clear(CB, 'compr_bc_clear')]
SPECS += [FbcConstruct(), FbcAppend(), FbcAppend1(), FbcClear(), FbcDestroy()]
