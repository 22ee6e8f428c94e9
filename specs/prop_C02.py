"""C02: well containers keep names, perforations and controls consistent"""
from dsl import Spec
TU = 'opm/core/wells/wells.c'
ST = ('Wells', 'WellControls', 'WellControlMgmt', 'WellMgmt')
COLS = (('type', 'int', 1), ('target', 'double', 1), ('distr', 'double', 0))

def controls(c, np, empty, tag=''):
    """a valid control set: num <= capacity <= storage of every array"""
    from dsl import NS
    o = NS(); o.np = np
    if empty:
        o.cpty = o.num = c.I(0); o.a = {f: c.null() for f, k, w in COLS}
        o.cur = c.int(tag + 'cur', -1, -1)
    else:
        o.cpty = c.size(tag + 'cpty', 0)
        o.num = c.int(tag + 'num', 0, None, size=True, gen=lambda r: r.randint(0, int(o.cpty)) if r.random() < .5 else int(o.cpty))
        c.assume(o.num <= o.cpty)
        o.cur = c.int(tag + 'cur', -1, None, gen=lambda r: r.randint(-1, int(o.num) - 1))
        c.assume(o.cur < o.num)
        o.a = {}
        for f, k, w in COLS:
            n = c.int(tag + 'room_' + f, 1, None, size=True, gen=lambda r: max(1, int(o.cpty) * (1 if w else int(np)) + r.randint(0, 2)))
            c.assume(n >= o.cpty * (1 if w else np))
            o.a[f] = c.arr(tag + f, k, n, heap=True, **(dict(lo=0, hi=3) if k == 'int' else {}))
    o.m = c.struct(tag + 'mgmt', 'WellControlMgmt', heap=True, cpty=o.cpty)
    o.S = c.struct(tag + 'ctrl', 'WellControls', heap=True, num=o.num, current=o.cur, data=o.m, **o.a)
    return o

def ctrl_valid(c, S, m, np):
    n, cp = S.get('num'), m.get('cpty')
    c.check(c.And(n >= 0, n <= cp), 'controls within capacity')
    for f, k, w in COLS:
        p = S.get(f)
        c.check(c.Or(cp == 0, c.Not(c.isnull(p))), f + ' allocated')
        def cap():
            c.check(c.alive(p), f + ' not dangling')
            c.check(c.capacity(p, k) >= cp * (1 if w else np), 'capacity of ' + f)
        c.when(c.Not(c.isnull(p)), cap)

def kept(c, o, cp, upto=None):
    """the first `upto` controls of the set (default: all of them) are unchanged"""
    n = o.num if upto is None else upto
    for f, k, w in COLS:
        W = 1 if w else o.np
        if isinstance(o.a[f], int) or not hasattr(o.a[f], 'n'): continue
        a, b = o.S.arr(f, k, cp * W), c.old(o.a[f])
        c.check_all(0, n * W, lambda i: a[i] == b[i], 'earlier controls kept (%s)' % f)

class CtrlCreate(Spec):
    tu, fn, ret, oom, structs, static = TU, 'well_controls_create', 'ptr', True, ST, True
    def setup(self, c): return []
    def post(self, c, r):
        def ok():
            S = c.at_struct(r, 'WellControls')
            m = c.at_struct(S.get('data'), 'WellControlMgmt')
            c.check(c.And(S.get('num') == 0, S.get('current') == -1), 'a new control set is empty and has no active control')
            c.check(m.get('cpty') == 0, 'a new control set has no storage')
            for f, k, w in COLS: c.check(c.isnull(S.get(f)), f + ' absent')
            c.no_leak(S, m)
        c.when(c.Not(c.isnull(r)), ok)
        c.when(c.isnull(r), lambda: c.no_leak())
        if c.native and c.nfail == 0: c.check(not c.isnull(r), 'creation succeeds when memory is available')

class CtrlReserve(Spec):
    tu, fn, ret, oom, structs, static = TU, 'well_controls_reserve', 'int', True, ST, True
    samples = 100
    def __init__(self, empty):
        self.empty = empty; self.name = 'well_controls_reserve' + ('/empty' if empty else '')
    def setup(self, c):
        v = c.v
        v.np = c.int('np', 1, None, gen=lambda r: r.randint(1, 3))
        v.o = controls(c, v.np, self.empty)
        v.n = c.int('nctrl', 1, None, size=True, gen=lambda r: max(1, int(v.o.cpty) + r.randint(0, 3)))
        c.assume(v.n >= v.o.cpty)
        return [v.n, v.np, v.o.S]
    def post(self, c, r):
        v, o = c.v, c.v.o
        cp = o.m.get('cpty')
        c.check(c.Or(r == 0, r == 1), 'status is success or failure')
        c.check(cp == c.Ite(r == 1, v.n, o.cpty), 'capacity grows exactly on success')
        c.check(c.And(o.S.get('num') == o.num, o.S.get('current') == o.cur), 'number and active control kept')
        c.check(c.same(o.S.get('data'), o.m.p), 'management data kept')
        ctrl_valid(c, o.S, o.m, v.np)
        kept(c, o, cp, o.cpty)
        def ok():
            D = o.S.arr('distr', 'double', cp * v.np)
            c.check_all(o.cpty * v.np, cp * v.np, lambda i: D[i] == 0, 'new slots have no distribution')
        c.when(r == 1, ok)
        c.no_leak(o.S, o.m, *[o.S.get(f) for f, k, w in COLS])
        if c.native and c.nfail == 0: c.check(r == 1, 'succeeds when memory is available')
    def inv(self, c, L):
        o = c.v.o
        lo = o.cpty * c.v.np
        if L.fn.name == 'append_well_controls': lo = o.num * c.v.np
        for a in L.real_arrays():
            if L.writes(a):
                if not self.empty: yield 'earlier', c.forall(0, o.num * c.v.np, lambda i: a[i] == c.old(o.a['distr'])[i], pat=lambda i: a[i])
                yield 'zeroed', c.forall(lo, lo + L.N, lambda i: a[i] == 0, pat=lambda i: a[i])

class CtrlDestroy(Spec):
    tu, fn, structs, static = TU, 'well_controls_destroy', ST, True
    def __init__(self, kind):
        self.kind = kind; self.name = 'well_controls_destroy/' + kind
    def setup(self, c):
        if self.kind == 'null': return [c.null()]
        c.v.np = c.int('np', 1, None, gen=lambda r: r.randint(1, 3))
        c.v.o = controls(c, c.v.np, self.kind == 'empty')
        return [c.v.o.S]
    def post(self, c, r): c.no_leak(label='everything released')

class WithWell(Spec):
    """operations on the controls of one well: only that well's control set is in the footprint"""
    tu, structs = TU, ST
    samples = 100
    empty = False
    def well(self, c):
        v = c.v
        v.np = c.int('np', 1, None, gen=lambda r: r.randint(1, 3))
        v.nw = c.size('nw', 1)
        v.w = c.int('w', 0, None, gen=lambda r: r.randint(0, int(v.nw) - 1)); c.assume(v.w < v.nw)
        v.o = controls(c, v.np, self.empty)
        v.tab = c.slot('ctrls', v.w, v.nw, v.o.S)
        v.W = c.struct('W', 'Wells', number_of_wells=v.nw, number_of_phases=v.np, ctrls=v.tab)
    def frame(self, c):
        v, o = c.v, c.v.o
        c.check(c.And(v.W.get('number_of_wells') == v.nw, v.W.get('number_of_phases') == v.np), 'container sizes kept')
        c.check(c.same(v.tab.get(), o.S.p), 'the well keeps its control set')
        c.check(c.same(o.S.get('data'), o.m.p), 'management data kept')
        ctrl_valid(c, o.S, o.m, v.np)
        c.no_leak(o.S, o.m, *[o.S.get(f) for f, k, w in COLS])

class AppendControl(WithWell):
    fn, ret, oom = 'append_well_controls', 'int', True
    def __init__(self, empty, distr):
        self.empty, self.distr = empty, distr
        self.name = 'append_well_controls' + ('/empty' if empty else '') + ('' if distr else '/nodistr')
    def setup(self, c):
        v = c.v
        self.well(c)
        v.type, v.target = c.int('newtype', 0, 2), c.real('newtarget')
        v.dist = c.arr('newdistr', 'double', v.np) if self.distr else c.null()
        return [v.type, v.target, v.dist, v.w, v.W]
    def post(self, c, r):
        v, o = c.v, c.v.o
        cp = o.m.get('cpty')
        c.check(c.Or(r == 0, r == 1), 'status is success or failure')
        c.check(o.S.get('num') == o.num + c.Ite(r == 1, 1, 0), 'one more control exactly on success')
        c.check(o.S.get('current') == o.cur, 'active control kept')
        self.frame(c)
        kept(c, o, cp)
        def ok():
            T, X, D = (o.S.arr(f, k, cp * (1 if w else v.np)) for f, k, w in COLS)
            c.check(c.And(T[o.num] == v.type, X[o.num] == v.target), 'new control stored')
            c.check_all(0, v.np, lambda p: D[o.num * v.np + p] == (v.dist[p] if self.distr else 0), 'new distribution stored')
        c.when(r == 1, ok)
        if c.native and c.nfail == 0: c.check(r == 1, 'succeeds when memory is available')
    inv = CtrlReserve.inv

class SetCurrent(WithWell):
    fn = 'set_current_control'
    def setup(self, c):
        v = c.v
        self.well(c)
        v.new = c.int('newcur', -1, None, gen=lambda r: r.randint(-1, int(v.o.num) - 1)); c.assume(v.new < v.o.num)
        return [v.w, v.new, v.W]
    def post(self, c, r):
        v, o = c.v, c.v.o
        c.check(o.S.get('current') == v.new, 'active control set')
        c.check(c.And(o.S.get('num') == o.num, o.m.get('cpty') == o.cpty), 'control list kept')
        self.frame(c); kept(c, o, o.cpty)

class ClearControls(WithWell):
    fn = 'clear_well_controls'
    def __init__(self, empty):
        self.empty = empty; self.name = 'clear_well_controls' + ('/empty' if empty else '')
    def setup(self, c):
        self.well(c); return [c.v.w, c.v.W]
    def post(self, c, r):
        v, o = c.v, c.v.o
        c.check(o.S.get('num') == 0, 'control list empty')
        c.check(o.S.get('current') == -1, 'no control is active in an empty list')
        c.check(o.m.get('cpty') == o.cpty, 'capacity kept')
        self.frame(c)

# ---- wells
WCOLS = (('type', 'int', 1), ('depth_ref', 'double', 1), ('comp_frac', 'double', 0))
PCOLS = (('well_cells', 'int'), ('WI', 'double'))
class AddWell(Spec):
    """adding a well while there is room in the well arrays (perforation storage may have to grow)"""
    tu, fn, ret, oom, structs = TU, 'add_well', 'int', True, ST
    samples = 120
    def __init__(self, perfs, frac, WI, name):
        self.perfs, self.frac, self.WI, self.named = perfs, frac, WI, name
        self.name = 'add_well/room' + ('' if perfs else '/noperf') + ('' if frac else '/nofrac') + ('' if WI else '/noWI') + ('' if name else '/noname')
    def setup(self, c):
        v = c.v
        v.np = c.int('np', 1, None, gen=lambda r: r.randint(1, 3))
        v.n = c.size('nw', 1 if self.full(c) else 0)
        if self.full(c): v.wc = v.n
        else:
            v.wc = c.int('wcpty', 1, None, size=True, gen=lambda r: int(v.n) + r.randint(1, 3)); c.assume(v.n < v.wc)
        v.pos = c.arr('connpos', 'int', v.wc + 1, heap=True, gen=self.genpos)
        c.assume(v.pos[0] == 0)
        c.assume(c.forall2(0, v.n + 1, lambda i, j: v.pos[i] <= v.pos[j], pat=lambda i, j: (v.pos[i], v.pos[j])))
        v.tot = v.pos[v.n]
        c.assume(v.tot >= 0)
        if self.perfs:
            v.pc = c.int('pcpty', 0, None, size=True, gen=lambda r: int(v.tot) + r.randint(0, 4)); c.assume(v.tot <= v.pc)
            v.pa = {}
            for f, k in PCOLS:
                n = c.int('room_' + f, 1, None, size=True, gen=lambda r: max(1, int(v.pc) + r.randint(0, 2))); c.assume(n >= v.pc)
                v.pa[f] = c.arr(f, k, n, heap=True)
        else:
            v.pc = c.I(0); c.assume(v.tot == 0)
            v.pa = {f: c.null() for f, k in PCOLS}
        v.wa = {f: c.arr(f, k, v.wc * (1 if w else v.np), heap=True) for f, k, w in WCOLS}
        tabs = self.names(c)
        v.m = c.struct('m', 'WellMgmt', heap=True, well_cpty=v.wc, perf_cpty=v.pc)
        v.W = c.struct('W', 'Wells', number_of_wells=v.n, number_of_phases=v.np, well_connpos=v.pos, data=v.m, **dict(v.wa, **v.pa, **tabs))
        v.type, v.depth = c.int('newtype', 0, 1), c.real('newdepth')
        v.np_ = c.int('nperf', 0, None, size=True, gen=lambda r: r.randint(0, 3))
        v.cells = c.arr('newcells', 'int', v.np_)
        v.frac = c.arr('newfrac', 'double', v.np) if self.frac else c.null()
        v.wi = c.arr('newWI', 'double', v.np_) if self.WI else c.null()
        v.nm = c.text('newname') if self.named else c.null()
        return [v.type, v.depth, v.np_, v.frac, v.cells, v.wi, v.nm, v.W]
    def full(self, c): return False
    def names(self, c):
        c.v.tab = c.slot('names', c.v.n, c.v.wc, c.null())
        return dict(name=c.v.tab)
    def tables(self, c, r):
        c.check(c.v.m.get('well_cpty') == c.v.wc, 'well capacity kept')
        c.check(c.Implies(r == 0, c.isnull(c.v.tab.get())), 'no name without a well')
        c.v.own = [c.v.tab.get()]
    def name_of(self, c): return c.v.tab.get()
    def genpos(self, r, n):
        out = [0]
        while len(out) < n: out.append(out[-1] + (r.randint(0, 2) if self.perfs else 0))
        return out
    def post(self, c, r):
        v, W = c.v, c.v.W
        c.check(c.Or(r == 0, r == 1), 'status is success or failure')
        c.check(W.get('number_of_wells') == v.n + c.Ite(r == 1, 1, 0), 'one more well exactly on success')
        wc, pc = v.m.get('well_cpty'), v.m.get('perf_cpty')
        c.check(c.And(W.get('number_of_phases') == v.np, wc >= v.wc), 'other sizes kept')
        for f, k, w in WCOLS + (('well_connpos', 'int', 2),): c.check(c.capacity(W.get(f), k) >= (wc + 1 if w == 2 else wc if w else wc * v.np), 'capacity of ' + f)
        c.check(c.And(pc >= v.tot, pc >= v.pc), 'perforation capacity never shrinks')
        for f, k, w in WCOLS:
            wd = 1 if w else v.np
            a, o = W.arr(f, k, wc * wd), c.old(v.wa[f])
            c.check_all(0, v.n * wd, lambda i: a[i] == o[i], 'earlier wells kept (%s)' % f)
        Q, oq = W.arr('well_connpos', 'int', wc + 1), c.old(v.pos)
        c.check_all(0, v.n + 1, lambda i: Q[i] == oq[i], 'earlier perforation ranges kept')
        for f, k in PCOLS:
            p = W.get(f)
            c.check(c.Or(pc == 0, c.Not(c.isnull(p))), f + ' allocated')
            def cap():
                c.check(c.alive(p), f + ' not dangling'); c.check(c.capacity(p, k) >= pc, 'capacity of ' + f)
                if self.perfs:
                    a, o = W.arr(f, k, pc), c.old(v.pa[f])
                    c.check_all(0, v.tot, lambda i: a[i] == o[i], 'earlier perforations kept (%s)' % f)
            c.when(c.Not(c.isnull(p)), cap)
        self.tables(c, r)
        c.when(r == 1, lambda: self.added(c))
        if c.native and c.nfail == 0: c.check(r == 1, 'adding succeeds when memory is available')
        c.no_leak(W, v.m, *getattr(v, 'own', []), *[W.get(f) for f in ('well_connpos', 'ctrls', 'name')] + [W.get(f) for f, k, w in WCOLS] + [W.get(f) for f, k in PCOLS])
    def added(self, c):
        v, W = c.v, c.v.W
        wc = v.m.get('well_cpty')
        T, D, F = (W.arr(f, k, wc * (1 if w else v.np)) for f, k, w in WCOLS)
        Q = W.arr('well_connpos', 'int', wc + 1)
        pc = v.m.get('perf_cpty')
        c.check(c.And(T[v.n] == v.type, D[v.n] == v.depth), 'type and depth of the new well')
        of = c.old(v.wa['comp_frac'])
        c.check_all(0, v.np, lambda p: F[v.np * v.n + p] == (v.frac[p] if self.frac else (0 if self.full(c) else of[v.np * v.n + p])), 'phase fractions of the new well')
        c.check(Q[v.n + 1] == v.tot + v.np_, 'perforation range of the new well')
        c.check(v.tot + v.np_ <= pc, 'perforations of the new well fit')
        def stored():
            C, X = W.arr('well_cells', 'int', pc), W.arr('WI', 'double', pc)
            c.check_all(0, v.np_, lambda i: C[v.tot + i] == v.cells[i], 'perforated cells of the new well')
            if self.WI: c.check_all(0, v.np_, lambda i: X[v.tot + i] == v.wi[i], 'well indices of the new well')
            elif not self.perfs: c.check_all(0, v.np_, lambda i: X[v.tot + i] == 0, 'no well indices given: zero')
        c.when(c.Not(c.isnull(W.get('well_cells'))), lambda: c.when(c.Not(c.isnull(W.get('WI'))), stored))
        if self.full(c): return
        p = v.tab.get()
        if self.named: c.when(c.Not(c.isnull(p)), lambda: c.same_text(p, v.nm))
        else: c.check(c.isnull(p), 'unnamed well has no name')
        if c.native and c.nfail == 0 and self.named: c.check(not c.isnull(p), 'name stored when memory is available')
    def inv(self, c, L):
        for a in L.real_arrays() + L.int_arrays():
            if L.writes(a): yield 'fill', c.forall(c.v.pc, c.v.pc + L.N, lambda i: a[i] == (0 if a.kind == 'double' else -1), pat=lambda i: a[i])

# ---- growth of the well arrays: control sets of new wells are created one by one
def family_handlers(spec):
    import models
    from ir import IntTy
    from terms import P, Ptr
    def create(ex, st, a, inst):
        """contract of well_controls_create (proved above): a new empty control set, or null"""
        F = ex.ctx.v.F
        s0 = st.fork()
        k = ex.load(st, IntTy(64), Ptr(F.grid), inst)
        ex.store(st, IntTy(64), k + 1, Ptr(F.grid), inst)
        ex.store(st, IntTy(64), P.of(1), Ptr(F.lrid, k * 8), inst)
        for fld, x in (('num', 0), ('current', -1)): ex.store(st, IntTy(32), P.of(x), Ptr(F.rid, k * F.S + F.f[fld][0], False, F.S), inst)
        from exec import NULL
        return models.ret(s0, NULL) + models.ret(st, Ptr(F.rid, k * F.S, False, F.S))
    def destroy(ex, st, a, inst):
        """contract of well_controls_destroy (proved above): releases the set; nothing for null"""
        F = ex.ctx.v.F
        if a[0].isnull: return models.ret(st)
        k = a[0].off.divexact(F.S)
        out = []
        if a[0].nullc is not False:
            s0 = st.fork(); s0.assume(a[0].nullc)
            if ex.feasible(s0): out += models.ret(s0)
            st.assume(ex.ctx.Not(a[0].nullc))
        with ex.ctx.at(st, None): ex.oblige(st, 'control set released once', F.live[k] == 1, inst)
        ex.store(st, IntTy(64), P.of(0), Ptr(F.lrid, k * 8), inst)
        return out + models.ret(st)
    return {'well_controls_create': create, 'well_controls_destroy': destroy}

class GrowWells(AddWell):
    """adding a well when the well arrays are full"""
    fresh, budget = True, 250
    def __init__(self, frac, WI): 
        AddWell.__init__(self, True, frac, WI, False)
        self.name = 'add_well/grow' + ('' if frac else '/nofrac') + ('' if WI else '/noWI')
    def handlers(self): return family_handlers(self)
    def setup(self, c):
        v = c.v
        out = AddWell.setup(self, c)
        return out
    def full(self, c): return True
    def names(self, c):
        v = c.v
        if c.native:
            v.nt = c.alloc(int(v.wc) * 8, True); v.ct = c.alloc(int(v.wc) * 8, True)
            import ctypes
            for i in range(int(v.wc)):
                ctypes.c_size_t.from_address(v.nt + 8 * i).value = 0 if i % 2 else v.nt
                s = c.struct('old', 'WellControls', num=i, current=-1)
                ctypes.c_size_t.from_address(v.ct + 8 * i).value = s.addr
            v.keep = (ctypes.string_at(v.nt, int(v.wc) * 8), ctypes.string_at(v.ct, int(v.wc) * 8))
            return dict(name=v.nt, ctrls=v.ct)
        from exec import Reg
        v.F = c.family('controls', 'WellControls')
        c.assume(v.F.n0 == v.wc)
        strs = c.opaque('strings')
        v.nt = c.table('names', v.wc, strs.rid, 8); v.ct = c.table('ctrls', v.wc, v.F.rid, v.F.S)
        c.assume(c.forall(0, v.wc, lambda i: c.And(v.ct[i] == i, v.F.live[i] == 1), pat=lambda i: v.ct[i]))
        c.assume(c.forall(0, v.wc, lambda i: v.F.live[i] == 1, pat=lambda i: v.F.live[i]))
        return dict(name=v.nt, ctrls=v.ct)
    def tables(self, c, r):
        """name and control tables"""
        v, W = c.v, c.v.W
        wc = v.m.get('well_cpty')
        if c.native:
            import ctypes
            for f, k in (('name', v.keep[0]), ('ctrls', v.keep[1])): c.check(ctypes.string_at(W.get(f), len(k)) == k, 'earlier entries of %s kept' % f)
            T = W.arr('ctrls', 'size_t', wc); N = W.arr('name', 'size_t', wc)
            new = [T[i] for i in range(int(v.wc), int(wc))]
            for i in range(int(v.wc), int(wc)):
                c.check(T[i] != 0 and N[i] == 0, 'new wells have control sets and no names')
                S = c.at_struct(T[i], 'WellControls')
                c.check(S.get('num') == 0 and S.get('current') == -1, 'control sets of new wells are empty')
            c.check(len(set(new)) == len(new), 'control sets of new wells are distinct')
            v.own = [c.at_struct(t, 'WellControls') for t in new] + [c.at_struct(c.at_struct(t, 'WellControls').get('data'), 'WellControlMgmt') for t in new]
            return
        F = v.F
        T, N = W.arr('ctrls', 'ptr', wc), W.arr('name', 'ptr', wc)
        on, oc = c.old(v.nt), c.old(v.ct)
        c.check_all(0, v.wc, lambda i: c.And(T[i] == oc[i], N[i] == on[i]), 'earlier names and control sets kept')
        c.check_all(v.wc, wc, lambda i: N[i] == -1, 'new wells have no names')
        c.check_all(v.wc, wc, lambda i: T[i] == i, 'new wells have control sets of their own')
        num, cur = F.col('num'), F.col('current')
        c.check_all(v.wc, wc, lambda i: c.And(num[i] == 0, cur[i] == -1), 'control sets of new wells are empty')
        c.check_all(0, v.wc, lambda i: c.And(num[i] == c.old(num)[i], cur[i] == c.old(cur)[i]), 'control sets of earlier wells kept')
        c.check_all(0, wc, lambda i: F.live[i] == 1, 'control sets in use are alive')
        c.check_all(wc, F.count(), lambda i: F.live[i] == 0, 'control sets that are not in use were released')
    def inv(self, c, L):
        v, W = c.v, c.v.W
        if L.fn.name == 'initialise_new_perfs': yield from AddWell.inv(self, c, L); return
        if c.native: return
        F = v.F
        wc, N, np = v.wc, L.N, v.np
        T = W.arr('ctrls', 'ptr', None)
        nm, fr = W.arr('name', 'ptr', None), W.arr('comp_frac', 'double', None)
        for f, k, w in WCOLS + (('well_connpos', 'int', 2),):
            a, o = W.arr(f, k, None), c.old(v.pos if w == 2 else v.wa[f])
            if L.writes(a): yield 'earlier ' + f, c.forall(0, wc + 1 if w == 2 else wc if w else wc * np, lambda i: a[i] == o[i], pat=lambda i: a[i])
        if L.writes(nm): yield 'earlier names', c.forall(0, wc, lambda i: nm[i] == c.old(v.nt)[i], pat=lambda i: nm[i])
        if L.writes(fr):
            i = L.outer[-1] if L.outer else N
            base = (wc + i) * np
            yield 'fractions', c.forall(wc * np, base + (N if L.outer else 0), lambda k: fr[k] == 0, pat=lambda k: fr[k])
            yield 'names', c.forall(wc, wc + i, lambda k: nm[k] == -1, pat=lambda k: nm[k])
        num, cur = F.col('num'), F.col('current')
        cnt = F.count()
        if L.writes(num):
            made = cnt - wc
            for nm_, x in L.named_ints:
                yield nm_ + ' status', c.Or(x == 0, x == 1)
                yield nm_ + ' success', c.Implies(x == 1, made == N)
                yield nm_ + ' failure', c.Implies(x == 0, c.And(N >= 1, made == N - 1, T[cnt] == -1))
            yield 'room', wc + N <= c.capacity(W.get('ctrls'), 'size_t')
            yield 'made', c.And(cnt >= wc, made <= N)
            yield 'numbers', c.forall(wc, cnt, lambda k: T[k] == k, pat=lambda k: T[k])
            yield 'empty', c.forall(wc, cnt, lambda k: c.And(num[k] == 0, cur[k] == -1), pat=lambda k: num[k])
            yield 'alive', c.forall(0, cnt, lambda k: F.live[k] == 1, pat=lambda k: F.live[k])
            yield 'kept', c.forall(0, wc, lambda k: c.And(T[k] == c.old(v.ct)[k], num[k] == c.old(num)[k], cur[k] == c.old(cur)[k]), pat=lambda k: [T[k], num[k], cur[k]])
        elif L.writes(F.live):
            lo = cnt - N + 1
            yield 'null first', c.Implies(N == 0, T[cnt] == -1)
            yield 'released', c.forall(lo, cnt, lambda k: F.live[k] == 0, pat=lambda k: F.live[k])
            yield 'not yet', c.forall(0, cnt, lambda k: c.Implies(k < lo, F.live[k] == 1), pat=lambda k: F.live[k])
            yield 'numbers', c.forall(wc, cnt, lambda k: c.Implies(k < lo, T[k] == k), pat=lambda k: T[k])
            yield 'kept', c.forall(0, wc, lambda k: T[k] == c.old(v.ct)[k], pat=lambda k: T[k])

class DestroyWells(Spec):
    """every array, control set and name is released exactly once"""
    tu, fn, structs = TU, 'destroy_wells', ST
    def __init__(self, kind):
        self.kind = kind; self.name = 'destroy_wells/' + kind
    def handlers(self): return {'well_controls_destroy': family_handlers(self)['well_controls_destroy']}
    def setup(self, c):
        v = c.v
        if self.kind == 'null': return [c.null()]
        if self.kind == 'incomplete':
            v.W = c.struct('W', 'Wells', heap=True, number_of_wells=0, number_of_phases=1, data=c.null(), well_connpos=c.arr('connpos', 'int', 1, heap=True), type=c.null(), depth_ref=c.null(), comp_frac=c.null(), well_cells=c.null(), WI=c.null(), ctrls=c.null(), name=c.null())
            return [v.W]
        v.wc, v.pc = c.size('wcpty', 1), c.size('pcpty', 1)
        v.n = c.int('nw', 0, None, gen=lambda r: r.randint(0, int(v.wc))); c.assume(v.n <= v.wc)
        a = {f: c.arr(f, k, v.wc * 2, heap=True) for f, k, w in WCOLS}
        a.update({f: c.arr(f, k, v.pc, heap=True) for f, k in PCOLS})
        a['well_connpos'] = c.arr('connpos', 'int', v.wc + 1, heap=True)
        if c.native:
            import ctypes
            nt, ct = c.alloc(int(v.wc) * 8, True), c.alloc(int(v.wc) * 8, True)
            for i in range(int(v.wc)):
                if i % 4 == 3: ctypes.c_size_t.from_address(ct + 8 * i).value = 0
                else: ctypes.c_size_t.from_address(ct + 8 * i).value = controls(c, 2, i % 2 == 1, 'w%d' % i).S.addr
                ctypes.c_size_t.from_address(nt + 8 * i).value = c.alloc(4, True) if i % 3 else 0
        else:
            v.F, v.G = c.family('controls', 'WellControls'), c.family('strings', None)
            c.assume(c.And(v.F.n0 == v.wc, v.G.n0 == v.wc))
            nt, ct = c.table('names', v.wc, v.G.rid, 8), c.table('ctrls', v.wc, v.F.rid, v.F.S)
            for T, F in ((nt, v.G), (ct, v.F)):
                c.assume(c.forall(0, v.wc, lambda i: c.Or(T[i] == i, c.And(T[i] == -1, F.live[i] == 0)), pat=lambda i: T[i]))
                c.assume(c.forall(0, v.wc, lambda i: c.Implies(T[i] == i, F.live[i] == 1), pat=lambda i: T[i]))
            v.nt, v.ct = nt, ct
        v.m = c.struct('m', 'WellMgmt', heap=True, well_cpty=v.wc, perf_cpty=v.pc)
        v.W = c.struct('W', 'Wells', heap=True, number_of_wells=v.n, number_of_phases=2, data=v.m, **dict(a, name=nt, ctrls=ct))
        return [v.W]
    def inv(self, c, L):
        v = c.v
        if c.native or self.kind != 'full': return
        for T, F in ((v.nt, v.G), (v.ct, v.F)):
            yield 'released', c.forall(0, L.N, lambda k: F.live[k] == 0, pat=lambda k: F.live[k])
            yield 'all released', c.forall(0, v.wc, lambda k: F.live[k] == 0, pat=lambda k: F.live[k])
            yield 'not yet', c.forall(L.N, v.wc, lambda k: F.live[k] == c.old(F.live)[k], pat=lambda k: F.live[k])
    def post(self, c, r):
        v = c.v
        c.no_leak(label='everything released')
        if not c.native and self.kind == 'full':
            c.check_all(0, v.wc, lambda k: v.F.live[k] == 0, 'every control set released')
            c.check_all(0, v.wc, lambda k: c.Implies(c.old(v.nt)[k] >= 0, v.G.live[k] == 0), 'every name released')

class History(Spec):
    """whole histories on one container against plain arrays, with allocation failures"""
    tu, fn, ret, oom, samples = ['harness/wells.c', TU], 'vp_history', 'int', True, 400
    bounded_only = 'whole-container equality over histories (creation, cloning, destruction, named wells) relates pointer tables of unbounded size; up to 12 wells, 14 operations'
    def setup(self, c):
        v = c.v
        v.np, v.nw0, v.np0 = c.int('np', 1, 3), c.int('nw0', 0, 3, gen=lambda r: r.choice([0, 0, 1, 2, 3])), c.int('np0', 0, 9, gen=lambda r: r.choice([0, 0, 3, 9]))
        v.n = c.int('n', 1, 14, size=True, gen=lambda r: r.randint(1, 14))
        def gen(r, n):
            out = []
            for i in range(n // 3): out += [r.choice([0, 1, 2, 2, 2, 3, 4, 4, 5, 6]) if i else 0, r.randint(0, 11), r.randint(0, 15)]
            return out
        v.script = c.arr('script', 'int', 3 * v.n, gen=gen)
        return [v.np, v.nw0, v.np0, v.n, v.script]
    def post(self, c, r):
        c.check(r == 0 or (c.native and c.nfail > 0 and r in (1, 2, 3, 4, 30)), 'container agrees with the history (code %s)' % r)
        c.no_leak(label='everything released')

SPECS = [CtrlCreate(), CtrlReserve(False), CtrlReserve(True), CtrlDestroy('null'), CtrlDestroy('empty'), CtrlDestroy('full')]
SPECS += [AppendControl(e, d) for e in (False, True) for d in (True, False)]
SPECS += [SetCurrent(), ClearControls(False), ClearControls(True)]
SPECS += [AddWell(True, True, True, True), AddWell(True, False, False, False), AddWell(False, True, True, False), AddWell(False, True, False, True)]
SPECS += [GrowWells(True, True), GrowWells(False, False)]
SPECS += [DestroyWells(k) for k in ('null', 'incomplete', 'full')] + [History()]
