"""C12: TPFA flux reconstruction and system assembly"""
from dsl import Spec, NS
from lib import *
TU = 'opm/core/pressure/tpfa/ifs_tpfa.c'
SS = 'opm/core/linalg/sparse_sys.c'
PRESSURE, FLUX = 1, 2

def boundary_table(c, G):
    """boundary conditions: condition i has the faces face[pos[i]] .. face[pos[i+1]-1]; every face is on the
    boundary and occurs once; flux conditions have one face"""
    b = NS()
    if c.native:
        bf = [f for f in range(int(G.nf)) if (G.fc[2 * f] < 0) != (G.fc[2 * f + 1] < 0)]
        c.rng.shuffle(bf); bf = bf[:c.rng.randint(0, len(bf))]
        sizes, types, k = [], [], 0
        while k < len(bf):
            t = c.rng.choice([0, 1, 2]); s = 1 if t == 2 else c.rng.randint(0, len(bf) - k)
            sizes.append(s); types.append(t); k += s
    b.n = c.size('nbc', 0, gen=lambda r: len(sizes))
    b.pos, b.nface = monotone(c, 'cond_pos', b.n, kind='size_t', gen=lambda r, n: [sum(sizes[:i]) for i in range(n)])
    b.of = owner(c, 'cond', b.pos, b.n, b.nface)
    b.type = c.arr('bctype', 'int', b.n, gen=lambda r, n: types[:n])
    c.assume(c.forall(0, b.n, lambda i: c.And(b.type[i] >= 0, b.type[i] <= 2, c.Implies(b.type[i] == FLUX, b.pos[i + 1] - b.pos[i] == 1)), pat=lambda i: b.type[i]))
    b.value = c.arr('bcvalue', 'double', b.n)
    b.face = c.arr('bcface', 'int', b.nface, gen=lambda r, n: bf[:n])
    b.slot = c.arr('slot', 'int', G.nf, gen=lambda r, n: [(b.face.list().index(f) if f in b.face.list() else int(b.nface)) for f in range(n)])
    c.assume(c.forall(0, b.nface, lambda j: c.And(b.face[j] >= 0, b.face[j] < G.nf, b.slot[b.face[j]] == j, (G.fc[2 * b.face[j]] < 0) != (G.fc[2 * b.face[j] + 1] < 0) if c.native else c.Iff(G.fc[2 * b.face[j]] < 0, G.fc[2 * b.face[j] + 1] >= 0)), pat=lambda j: b.face[j]))
    c.assume(c.forall(0, G.nf, lambda f: c.And(b.slot[f] >= 0, b.slot[f] <= b.nface, c.Implies(b.slot[f] < b.nface, b.face[b.slot[f]] == f)), pat=lambda f: b.slot[f]))
    b.s = c.struct('bc', 'FlowBoundaryConditions', nbc=b.n, face_cpty=b.nface, cond_cpty=b.n, cond_pos=b.pos, type=b.type, value=b.value, face=b.face)
    return b

def faces_only(c, mincells=1):
    G = NS()
    G.nc, G.nf = c.size('nc', mincells), c.size('nf', 0)
    def genfc(r, m):
        out = []
        nc = int(G.nc)
        for _ in range(int(G.nf)):
            a, b = r.randrange(nc), r.randrange(nc)
            if a == b or r.random() < 0.3: b = -1
            if r.random() < 0.5: a, b = b, a
            out += [a, b]
        return out
    G.fc = c.arr('fc', 'int', 2 * G.nf, gen=genfc)
    c.assume(c.forall(0, 2 * G.nf, lambda k: c.And(G.fc[k] >= -1, G.fc[k] < G.nc), pat=lambda k: G.fc[k]))
    c.assume(c.forall(0, G.nf, lambda f: G.fc[2 * f] != G.fc[2 * f + 1], pat=lambda f: (G.fc[2 * f], G.fc[2 * f + 1])))
    G.g = c.struct('g', 'UnstructuredGrid', number_of_cells=G.nc, number_of_faces=G.nf, face_cells=G.fc)
    return G

def wells_table(c, G, np=1):
    """wells with perforations and controls (as they are read by the solvers)"""
    w = NS()
    w.n = c.size('nw', 0)
    w.pos, w.np = monotone(c, 'connpos', w.n, maxstep=3)
    w.of = owner(c, 'well', w.pos, w.n, w.np)
    w.cells = c.arr('wcells', 'int', w.np, lo=0, hi=G.nc)
    w.WI = c.arr('WI', 'double', w.np)
    w.cpos, w.nctrl = monotone(c, 'ctrlpos', w.n, maxstep=3)
    w.cur = c.arr('current', 'int', w.n, gen=lambda r, n: [r.randint(-1, int(w.cpos[i + 1] - w.cpos[i]) - 1) for i in range(n)])
    w.num = c.arr('num', 'int', w.n, gen=lambda r, n: [int(w.cpos[i + 1] - w.cpos[i]) for i in range(n)])
    c.assume(c.forall(0, w.n, lambda i: c.And(w.num[i] == w.cpos[i + 1] - w.cpos[i], w.cur[i] < w.num[i], w.cur[i] >= -1), pat=lambda i: w.cur[i]))
    w.ctype = c.arr('ctrltype', 'int', w.nctrl, lo=0, hi=3)
    w.target = c.arr('target', 'double', w.nctrl)
    w.dpos = c.arr('distrpos', 'int', w.n + 1, gen=lambda r, n: [np * int(w.cpos[i]) for i in range(n)])
    c.assume(c.forall(0, w.n + 1, lambda i: w.dpos[i] == np * w.cpos[i], pat=lambda i: w.dpos[i]))
    w.distr = c.arr('distr', 'double', np * w.nctrl, gen=lambda r, n: [r.choice([1.0] * 6 + [0.5, 0.0]) for _ in range(n)])
    w.ctrl = c.pool('ctrls', 'WellControls', w.n, num=w.num, current=w.cur, type=(w.ctype, w.cpos), target=(w.target, w.cpos), distr=(w.distr, w.dpos))
    w.W = c.struct('W', 'Wells', number_of_wells=w.n, number_of_phases=np, well_connpos=w.pos, well_cells=w.cells, WI=w.WI, ctrls=w.ctrl.tab)
    return w

class PressFlux(Spec):
    """reconstructed pressures and fluxes"""
    tu, fn, structs = [TU, SS], 'ifs_tpfa_press_flux', ('UnstructuredGrid', 'ifs_tpfa_data', 'ifs_tpfa_impl', 'ifs_tpfa_solution', 'ifs_tpfa_forces', 'FlowBoundaryConditions', 'Wells', 'WellControls')
    abs_only, abs_modes = True, ('expand', 'flat')
    forces, bc, wells, wpress, wflux = False, False, False, False, False
    def setup(self, c):
        v = c.v
        v.G = G = faces_only(c)
        v.trans, v.fgrav = c.arr('trans', 'double', G.nf), c.arr('fgrav', 'double', G.nf)
        v.b = boundary_table(c, G) if self.bc else None
        v.w = wells_table(c, G) if self.wells else None
        nw = v.w.n if self.wells else c.I(0)
        v.x = c.arr('x', 'double', G.nc + nw)
        v.press, v.flux = c.arr('cell_press', 'double', G.nc), c.arr('face_flux', 'double', G.nf)
        v.wp = c.arr('well_press', 'double', nw) if self.wpress else None
        v.wf = c.arr('well_flux', 'double', v.w.np) if self.wflux else None
        impl = c.struct('impl', 'ifs_tpfa_impl', fgrav=v.fgrav, work=c.null(), ddata=c.null())
        v.h = c.struct('h', 'ifs_tpfa_data', A=c.null(), b=c.null(), x=v.x, pimpl=impl)
        v.soln = c.struct('soln', 'ifs_tpfa_solution', cell_press=v.press, face_flux=v.flux, well_press=v.wp or c.null(), well_flux=v.wf or c.null())
        F = c.null()
        if self.wells:
            v.mt, v.wdp = c.arr('totmob', 'double', G.nc), c.arr('wdp', 'double', v.w.np)
        if self.forces:
            F = c.struct('F', 'ifs_tpfa_forces', src=c.null(), bc=v.b.s if v.b else c.null(), W=v.w.W if v.w else c.null(), totmob=v.mt if v.w else c.null(), wdp=v.wdp if v.w else c.null())
        v.IF = c.fun('interior', 1, lambda f: self.interior(c, f))
        if self.bc: v.BF = c.fun('bflux', 1, lambda j: self.bval(c, j))
        if self.wflux: v.WF = c.fun('wflux', 1, lambda k: self.wflux_val(c, k))
        return [G.g, F, v.trans, v.h, v.soln]
    def interior(self, c, f):
        G, v = c.v.G, c.v
        c1, c2 = G.fc[2 * f], G.fc[2 * f + 1]
        return c.Ite(c.And(c1 >= 0, c2 >= 0), v.trans[f] * (v.x[c1] - v.x[c2] + v.fgrav[f]), c.R(0))
    def bval(self, c, j):
        """flux over the face of boundary entry j"""
        G, v, b = c.v.G, c.v, c.v.b
        f, i = b.face[j], b.of[j]
        c1, c2 = G.fc[2 * f], G.fc[2 * f + 1]
        into = c1 < 0
        dh = c.Ite(into, b.value[i] - v.x[c2], v.x[c1] - b.value[i])
        return c.Ite(b.type[i] == PRESSURE, v.trans[f] * (dh + v.fgrav[f]), c.Ite(into, b.value[i], -b.value[i]))
    def withbc(self, c, f, x):
        """flux over face f after boundary entries 0..x-1"""
        v, b = c.v, c.v.b
        s = b.slot[f]
        if c.native and s >= b.nface: return v.IF(f)
        t = b.type[b.of[s]]
        return c.Ite(c.And(s < x, c.Or(t == PRESSURE, t == FLUX)), v.BF(s), v.IF(f))
    def wflux_val(self, c, k):
        v, w = c.v, c.v.w
        i = w.of[k]
        return c.Ite(w.cur[i] < 0, c.R(0), v.mt[w.cells[k]] * w.WI[k] * (v.x[v.G.nc + i] + v.wdp[k] - v.x[w.cells[k]]))
    def inv(self, c, L):
        v, G = c.v, c.v.G
        v.IF.unfold(L.N)
        yield 'flux', c.forall(0, L.N, lambda f: v.flux[f] == v.IF(f), pat=lambda f: [v.flux[f]])
        if self.bc:
            b = v.b
            yield 'bc N', c.forall(0, G.nf, lambda f: v.flux[f] == self.withbc(c, f, b.pos[L.N]), pat=lambda f: [v.flux[f]])
            for n, x in L.phis.items():
                if type(x).__name__ == 'P':
                    if not x.same(L.N): v.BF.unfold(x)
                    yield 'bc ' + n, c.forall(0, G.nf, lambda f: v.flux[f] == self.withbc(c, f, x), pat=lambda f: [v.flux[f]])
        if self.wells:
            if self.wpress:
                o = c.old(v.wp)
                yield 'bhp', c.forall(0, L.N, lambda i: v.wp[i] == c.Ite(v.w.cur[i] >= 0, v.x[G.nc + i], o[i]), pat=lambda i: [v.wp[i]])
                yield 'bhp rest', c.forall(L.N, v.w.n, lambda i: v.wp[i] == o[i], pat=lambda i: [v.wp[i]])
            if self.wflux:
                for n, x in L.named_ints: yield 'at-well ' + n, x == v.w.pos[L.N]
                for n, x in L.phis.items():
                    if type(x).__name__ == 'P':
                        if not x.same(L.N): v.WF.unfold(x)
                        yield 'wflux ' + n, c.forall(0, x, lambda k: v.wf[k] == v.WF(k), pat=lambda k: [v.wf[k]])
    def post(self, c, r):
        v, G = c.v, c.v.G
        c.check_all(0, G.nc, lambda i: v.press[i] == v.x[i], 'cell pressure is the solution value')
        if self.bc:
            c.check_all(0, G.nf, lambda f: c.eq(v.flux[f], self.withbc(c, f, v.b.nface)), 'face flux with boundary conditions')
        else:
            c.check_all(0, G.nf, lambda f: c.eq(v.flux[f], v.IF(f)), 'face flux')
        if self.wpress:
            o = c.old(v.wp)
            c.check_all(0, v.w.n, lambda i: v.wp[i] == c.Ite(v.w.cur[i] >= 0, v.x[G.nc + i], o[i]), 'well pressures of open wells are the solution values')
        if self.wflux:
            c.check_all(0, v.w.np, lambda k: c.eq(v.wf[k], v.WF(k)), 'perforation flux follows the well model')
        for a in (v.trans, v.fgrav, v.x, G.fc): c.unchanged(a)

def variant(cls, nm, **kw):
    s = cls(); s.name = '%s/%s' % (cls.__name__, nm)
    for k, x in kw.items(): setattr(s, k, x)
    return s

SPECS = [variant(PressFlux, 'none'), variant(PressFlux, 'noforces', forces=True), variant(PressFlux, 'bc', forces=True, bc=True), variant(PressFlux, 'wells', forces=True, wells=True, wpress=True, wflux=True), variant(PressFlux, 'wells-noout', forces=True, wells=True)]

# ---------------------------------------------------------------- assembly
def elm_index(ex, st, a, inst):
    """contract of csrmatrix_elm_index (proved under C03): the entry exists, its position is returned"""
    import models
    c = ex.ctx; v = c.v
    i, j = ex.as_P(a[0]), ex.as_P(a[1])
    p = v.POS(i, j)
    with c.at(st, None):
        ex.oblige(st, 'csrmatrix_elm_index: entry exists', c.And(i >= 0, i < v.m, v.ia[i] <= p, p < v.ia[i + 1], v.ja[p] == j), inst)
    return models.ret(st, p)

def other(c, G, k):
    f = G.faces[k]
    return c.Ite(G.fc[2 * f] == G.own[k], G.fc[2 * f + 1], G.fc[2 * f])

def interior(c, G, k):
    f = G.faces[k]
    return c.And(G.fc[2 * f] >= 0, G.fc[2 * f + 1] >= 0)

def matrix(c, v, w=None):
    """sparsity pattern with a diagonal, the neighbour connections (and the well connections), sorted rows"""
    G = v.G
    v.m = G.nc if w is None else G.nc + w.n
    rows = []
    if c.native:
        rows = [{i} for i in range(int(v.m))]
        for k in range(int(G.nhf)):
            if interior(c, G, k): rows[G.own[k]].add(other(c, G, k))
        if w is not None:
            for k in range(int(w.np)):
                d = int(G.nc) + w.of[k]
                rows[w.cells[k]].add(d); rows[d].add(w.cells[k])
    v.ia, v.nnz = monotone(c, 'ia', v.m, gen=lambda r, n: [sum(len(x) for x in rows[:i]) for i in range(n)])
    v.row = owner(c, 'row', v.ia, v.m, v.nnz)
    v.ja = c.arr('ja', 'int', v.nnz, gen=lambda r, n: [j for x in rows for j in sorted(x)])
    c.assume(c.forall(0, v.nnz, lambda e: c.And(v.ja[e] >= 0, v.ja[e] < v.m), pat=lambda e: [v.ja[e]]))
    v.sa = c.arr('sa', 'double', v.nnz)
    v.b = c.arr('b', 'double', v.m)
    v.fgrav = c.arr('fgrav', 'double', G.nf)
    if c.native:
        def POS(i, j):
            for e in range(int(v.ia[i]), int(v.ia[i + 1])):
                if v.ja[e] == j: return e
            return -1
        v.POS = POS
    else:
        v.POS = c.ghost('POS', 1, 1, ret='int')
        at = lambda i, j: c.And(v.ia[i] <= v.POS(i, j), v.POS(i, j) < v.ia[i + 1], v.ja[v.POS(i, j)] == j, v.row[v.POS(i, j)] == i)
        c.assume(c.forall(0, v.nnz, lambda e: v.POS(v.row[e], v.ja[e]) == e, pat=lambda e: [v.ja[e]]))
        c.assume(c.forall(0, v.m, lambda i: at(i, i), pat=lambda i: [v.POS(i, i)]))
        c.assume(c.forall(0, G.nhf, lambda k: c.Implies(interior(c, G, k), at(G.own[k], other(c, G, k))), pat=lambda k: [G.faces[k]]))
        if w is not None:
            c.assume(c.forall(0, w.np, lambda k: c.And(at(w.cells[k], G.nc + w.of[k]), at(G.nc + w.of[k], w.cells[k])), pat=lambda k: [w.cells[k]]))
    v.A = c.struct('A', 'CSRMatrix', m=v.m, nnz=v.nnz, ia=v.ia, ja=v.ja, sa=v.sa)
    v.work = c.arr('work', 'double', v.m)
    impl = c.struct('impl', 'ifs_tpfa_impl', fgrav=v.fgrav, work=v.work, ddata=c.null())
    v.h = c.struct('h', 'ifs_tpfa_data', A=v.A, b=v.b, x=c.null(), pimpl=impl)

class Assemble(Spec):
    tu, fn, ret = [TU, SS], 'ifs_tpfa_assemble', 'int'
    structs = ('UnstructuredGrid', 'ifs_tpfa_data', 'ifs_tpfa_impl', 'ifs_tpfa_forces', 'FlowBoundaryConditions', 'Wells', 'WellControls', 'CSRMatrix')
    abs_only, abs_modes = True, ('expand',)
    forces, bc, src, wells, np = False, False, False, False, 1
    def handlers(self): return {'csrmatrix_elm_index': elm_index}
    def setup(self, c):
        v = c.v
        v.G = G = grid_cells(c, 3, mincells=1)
        v.trans, v.gp = c.arr('trans', 'double', G.nf), c.arr('gpress', 'double', G.nhf)
        v.b_ = boundary_table(c, G) if self.bc else None
        v.w = wells_table(c, G, self.np) if self.wells else None
        matrix(c, v, v.w)
        v.src = c.arr('src', 'double', G.nc) if self.src else None
        v.FG = c.sum2('fgrav', lambda f, k: c.Ite(c.And(G.faces[k] == f, interior(c, G, k)), c.Ite(G.fc[2 * f] == G.own[k], v.gp[k], -v.gp[k]), c.R(0)))
        v.FG.base_all()
        v.g = c.fun('gravity', 1, lambda f: v.FG(f, G.nhf))
        def sa_k(e, k):
            t, o = v.trans[G.faces[k]], G.own[k]
            return c.Ite(interior(c, G, k), c.Ite(e == v.POS(o, o), t, c.Ite(e == v.POS(o, other(c, G, k)), -t, c.R(0))), c.R(0))
        v.S = c.sum2('entry', sa_k)
        def b_k(i, k):
            f = G.faces[k]; q = v.trans[f] * v.FG(f, G.nhf)
            return c.Ite(G.own[k] == i, c.Ite(G.fc[2 * f] == i, -q, q), c.R(0))
        v.B = c.sum2('rhs', b_k)
        v.S.base_all(); v.B.base_all()
        if self.bc:
            b = v.b_
            cell = lambda j: c.Ite(G.fc[2 * b.face[j]] >= 0, G.fc[2 * b.face[j]], G.fc[2 * b.face[j] + 1])
            # prefix sums over the faces as if all conditions were pressure / flux conditions
            v.PS = c.sum2('pface', lambda e, j: c.Ite(e == v.POS(cell(j), cell(j)), v.trans[b.face[j]], c.R(0)))
            def pb(i, j):
                f = b.face[j]
                t, g = v.trans[f], v.FG(f, G.nhf)
                return c.Ite(cell(j) == i, t * b.value[b.of[j]] - c.Ite(G.fc[2 * f] >= 0, t * g, -(t * g)), c.R(0))
            v.PB = c.sum2('prhs', pb)
            v.QB = c.sum2('qrhs', lambda i, j: c.Ite(cell(j) == i, b.value[b.of[j]], c.R(0)))
            # sums over the conditions
            v.SB = c.sum2('bcentry', lambda e, i: c.Ite(b.type[i] == PRESSURE, v.PS(e, b.pos[i + 1]) - v.PS(e, b.pos[i]), c.R(0)))
            v.BB = c.sum2('bcrhs', lambda k, i: c.Ite(b.type[i] == PRESSURE, v.PB(k, b.pos[i + 1]) - v.PB(k, b.pos[i]), c.Ite(b.type[i] == FLUX, v.QB(k, b.pos[i + 1]) - v.QB(k, b.pos[i]), c.R(0))))
            for t in (v.PS, v.PB, v.QB): t.base_all()
            v.NP = c.psum('npressure', b.n, lambda i: c.Ite(b.type[i] == PRESSURE, c.I(1), c.I(0)))
            v.SB.base_all(); v.BB.base_all()
        if self.wells: self.wellsums(c)
        F = c.null()
        if self.forces:
            F = c.struct('F', 'ifs_tpfa_forces', src=v.src or c.null(), bc=v.b_.s if v.b_ else c.null(), W=v.w.W if v.w else c.null(), totmob=v.mt if v.w else c.null(), wdp=v.wdp if v.w else c.null())
        return self.args(c, F)
    def wellsums(self, c):
        v, G, w, np = c.v, c.v.G, c.v.w, self.np
        v.mt, v.wdp = c.arr('totmob', 'double', G.nc), c.arr('wdp', 'double', w.np)
        t = lambda k: v.mt[w.cells[k]] * w.WI[k]
        dof = lambda k: G.nc + w.of[k]
        ctl = lambda i: w.cpos[i] + w.cur[i]
        shut = lambda i: w.cur[i] < 0
        isbhp = lambda i: c.And(w.cur[i] >= 0, w.ctype[ctl(i)] == 0)
        def bad(i):
            if c.native and w.cur[i] < 0: return False
            return c.And(w.cur[i] >= 0, c.Or(w.ctype[ctl(i)] == 2, c.And(w.ctype[ctl(i)] == 1, c.Or(*[w.distr[w.dpos[i] + np * w.cur[i] + p] != 1 for p in range(np)]))))
        v.NB = c.psum('badwells', w.n, lambda i: c.Ite(bad(i), c.I(1), c.I(0)))
        v.NH = c.psum('bhpwells', w.n, lambda i: c.Ite(isbhp(i), c.I(1), c.I(0)))
        # prefix sums over the perforations, as if all wells had the same kind of control
        v.wD = c.sum2('wD', lambda e, k: c.Ite(e == v.POS(w.cells[k], w.cells[k]), t(k), c.R(0)))
        v.wW = c.sum2('wW', lambda e, k: c.Ite(e == v.POS(dof(k), dof(k)), t(k), c.R(0)))
        v.wX = c.sum2('wX', lambda e, k: c.Ite(c.Or(e == v.POS(w.cells[k], dof(k)), e == v.POS(dof(k), w.cells[k])), -t(k), c.R(0)))
        v.wP = c.sum2('wP', lambda i, k: c.Ite(w.cells[k] == i, t(k) * (w.target[ctl(w.of[k])] + v.wdp[k]), c.R(0)))
        v.wQ = c.sum2('wQ', lambda i, k: c.Ite(w.cells[k] == i, t(k) * v.wdp[k], c.R(0)))
        v.w1 = c.psum('w1', w.np, lambda k: t(k) * w.target[ctl(w.of[k])], ret='real')
        v.w2 = c.psum('w2', w.np, lambda k: t(k) * v.wdp[k], ret='real')
        for x in (v.wD, v.wW, v.wX, v.wP, v.wQ): x.base_all()
        d = lambda T, e, i: T(e, w.pos[i + 1]) - T(e, w.pos[i])
        d1 = lambda T, i: T(w.pos[i + 1]) - T(w.pos[i])
        v.SW = c.sum2('wellentry', lambda e, i: c.Ite(shut(i), d(v.wW, e, i), c.Ite(isbhp(i), d(v.wD, e, i) + d(v.wW, e, i), d(v.wD, e, i) + d(v.wW, e, i) + d(v.wX, e, i))))
        v.BW = c.sum2('wellcells', lambda k, i: c.Ite(shut(i), c.R(0), c.Ite(isbhp(i), d(v.wP, k, i), d(v.wQ, k, i))))
        v.RW = c.fun('wellrow', 1, lambda i: c.Ite(shut(i), c.R(0), c.Ite(isbhp(i), d1(v.w1, i), w.target[ctl(i)] - d1(v.w2, i))))
        v.SW.base_all(); v.BW.base_all()
    def well_inv(self, c, L, wsa, wb, ints):
        v, G, w = c.v, c.v.G, c.v.w
        v.NB.unfold(L.N); v.NH.unfold(L.N)
        yield 'nb', v.NB(L.N) >= 0
        yield 'nh', v.NH(L.N) >= 0
        for n, x in L.cell_ints + ints:
            yield 'ok ' + n, x == c.Ite(v.NB(L.N) == 0, c.I(1), c.I(0))
            yield 'rate ' + n, x == c.Ite(v.NH(L.N) == 0, c.I(1), c.I(0))
        if not (wsa or wb): return
        v.SW.unfold_all(L.N); v.BW.unfold_all(L.N); v.RW.unfold(L.N)
        if wb: yield 'w rows zero', c.forall(G.nc, v.m, lambda i: v.b[i] == 0, pat=lambda i: [v.b[i]])
        S, B = lambda e: v.S(e, G.nhf), lambda i: v.B(i, G.nhf)
        ok = v.NB(L.N) == 0
        if wsa and not L.outer: yield 'w sa', c.Implies(ok, c.forall(0, v.nnz, lambda e: v.sa[e] == S(e) + v.SW(e, L.N), pat=lambda e: [v.sa[e]]))
        if wb and not L.outer:
            yield 'w b', c.Implies(ok, c.forall(0, G.nc, lambda i: v.b[i] == B(i) + v.BW(i, L.N), pat=lambda i: [v.b[i]]))
            yield 'w rows', c.Implies(ok, c.forall(0, w.n, lambda i: v.b[G.nc + i] == c.Ite(i < L.N, v.RW(i), c.R(0)), pat=lambda i: [v.b[G.nc + i]]))
            if not wsa: yield 'w rows done', c.Implies(v.NB(w.n) == 0, c.forall(0, w.n, lambda i: v.b[G.nc + i] == v.RW(i), pat=lambda i: [v.b[G.nc + i]]))
        for n, x in ints:
            if x.same(L.N) or not L.outer: continue
            o = L.outer[-1]
            ok = v.NB(o) == 0
            for T in (v.wD, v.wW, v.wX, v.wP, v.wQ): T.unfold_all(x)
            v.w1.unfold(x); v.w2.unfold(x)
            dd = lambda T, e: T(e, x) - T(e, w.pos[o])
            sh, bh = w.cur[o] < 0, w.ctype[w.cpos[o] + w.cur[o]] == 0
            kind = lambda a, b, r: c.Ite(sh, a, c.Ite(bh, b, r))
            if wsa: yield 'w sa ' + n, c.Implies(ok, c.forall(0, v.nnz, lambda e: v.sa[e] == S(e) + v.SW(e, o) + dd(v.wW, e) + kind(c.R(0), dd(v.wD, e), dd(v.wD, e) + dd(v.wX, e)), pat=lambda e: [v.sa[e]]))
            if wb:
                yield 'w b ' + n, c.Implies(ok, c.forall(0, G.nc, lambda i: v.b[i] == B(i) + v.BW(i, o) + kind(c.R(0), dd(v.wP, i), dd(v.wQ, i)), pat=lambda i: [v.b[i]]))
                yield 'w row ' + n, c.Implies(ok, c.forall(0, w.n, lambda i: v.b[G.nc + i] == c.Ite(i < o, v.RW(i), c.Ite(i == o, kind(c.R(0), v.w1(x) - v.w1(w.pos[o]), v.w2(w.pos[o]) - v.w2(x)), c.R(0))), pat=lambda i: [v.b[G.nc + i]]))
    def args(self, c, F):
        v = c.v
        return [v.G.g, F, v.trans, v.gp, v.h]
    def inv(self, c, L):
        v, G = c.v, c.v.G
        wsa, wb, wg = L.writes(v.sa), L.writes(v.b), L.writes(v.fgrav)
        top = not L.outer
        if top:
            if wsa: yield 'zero sa', c.forall(0, L.N, lambda e: v.sa[e] == 0, pat=lambda e: [v.sa[e]])
            if wb: yield 'zero b', c.forall(0, L.N, lambda i: v.b[i] == 0, pat=lambda i: [v.b[i]])
            if wg: yield 'zero g', c.forall(0, L.N, lambda f: v.fgrav[f] == 0, pat=lambda f: [v.fgrav[f]])
        yield from own_inv(c, G, L)
        ints = [(n, x) for n, x in L.phis.items() if type(x).__name__ == 'P']
        for n, x in [('N', G.pos[L.N])] + ints:
            if n == 'N' and not top or n != 'N' and x.same(L.N): continue
            if n != 'N': v.FG.unfold_all(x); v.S.unfold_all(x); v.B.unfold_all(x)
            if wg: yield 'fgrav ' + n, c.forall(0, G.nf, lambda f: v.fgrav[f] == v.FG(f, x), pat=lambda f: [v.fgrav[f]])
            if wsa: yield 'sa ' + n, c.forall(0, v.nnz, lambda e: v.sa[e] == v.S(e, x), pat=lambda e: [v.sa[e]])
            if wb: yield 'b ' + n, c.forall(0, G.nc, lambda i: v.b[i] == v.B(i, x), pat=lambda i: [v.b[i]])
        if self.wells: yield from self.well_inv(c, L, wsa, wb, ints)
        if self.bc:
            b = v.b_
            v.NP.unfold(L.N)
            yield 'np', v.NP(L.N) >= 0
            if wsa or wb: v.SB.unfold_all(L.N); v.BB.unfold_all(L.N)
            Se, Bi = lambda e: self.base_e(c, e), lambda i: self.base_b(c, i)
            if wsa and top: yield 'bc sa N', c.forall(0, v.nnz, lambda e: v.sa[e] == Se(e) + v.SB(e, L.N), pat=lambda e: [v.sa[e]])
            if wb and top: yield 'bc b N', c.forall(0, G.nc, lambda i: v.b[i] == Bi(i) + v.BB(i, L.N), pat=lambda i: [v.b[i]])
            for n, x in ints:
                yield 'neumann ' + n, x == c.Ite(v.NP(L.N) == 0, c.I(1), c.I(0))
                if not x.same(L.N) and L.outer:
                    o = L.outer[-1]
                    for t in (v.PS, v.PB, v.QB): t.unfold_all(x)
                    if wsa: yield 'bc sa ' + n, c.forall(0, v.nnz, lambda e: v.sa[e] == Se(e) + v.SB(e, o) + v.PS(e, x) - v.PS(e, b.pos[o]), pat=lambda e: [v.sa[e]])
                    if wb: yield 'bc b ' + n, c.forall(0, G.nc, lambda i: v.b[i] == Bi(i) + v.BB(i, o) + c.Ite(b.type[o] == PRESSURE, v.PB(i, x) - v.PB(i, b.pos[o]), v.QB(i, x) - v.QB(i, b.pos[o])), pat=lambda i: [v.b[i]])
        if self.src and wb and top:
            fb = (lambda i: self.base_b(c, i) + v.BB(i, v.b_.n)) if self.bc else (lambda i: self.base_b(c, i))
            yield 'src', c.forall(0, G.nc, lambda i: v.b[i] == fb(i) + c.Ite(i < L.N, v.src[i], c.R(0)), pat=lambda i: [v.b[i]])
    def base_e(self, c, e):
        v = c.v
        return v.S(e, v.G.nhf) + (v.SW(e, v.w.n) if self.wells else 0)
    def base_b(self, c, i):
        v = c.v
        return v.B(i, v.G.nhf) + (v.BW(i, v.w.n) if self.wells else 0)
    def entry(self, c, e):
        v, G = c.v, c.v.G
        t = self.base_e(c, e)
        if self.bc: t = t + v.SB(e, v.b_.n)
        return t
    def rhs(self, c, i):
        v, G = c.v, c.v.G
        t = self.base_b(c, i)
        if self.bc: t = t + v.BB(i, v.b_.n)
        if self.src: t = t + v.src[i]
        return t
    def singular(self, c):
        v = c.v
        return c.And(v.NP(v.b_.n) == 0 if self.bc else True, v.NH(v.w.n) == 0 if self.wells else True)
    def post(self, c, r):
        v, G = c.v, c.v.G
        if self.wells: c.check(c.Iff(r != 0, v.NB(v.w.n) == 0), 'assembly succeeds when all controls are supported')
        else: c.check(r != 0, 'assembly succeeds')
        def ok():
            c.check_all(0, v.nnz, lambda e: c.eq(v.sa[e], self.entry(c, e) * c.Ite(c.And(e == 0, self.singular(c)), c.R(2), c.R(1))), 'matrix entry is the sum of the face transmissibilities (and boundary and well terms)')
            c.check_all(0, G.nc, lambda i: c.eq(v.b[i], self.rhs(c, i)), 'right-hand side is the sum of gravity, boundary, well and source terms')
            if self.wells: c.check_all(0, v.w.n, lambda i: c.eq(v.b[G.nc + i], v.RW(i)), 'right-hand side of the well equations')
        c.when(r != 0, ok)
        if not c.native or r != 0: self.common(c)
    def common(self, c):
        v, G = c.v, c.v.G
        c.check_all(0, G.nf, lambda f: c.eq(v.fgrav[f], v.FG(f, G.nhf)), 'gravity contribution of the faces')
        for a in (v.trans, v.gp, v.ia, v.ja, G.fc, G.faces, G.pos): c.unchanged(a)
        if c.native and not self.wells:
            # symmetric; rows sum to the boundary terms
            sing = self.singular(c)
            val = lambda e: v.sa[e] * (0.5 if e == 0 and sing else 1)
            for i in range(int(v.m)):
                s = 0.0
                for e in range(v.ia[i], v.ia[i + 1]):
                    s += val(e)
                    c.check(c.eq(val(e), val(v.POS(v.ja[e], i))), 'matrix is symmetric')
                c.check(c.near(s + 100, 100 + (sum(v.SB(e, v.b_.n) for e in range(v.ia[i], v.ia[i + 1])) if self.bc else 0.0)), 'rows sum to the boundary terms')

SPECS += [variant(Assemble, 'none'), variant(Assemble, 'src', forces=True, src=True), variant(Assemble, 'bc+src', forces=True, src=True, bc=True)] + [variant(Assemble, 'wells/np%d' % n, forces=True, wells=True, np=n, samples=400, bounded_only='well contributions of the assembly: up to about 6 wells, cells and faces (the loop invariants of the three inlined kinds of well are beyond the solver budget)') for n in (1, 2, 3)]

class Comprock(Assemble):
    """with the rock compressibility term"""
    fn = 'ifs_tpfa_assemble_comprock'
    def args(self, c, F):
        v = c.v; G = v.G
        v.pv, v.rc, v.p0 = c.arr('porevol', 'double', G.nc), c.arr('rock_comp', 'double', G.nc), c.arr('pressure', 'double', G.nc)
        v.dt = c.real('dt')
        c.assume(v.dt > 0)
        return [G.g, F, v.trans, v.gp, v.pv, v.rc, v.dt, v.p0, v.h]
    def acc(self, c, i):
        v = c.v
        return v.pv[i] * v.rc[i] / v.dt
    def inv(self, c, L):
        yield from super().inv(c, L)
        yield from self.extra(c, L)
    def extra(self, c, L):
        v, G = c.v, c.v.G
        if L.writes(v.sa) and L.writes(v.b) and not L.outer:
            yield 'acc sa', c.forall(0, v.nnz, lambda e: v.sa[e] == self.entry(c, e) + c.Ite(c.And(v.row[e] == v.ja[e], v.row[e] < L.N), self.acc(c, v.row[e]), c.R(0)), pat=lambda e: [v.sa[e]])
            yield 'acc b', c.forall(0, G.nc, lambda i: v.b[i] == self.rhs(c, i) + c.Ite(i < L.N, self.accb(c, i), c.R(0)), pat=lambda i: [v.b[i]])
    def accb(self, c, i): return self.acc(c, i) * c.v.p0[i]
    def post(self, c, r):
        v, G = c.v, c.v.G
        if self.wells: c.check(c.Iff(r != 0, v.NB(v.w.n) == 0), 'assembly succeeds when all controls are supported')
        else: c.check(r != 0, 'assembly succeeds')
        if c.native and r == 0: return
        c.check_all(0, v.nnz, lambda e: c.eq(v.sa[e], self.entry(c, e) + c.Ite(c.And(v.row[e] == v.ja[e], v.row[e] < G.nc), self.acc(c, v.row[e]) if not c.native or v.row[e] < G.nc else 0, c.R(0))), 'matrix entry with the accumulation term on the diagonal')
        c.check_all(0, G.nc, lambda i: c.eq(v.b[i], self.rhs(c, i) + self.accb(c, i)), 'right-hand side with the accumulation term')
        if self.wells: c.check_all(0, v.w.n, lambda i: c.eq(v.b[G.nc + i], self.wellrow(c, i)), 'right-hand side of the well equations')
        c.check_all(0, G.nf, lambda f: c.eq(v.fgrav[f], v.FG(f, G.nhf)), 'gravity contribution of the faces')
        for a in (v.trans, v.gp, v.ia, v.ja, G.fc, G.faces, G.pos, v.pv, v.rc, v.p0): c.unchanged(a)
    def wellrow(self, c, i): return c.v.RW(i)

class Increment(Comprock):
    """Newton increment form"""
    fn = 'ifs_tpfa_assemble_comprock_increment'
    def args(self, c, F):
        v = c.v; G = v.G
        v.pv, v.rc, v.p0 = c.arr('porevol', 'double', G.nc), c.arr('rock_comp', 'double', G.nc), c.arr('prev_pressure', 'double', v.m)
        v.pv0 = c.arr('initial_porevol', 'double', G.nc)
        v.dt = c.real('dt')
        c.assume(v.dt > 0)
        v.MV = c.psum('matvec', v.nnz, lambda e: self.entry(c, e) * v.p0[v.ja[e]], ret='real')
        return [G.g, F, v.trans, v.gp, v.pv, v.rc, v.dt, v.p0, v.pv0, v.h]
    def matvec(self, c, i): return c.v.MV(c.v.ia[i + 1]) - c.v.MV(c.v.ia[i])
    def accb(self, c, i):
        v = c.v
        return -((v.pv[i] - v.pv0[i]) / v.dt + self.matvec(c, i))
    def wellrow(self, c, i): return c.v.RW(i) - self.matvec(c, c.v.G.nc + i)
    def extra(self, c, L):
        yield from super().extra(c, L)
        v = c.v
        if L.writes(v.work):
            ints = [(n, x) for n, x in L.phis.items() if type(x).__name__ == 'P']
            for n, x in ints:
                if not x.same(L.N): v.MV.unfold(x)
                yield 'at-row ' + n, x == v.ia[L.N]
                if L.outer: yield 'part ' + n, v.work[L.outer[-1]] == v.MV(x) - v.MV(v.ia[L.outer[-1]])
            if not L.outer: yield 'rows', c.forall(0, L.N, lambda i: v.work[i] == self.matvec(c, i), pat=lambda i: [v.work[i]])
            else: yield 'rows', c.forall(0, L.outer[-1], lambda i: v.work[i] == self.matvec(c, i), pat=lambda i: [v.work[i]])

B = 'well contributions of the assembly: up to about 6 wells, cells and faces (the loop invariants of the three inlined kinds of well are beyond the solver budget)'
SPECS += [variant(Comprock, 'none'), variant(Comprock, 'bc+src', forces=True, src=True, bc=True), variant(Comprock, 'wells', forces=True, wells=True, np=2, samples=300, bounded_only=B)]
SPECS += [variant(Increment, 'none'), variant(Increment, 'noforces', forces=True), variant(Increment, 'bc+src', forces=True, src=True, bc=True), variant(Increment, 'wells', forces=True, wells=True, np=2, samples=300, bounded_only=B)]

class Construct(Spec):
    """pattern of the system matrix and layout of the solver object"""
    tu, fn, ret, oom = [TU, SS], 'ifs_tpfa_construct', 'ptr', True
    structs = ('UnstructuredGrid', 'ifs_tpfa_data', 'ifs_tpfa_impl', 'Wells', 'WellControls', 'CSRMatrix')
    wells = False; samples = 150
    def setup(self, c):
        v = c.v
        v.G = faces_only(c)
        v.w = wells_table(c, v.G) if self.wells else None
        return [v.G.g, v.w.W if v.w else c.null()]
    def post(self, c, r):
        v, G = c.v, c.v.G
        def ok():
            h = c.at_struct(r, 'ifs_tpfa_data'); A = c.at_struct(h.get('A'), 'CSRMatrix'); p = c.at_struct(h.get('pimpl'), 'ifs_tpfa_impl')
            nw = v.w.n if v.w else 0
            m = G.nc + nw
            d = p.get('ddata')
            c.check(c.capacity(c.view(d, 'double', 0), 'double') >= 3 * m + G.nf, 'room for all work arrays')
            at = 0
            for s, f, n in ((h, 'b', m), (h, 'x', m), (p, 'fgrav', G.nf), (p, 'work', m)):
                c.check(c.offset(s.get(f), d, 'double') == at, 'array %s has its own part of the storage' % f); at = at + n
            c.no_leak(r, h.get('pimpl'), h.get('A'), d, A.get('ia'), A.get('ja'), A.get('sa'))
            rows = [{i: 1} for i in range(m)]
            def add(i, j): rows[i][j] = rows[i].get(j, 0) + 1
            for f in range(int(G.nf)):
                a, b = G.fc[2 * f], G.fc[2 * f + 1]
                if a >= 0 and b >= 0: add(a, b); add(b, a)
            if v.w:
                for k in range(int(v.w.np)): add(v.w.cells[k], G.nc + v.w.of[k]); add(G.nc + v.w.of[k], v.w.cells[k])
            c.check(A.get('m') == m, 'number of rows')
            ia, ja = A.arr('ia', 'int', m + 1), A.arr('ja', 'int', A.get('nnz'))
            for i in range(m):
                c.check([ja[k] for k in range(ia[i], ia[i + 1])] == sorted(j for j, n in rows[i].items() for _ in range(n)), 'row pattern: diagonal, neighbours and wells, sorted')
            c.check(ia[0] == 0 and ia[m] == A.get('nnz'), 'row pointers')
        c.when(c.Not(c.isnull(r)), ok)
        c.when(c.isnull(r), lambda: c.no_leak())
        if c.native and c.nfail == 0: c.check(not c.isnull(r), 'construction succeeds when memory is available')
N_ = 'pattern construction: up to about 6 cells, faces, wells, allocation failing at each call'
SPECS += [variant(Construct, 'plain', bounded_only=N_), variant(Construct, 'wells', wells=True, bounded_only=N_)]
