"""C22: boundary condition manager"""
from dsl import Spec, NS
from lib import *
import prop_C01
TU = 'harness/flowbc.cpp'
FS = 'FlowBoundaryConditions'
NOFLOW, PRESSURE, FLUX = 0, 1, 2

class Bc(Spec):
    tu, flags, samples = TU, (), 200
    structs = (FS, 'UnstructuredGrid')
    throws = True
    def bc(self, c, room, faces):
        """conditions with room for more"""
        v = c.v
        v.nbc = c.size('nbc', 0)
        v.room = c.int('room', 0, gen=lambda r: int(v.nbc) + int(room)); c.assume(v.room >= v.nbc + room)
        v.type, v.value = c.arr('type', 'int', v.room), c.arr('value', 'double', v.room)
        def genpos(r, n):
            out = [0]
            while len(out) < n: out.append(out[-1] + r.randint(0, 2))
            return out
        v.pos = c.arr('cond_pos', 'size_t', v.room + 1, gen=genpos)
        v.nf0 = c.int('nf0', 0, gen=lambda r: int(v.pos[int(v.nbc)])); c.assume(v.pos[v.nbc] == v.nf0)
        c.assume(v.pos[0] == 0)
        c.assume(c.forall2(0, v.nbc + 1, lambda i, j: v.pos[i] <= v.pos[j], pat=lambda i, j: (v.pos[i], v.pos[j])))
        v.froom = c.int('froom', 0, gen=lambda r: int(v.nf0) + int(faces)); c.assume(v.froom >= v.nf0 + faces)
        v.face = c.arr('face', 'int', v.froom)
        v.ok = c.int('ok', 0, 1, gen=lambda r: int(r.random() < 0.9))
        v.S = c.struct('fbc', FS, nbc=v.nbc, cond_cpty=v.room, face_cpty=v.froom, cond_pos=v.pos, type=v.type, value=v.value, face=v.face)
        return v.S
    def kept(self, c):
        v, o = c.v, c.old
        c.check_all(0, v.nbc, lambda i: c.And(v.type[i] == o(v.type)[i], v.value[i] == o(v.value)[i]), 'earlier conditions kept')
        c.check_all(0, v.nbc + 1, lambda i: v.pos[i] == o(v.pos)[i], 'earlier face ranges kept')
        c.check_all(0, v.nf0, lambda i: v.face[i] == o(v.face)[i], 'faces of earlier conditions kept')
class Append(Bc):
    """one condition on one face"""
    fn = 'h_append'
    def setup(self, c):
        v = c.v; self.bc(c, 1, 1); v.t, v.f, v.x = c.int('t', 0, 2), c.int('f', 0, gen=lambda r: r.randrange(9)), c.real('x')
        return [v.t, v.f, ('double', v.x), v.S, v.ok]
    def on_throw(self, c): c.check(c.v.ok == 0, 'only a failure to append is reported')
    def post(self, c, r):
        v = c.v; self.kept(c)
        c.check(v.ok != 0, 'a failure to append is reported')
        c.check(v.S.get('nbc') == v.nbc + 1, 'one condition is added')
        c.check(c.And(v.type[v.nbc] == v.t, v.value[v.nbc] == v.x, v.pos[v.nbc + 1] == v.nf0 + 1, v.face[v.nf0] == v.f), 'type, face and value as given')
class Clear(Bc):
    fn, throws = 'h_clear', False
    def setup(self, c): self.bc(c, 0, 0); return [c.v.S]
    def post(self, c, r): c.check(c.v.S.get('nbc') == 0, 'no condition is left')
class Same(Bc):
    fn, ret, throws = 'h_same', 'int', False
    def setup(self, c): self.bc(c, 0, 0); return [c.v.S]
    def post(self, c, r): c.check(r != 0, 'the managed conditions are those accessed'); c.check(c.v.S.get('nbc') == c.v.nbc, 'and are unchanged'); self.kept(c)

class Side(Bc):
    """a side of a grid of d dimensions; glob: cells carry their own cartesian index; half-faces are tagged (or not: notag)"""
    d, side, glob, tag = 3, 0, True, True
    fn, area, opaque_div = "h_pressure_side", False, True
    budget, fresh, frames = 400, True, False
    def setup(self, c):
        v, d, sd = c.v, self.d, self.side
        v.nc = c.size('nc', 0)
        v.dims = [c.int('dim%d' % i, 1, gen=lambda r: r.randint(1, 3)) for i in range(3)]
        def rest(g):
            for i in range(d): g = c.div(g, v.dims[i])
            return g
        def bound(): 
            m = 1
            for i in range(d): m *= int(v.dims[i])
            return m
        if self.glob:
            v.gc = c.arr('global_cell', 'int', v.nc, gen=lambda r, n: [r.randrange(bound()) for _ in range(n)])
            c.assume(c.forall(0, v.nc, lambda i: v.gc[i] >= 0, pat=lambda i: v.gc[i]))
        else: v.gc = c.null()
        gc = (lambda i: v.gc[i]) if self.glob else lambda i: i
        v.bad = c.int('bad_index', -1, gen=lambda r: next((i for i in range(int(v.nc)) if rest(gc(i)) != 0), -1))   # a cell outside the cartesian box, if any
        c.assume(c.Or(v.bad == -1, v.bad < v.nc))
        if c.native: c.assume((v.bad == -1) == all(rest(gc(i)) == 0 for i in range(int(v.nc))) and (v.bad < 0 or rest(gc(v.bad)) != 0))
        else:
            c.assume(c.Implies(v.bad == -1, c.forall(0, v.nc, lambda i: rest(gc(i)) == 0, pat=lambda i: gc(i)) if self.glob else c.forall(0, v.nc, lambda i: rest(i) == 0)))
            c.assume(c.Or(v.bad == -1, c.Not(rest(gc(v.bad)) == 0)))
        v.nf = c.size('nf', 1)
        v.cpos, v.nhf = monotone(c, 'facepos', v.nc, maxstep=3)
        v.own = owner(c, 'own', v.cpos, v.nc, v.nhf)
        v.faces = c.arr('faces', 'int', v.nhf, gen=lambda r, n: [r.randrange(int(v.nf)) for _ in range(n)])
        c.assume(c.forall(0, v.nhf, lambda k: c.And(v.faces[k] >= 0, v.faces[k] < v.nf), pat=lambda k: v.faces[k]))
        v.fc = c.arr('fc', 'int', 2 * v.nf, gen=lambda r, n: [r.choice([-1, -1, -1, 0]) if i % 2 else r.choice([-1, 0, 0]) for i in range(n)])
        v.tag = c.arr('tag', 'int', v.nhf, gen=lambda r, n: [r.randrange(2 * d) for _ in range(n)]) if self.tag else c.null()
        v.area = c.arr('area', 'double', v.nf, gen=lambda r, n: [r.randint(1, 8) / 2 for _ in range(n)])
        c.assume(c.forall(0, v.nf, lambda f: v.area[f] > 0, pat=lambda f: v.area[f]))
        def coord(i):
            g = gc(i)
            for _ in range(sd // 2): g = c.div(g, v.dims[_])
            return c.mod(g, v.dims[sd // 2])
        v.want = (lambda: v.dims[sd // 2] - 1 if sd % 2 else c.I(0))()
        v.cell = lambda i: coord(i) == v.want
        v.sel = lambda k: c.And(v.cell(v.own[k]), v.tag[k] == sd)
        v.bnd = lambda k: c.Or(v.fc[2 * v.faces[k]] == -1, v.fc[2 * v.faces[k] + 1] == -1)
        valid = self.tag and sd < 2 * d
        v.inner = c.int('inner', -1, gen=lambda r: next((k for k in range(int(v.nhf)) if valid and v.sel(k) and not v.bnd(k)), -1))     # a selected interior face, if any
        c.assume(c.Or(v.inner == -1, v.inner < v.nhf))
        if valid:
            c.assume(c.Implies(v.inner == -1, c.forall(0, v.nhf, lambda k: c.Implies(v.sel(k), v.bnd(k)), pat=lambda k: v.faces[k])))
            c.assume(c.Or(v.inner == -1, c.And(v.sel(v.inner), c.Not(v.bnd(v.inner)))))
            v.T = c.sum2('tagged', lambda i, k: c.Ite(v.tag[k] == sd, c.I(1), c.I(0)), lo=lambda i: v.cpos[i], ret='int')     # faces with the tag among those of a cell
            v.SUM = c.psum('selected', v.nc, lambda i: c.Ite(v.cell(i), v.T(i, v.cpos[i + 1]), c.I(0)))                        # selected faces of earlier cells
            v.POS = lambda k: v.SUM(v.own[k]) + v.T(v.own[k], k)
        self.bc(c, v.nhf if self.area else 1, v.nhf)
        v.g = c.struct('g', 'UnstructuredGrid', dimensions=d, number_of_cells=v.nc, number_of_faces=v.nf, cell_facepos=v.cpos, cell_faces=v.faces, face_cells=v.fc,
                       global_cell=v.gc, cartdims=list(v.dims), cell_facetag=v.tag, face_areas=v.area)
        v.x = c.real('x')
        return [v.g, sd, ('double', v.x), v.S, v.ok]
    def on_throw(self, c):
        v = c.v
        if not self.tag or self.side >= 2 * self.d: return
        c.check(c.Or(v.ok == 0, v.bad != -1, v.inner != -1), 'only untagged faces, bad sides, bad cell numbers, interior side faces and failures to append are rejected')
    def inv(self, c, L):
        v = c.v
        if not self.tag or self.side >= 2 * self.d: return
        ks = [x for n, x in L.named_ints] + [L.N]
        i = L.outer[0] if L.outer else L.N
        k = v.cpos[i] + L.N if L.outer else v.cpos[i]
        v.SUM.unfold(i); v.T.unfold(i, k)
        if L.outer: c.assume(owned(c, v.cpos, v.own, i, k))
        else: c.assume(c.forall(v.cpos[i], v.cpos[i + 1], lambda j: c.Implies(i < v.nc, c.And(v.own[j] >= i, v.own[j] <= i)), pat=lambda j: [v.tag[j], v.faces[j]]))
        n = v.SUM(i) + v.T(i, k)
        yield 'earlier>0', v.SUM(i) >= 0
        if L.outer: yield 'cell', v.cell(i)
        for nm, m in L.vec_sizes: yield 'size ' + nm, m == n; yield 'size>0 ' + nm, c.And(m >= 0, m <= k)
        p = v.cpos[i]
        yield 'boundary', c.forall(0, p, lambda j: c.Implies(v.sel(j), v.bnd(j)), pat=lambda j: [v.tag[j], v.faces[j]])
        if L.outer:
            yield 'boundary here', c.forall(p, k, lambda j: c.Implies(v.tag[j] == self.side, v.bnd(j)), pat=lambda j: [v.tag[j], v.faces[j]])
            yield 'here>0', v.T(i, k) >= 0
        for a in L.int_arrays():
            yield 'chosen ' + a.name, c.forall(0, p, lambda j: c.Implies(v.sel(j), c.And(v.POS(j) >= 0, v.POS(j) < v.SUM(i), a[v.POS(j)] == v.faces[j])), pat=lambda j: [v.tag[j], v.faces[j]])
            if L.outer: yield 'chosen here ' + a.name, c.forall(p, k, lambda j: c.Implies(v.tag[j] == self.side, c.And(v.T(i, j) >= 0, v.T(i, j) < v.T(i, k), a[v.SUM(i) + v.T(i, j)] == v.faces[j])), pat=lambda j: [v.tag[j], v.faces[j]])
    def post(self, c, r):
        v, sd = c.v, self.side
        c.check(self.tag, 'untagged faces are rejected'); c.check(sd < 2 * self.d, 'bad sides are rejected')
        if not self.tag or sd >= 2 * self.d: return
        c.check(v.inner == -1, 'a selected interior face is rejected')
        self.kept(c)
        n = v.SUM(v.nc)
        self.result(c, n)
    def result(self, c, n):
        v = c.v
        c.check(v.ok != 0, 'a failure to append is reported')
        c.check(v.S.get('nbc') == v.nbc + 1, 'one condition for the side')
        c.check(c.And(v.type[v.nbc] == PRESSURE, v.value[v.nbc] == v.x), 'prescribed pressure')
        c.check(v.pos[v.nbc + 1] == v.nf0 + n, 'as many faces as selected')
        c.check_all(0, v.nhf, lambda k: c.Implies(v.sel(k), c.And(v.POS(k) >= 0, v.POS(k) < n, v.face[v.nf0 + v.POS(k)] == v.faces[k])), 'every selected face, in its own place')
class Flux(Side):
    """one condition per selected face, the flux in proportion to its area"""
    fn, area = 'h_flux_side', True
    def setup(self, c):
        v = c.v; out = Side.setup(self, c)
        if not self.tag or self.side >= 2 * self.d: return out
        # the half-face chosen as number p (choices are numbered in order, so numbers determine half-faces)
        def gen(r, n):
            o = [0] * n
            for k in range(n):
                if v.sel(k): o[v.POS(k)] = k
            return o
        v.at = c.arr('at', 'int', v.nhf, gen=gen)
        c.assume(c.forall(0, v.nhf, lambda k: c.Implies(v.sel(k), v.at[v.POS(k)] == k), pat=lambda k: v.faces[k]))
        v.A = c.psum('area', v.nhf, lambda p: v.area[v.faces[v.at[p]]], ret='real')
        return out
    def placed(self, c, a, n, off=0):
        v = c.v
        return c.forall(0, n, lambda p: c.And(v.at[p] >= 0, v.at[p] < v.nhf, v.sel(v.at[p]), a[p + off] == v.faces[v.at[p]]), pat=lambda p: [v.at[p], a[p + off]])
    def inv(self, c, L):
        v = c.v
        if 'findSideFaces' in L.fn.name:
            yield from Side.inv(self, c, L)
            i = L.outer[0] if L.outer else L.N
            n = v.SUM(i) + (v.T(i, v.cpos[i] + L.N) if L.outer else 0)
            for a in L.int_arrays(): yield 'placed ' + a.name, self.placed(c, a, n)
            return
        N = L.N; v.A.unfold(N)
        for nm, x in L.named_reals: yield 'area ' + nm, x == v.A(N)
        yield 'area>=0', v.A(N) >= 0
        yield 'area>0', c.Implies(N > 0, v.A(N) > 0)
        if not L.writes(v.pos): return
        A = v.A(v.SUM(v.nc))
        yield 'count', v.S.get('nbc') == v.nbc + N
        o = c.old
        yield 'appended', c.Or(v.ok != 0, N == 0)
        for nm, a, m in (('type', v.type, v.nbc), ('value', v.value, v.nbc), ('pos', v.pos, v.nbc + 1), ('face', v.face, v.nf0)): yield 'kept ' + nm, c.forall(0, m, lambda j: a[j] == o(a)[j], pat=lambda j: [a[j]])
        b, f0, sel = v.nbc, v.nf0, lambda p: v.faces[v.at[p]]
        yield 'pos', c.forall(b, b + N + 1, lambda i: v.pos[i] == f0 + i - b, pat=lambda i: [v.pos[i]])
        yield 'types', c.forall(b, b + N, lambda i: v.type[i] == FLUX, pat=lambda i: [v.type[i]])
        yield 'values', c.forall(b, b + N, lambda i: v.value[i] == v.x * v.area[sel(i - b)] / A, pat=lambda i: [v.value[i]])
        yield 'faces', c.forall(f0, f0 + N, lambda i: v.face[i] == sel(i - f0), pat=lambda i: [v.face[i]])
    def result(self, c, n):
        v = c.v
        c.check(c.Or(v.ok != 0, n == 0), 'a failure to append is reported')
        c.check(v.S.get('nbc') == v.nbc + n, 'one condition per selected face')
        A = v.A(n)
        c.check_all(0, n, lambda p: c.And(v.type[v.nbc + p] == FLUX, v.pos[v.nbc + p + 1] == v.nf0 + p + 1), 'one face each')
        c.check_all(0, n, lambda p: c.And(v.at[p] >= 0, v.at[p] < v.nhf, v.sel(v.at[p]), v.face[v.nf0 + p] == v.faces[v.at[p]]), 'a selected face each')
        c.check_all(0, n, lambda p: c.near(v.value[v.nbc + p], v.x * v.area[v.face[v.nf0 + p]] / A), 'flux in proportion to area')
        c.check_all(0, v.nhf, lambda k: c.Implies(v.sel(k), c.And(v.POS(k) >= 0, v.POS(k) < n, v.at[v.POS(k)] == k)), 'every selected face')
SPECS = [Append(), Clear(), Same()]
for d in (1, 2, 3):
    for sd in range(6):
        for glob in (True, False):
            if sd >= 2 * d and not glob: continue
            s = Side(); s.d, s.side, s.glob = d, sd, glob; s.name = 'Pressure/dim%d/side%d%s' % (d, sd, '' if glob else '/natural'); SPECS.append(s)
            s = Flux(); s.d, s.side, s.glob = d, sd, glob; s.name = 'Flux/dim%d/side%d%s' % (d, sd, '' if glob else '/natural'); SPECS.append(s)
for s, n in ((Side(), 'Pressure'), (Flux(), 'Flux')): s.tag = False; s.name = n + '/notag'; SPECS.append(s)
SPECS += [prop_C01.FbcConstruct(), prop_C01.FbcAppend(), prop_C01.FbcAppend1(), prop_C01.FbcClear(), prop_C01.FbcDestroy()]    # the contracts the manager relies on
