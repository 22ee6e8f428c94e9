"""C08: geometry of Cartesian grids"""
from dsl import Spec
import prop_C05
from cart import Odo, Table, nest_inv
TU = 'opm/core/grid/cart_grid.c'

class Geometry(Spec):
    """every coordinate, centroid, normal, area and volume"""
    tu, structs, static, opaque_mul, reseed, frames, abs_only = TU, ('UnstructuredGrid',), True, True, True, False, True
    samples = 60; D = 3
    def setup(self, c):
        v, D = c.v, self.D
        v.n = [c.size(x, 1) for x in ('nx', 'ny', 'nz')[:D]]
        v.ax = [c.arr(a, 'double', n + 1) for a, n in zip('xyz', v.n)]
        def prod(d=None):      # number of faces normal to d, of cells (None), of nodes (-1)
            p = c.I(1)
            for e, n in enumerate(v.n): p = p * (n + 1 if e == d or d == -1 else n)
            return p
        v.nc, v.nn = prod(), prod(-1)
        v.nfd = [prod(d) for d in range(D)]
        v.nf = sum(v.nfd[1:], v.nfd[0])
        for a, n in (('cell_centroids', D * v.nc), ('cell_volumes', v.nc), ('face_normals', D * v.nf), ('face_centroids', D * v.nf), ('face_areas', v.nf), ('node_coordinates', D * v.nn)):
            setattr(v, a, c.arr(a, 'double', n))
        v.G = c.struct('G', 'UnstructuredGrid', dimensions=D, cartdims=list(v.n) + [c.I(1)] * (3 - D), cell_centroids=v.cell_centroids, cell_volumes=v.cell_volumes,
                       face_normals=v.face_normals, face_centroids=v.face_centroids, face_areas=v.face_areas, node_coordinates=v.node_coordinates)
        def odo(name, d=None): return Odo(c, name, [n + 1 if e == d or d == -1 else n for e, n in enumerate(v.n[:-1])])
        mid = lambda e, i: (v.ax[e][i] + v.ax[e][i + 1]) / 2.0
        ext = lambda e, i: v.ax[e][i + 1] - v.ax[e][i]
        def product(es, x):
            r = None
            for e in es: r = ext(e, x[e]) if r is None else r * ext(e, x[e])
            return r
        v.tabs = []
        if self.geometry:
            oc = odo('C')
            rows = [('centroid %d' % e, lambda m, e=e: c.eq(v.cell_centroids[D * m + e], mid(e, oc(m)[e]))) for e in range(D)]
            rows.append(('volume', lambda m: c.eq(v.cell_volumes[m], product(range(D), oc(m)))))
            v.tabs.append(Table('cells', oc, v.nc, rows, [(v.cell_centroids, c.I(0), D, False), (v.cell_volumes, c.I(0), 1, False)]))
            base = c.I(0)
            for d in range(D):
                of = odo('F%d' % d, d)
                area = lambda m, d=d, of=of: product([e for e in range(D) if e != d], of(m))
                rows = [('centroid %d' % e, lambda m, e=e, d=d, b=base, of=of: c.eq(v.face_centroids[D * (b + m) + e], v.ax[e][of(m)[e]] if e == d else mid(e, of(m)[e]))) for e in range(D)]
                rows += [('normal %d' % e, lambda m, e=e, d=d, b=base, area=area: c.eq(v.face_normals[D * (b + m) + e], area(m) if e == d else c.R(0))) for e in range(D)]
                rows.append(('area', lambda m, b=base, area=area: c.eq(v.face_areas[b + m], area(m))))
                v.tabs.append(Table('%s-faces' % 'xyz'[d], of, v.nfd[d], rows, [(v.face_normals, D * base, D, False), (v.face_centroids, D * base, D, False), (v.face_areas, base, 1, False)]))
                base = base + v.nfd[d]
        on = odo('N', -1)
        v.tabs.append(Table('nodes', on, v.nn, [('coordinate %d' % e, lambda m, e=e: c.eq(v.node_coordinates[D * m + e], self.coord(c, e, on(m)))) for e in range(D)], [(v.node_coordinates, c.I(0), D, False)]))
        return self.args(c)
    geometry = True
    def args(self, c): return [c.v.G] + list(c.v.ax)
    def coord(self, c, e, x): return c.v.ax[e][x[e]]
    def inv(self, c, L): yield from nest_inv(c, L, c.v.tabs)
    def post(self, c, r):
        v = c.v
        for T in v.tabs:
            for l, f in T.rows: c.check_all(0, T.count, f, '%s: %s' % (T.name, l))
        for a in v.ax: c.unchanged(a)
class Geometry3(Geometry): fn = 'fill_cart_geometry_3d'
class Geometry2(Geometry): fn, D = 'fill_cart_geometry_2d', 2

class Layered(Geometry):
    """node depths shifted per pillar; the rest is left to compute_geometry, called once on the grid"""
    fn, geometry, tu = 'fill_layered_geometry_3d', False, [TU, 'harness/nogeom.c']
    def args(self, c):
        v = c.v
        v.depth = c.arr('depthz', 'double', (v.n[0] + 1) * (v.n[1] + 1))
        return [v.G] + list(v.ax) + [v.depth]
    def coord(self, c, e, x):
        v = c.v
        return v.ax[e][x[e]] if e < 2 else v.ax[2][x[2]] + v.depth[x[0] + (v.n[0] + 1) * x[1]]
    def handlers(self):
        def h(ex, st, a, inst):
            import models
            ex.oblige(st, 'compute_geometry: on the grid', ex.ctx.same(a[0], ex.ctx.v.G), inst)
            note(st, 'geometry'); return models.ret(st)
        return {'compute_geometry': h}
    def post(self, c, r):
        Geometry.post(self, c, r)
        if not c.native: c.check(c.st.ghost.get('calls') == ('geometry',), 'geometry computed once')
# ---------------------------------------------------------------- composition
def note(st, name): st.ghost['calls'] = st.ghost.get('calls', ()) + (name,)
class Tensor(Spec):
    """allocate, fill the topology, fill the geometry from the given coordinates; nothing if memory runs out"""
    tu, structs, oom, ret, samples = [TU, 'opm/core/grid/grid.c', 'opm/core/grid/cornerpoint_grid.c', 'opm/core/grid/cpgpreprocess/geometry.c'], ('UnstructuredGrid',), True, 'ptr', 60
    D, layered = 2, False
    def setup(self, c):
        v, D = c.v, self.D
        v.n = [c.size(x, 1) for x in ('nx', 'ny', 'nz')[:D]]
        mono = lambda r, n: [sum(0.5 + k for k in range(i)) for i in range(n)]
        v.ax = [c.arr(a, 'double', n + 1, gen=mono) for a, n in zip('xyz', v.n)]
        v.depth = c.arr('depthz', 'double', (v.n[0] + 1) * (v.n[1] + 1)) if self.layered else c.null()
        v.G = None if c.native else c.struct('made', 'UnstructuredGrid')
        return list(v.n) + v.ax + ([v.depth] if D == 3 else [])
    def handlers(self):
        D = self.D
        def alloc(ex, st, a, inst):
            c = ex.ctx
            for e in range(D): ex.oblige(st, 'allocate: number of cells', ex.as_P(a[e]) == c.v.n[e], inst)
            s2 = st.fork(); note(s2, 'allocated')
            return [('ret', c.null(), st), ('ret', c.v.G.p, s2)]
        def fill(name, axes, depth):
            def h(ex, st, a, inst):
                import models
                c = ex.ctx; v = c.v
                ex.oblige(st, name + ': the grid allocated', c.same(a[0], v.G), inst)
                for e in range(axes): ex.oblige(st, name + ': coordinates', c.same(a[1 + e], v.ax[e]), inst)
                if depth: ex.oblige(st, name + ': depths', c.same(a[4], v.depth), inst)
                note(st, name); return models.ret(st)
            return h
        d = '_%dd' % D
        return {'allocate_cart_grid' + d: alloc, 'fill_cart_topology' + d: fill('topology', 0, False), 'fill_cart_geometry' + d: fill('geometry', D, False), 'fill_layered_geometry' + d: fill('layered', D, True)}
    def post(self, c, r):
        v, D = c.v, self.D
        if not c.native:
            done = c.st.ghost.get('calls', ())
            if done == (): c.check(c.isnull(r), 'nothing when allocation fails')
            else:
                c.check(done == ('allocated', 'topology', 'layered' if self.layered else 'geometry'), 'topology, then geometry')
                c.check(c.same(r, v.G), 'the grid is returned')
            return
        if not r: return c.no_leak()
        G = c.at_struct(r, 'UnstructuredGrid'); n = list(v.n)
        nodes = G.arr('node_coordinates', 'double', D * (n[0] + 1) * (n[1] + 1) * (n[2] + 1 if D == 3 else 1))
        c.no_leak(r, *[G.get(f) for f, _, _ in prop_C05.ARRAYS])
        for m in range(nodes.n // D):
            ix = (m % (n[0] + 1), m // (n[0] + 1) % (n[1] + 1), m // (n[0] + 1) // (n[1] + 1))
            for e in range(D): c.check(c.eq(nodes[D * m + e], v.ax[e][ix[e]] + (v.depth[m % ((n[0] + 1) * (n[1] + 1))] if self.layered and e == 2 else 0.0)), 'node coordinates')
        if self.layered: return
        nc = n[0] * n[1] * (n[2] if D == 3 else 1)
        vol = G.arr('cell_volumes', 'double', nc)
        for m in range(nc):
            ix = (m % n[0], m // n[0] % n[1], m // n[0] // n[1])
            x = 1.0
            for e in range(D): x *= v.ax[e][ix[e] + 1] - v.ax[e][ix[e]]
            c.check(c.eq(vol[m], x), 'cell volumes')
class Tensor2(Tensor): fn = 'create_grid_tensor2d'
class Tensor3(Tensor): fn, D = 'create_grid_tensor3d', 3
class TensorLayered(Tensor3): layered = True
class Spaced(Spec):
    """coordinates are multiples of the spacing; the tensor grid built from them is returned, scratch arrays are released"""
    tu, structs, oom, ret, samples, opaque_mul, path_limit = [TU, 'opm/core/grid/grid.c', 'opm/core/grid/cornerpoint_grid.c', 'opm/core/grid/cpgpreprocess/geometry.c'], ('UnstructuredGrid',), True, 'ptr', 60, True, 20000
    D, callee = 2, 'create_grid_tensor2d'
    def setup(self, c):
        v, D = c.v, self.D
        v.n = [c.size(x, 1) for x in ('nx', 'ny', 'nz')[:D]]
        v.d = [c.real(x) for x in ('dx', 'dy', 'dz')[:D]]
        v.made = c.opaque('made') if not c.native else None
        return list(v.n) + [('double', d) for d in v.d]
    def handlers(self):
        def h(ex, st, a, inst):
            import models
            c, D = ex.ctx, self.D
            v = c.v
            with c.at(st):
                for e in range(D):
                    ex.oblige(st, '%s: number of cells' % self.callee, ex.as_P(a[e]) == v.n[e], inst)
                    x = c.view(a[D + e], 'double', v.n[e] + 1)
                    ex.oblige(st, '%s: coordinates given' % self.callee, c.Not(c.isnull(x)), inst)
                    ex.oblige(st, '%s: room for the coordinates' % self.callee, c.capacity(x, 'double') >= v.n[e] + 1, inst)
                    ex.oblige(st, '%s: multiples of the spacing' % self.callee, c.forall(0, v.n[e] + 1, lambda q: x[q] == v.d[e] * q, pat=lambda q: [x[q]]), inst)
                if D == 3: ex.oblige(st, '%s: no depths' % self.callee, c.isnull(a[6]), inst)
            return models.ret(st, v.made)
        return {self.callee: h}
    def inv(self, c, L):
        v = c.v
        for a in L.real_arrays():
            for e in range(self.D): yield 'multiples of %d in %s' % (e, a.name), c.forall(0, L.N, lambda q: a[q] == v.d[e] * q, pat=lambda q: [a[q]])
    def post(self, c, r):
        v = c.v
        if not c.native:
            c.check(c.Or(c.isnull(r), c.same(r, v.made)), 'the tensor grid or nothing'); c.no_leak(); return
        if not r: return c.no_leak()
        D = self.D
        G = c.at_struct(r, 'UnstructuredGrid'); n = list(v.n)
        nodes = G.arr('node_coordinates', 'double', D * (n[0] + 1) * (n[1] + 1) * (n[2] + 1 if D == 3 else 1))
        c.no_leak(r, *[G.get(f) for f, _, _ in prop_C05.ARRAYS])
        for m in range(nodes.n // D):
            ix = (m % (n[0] + 1), m // (n[0] + 1) % (n[1] + 1), m // (n[0] + 1) // (n[1] + 1))
            for e in range(D): c.check(c.eq(nodes[D * m + e], ix[e] * v.d[e]), 'node coordinates')
class Cart2(Spaced): fn = 'create_grid_cart2d'
class Hexa3(Spaced): fn, D, callee = 'create_grid_hexa3d', 3, 'create_grid_tensor3d'
class Cart3(Hexa3):
    """unit cells"""
    fn = 'create_grid_cart3d'
    def setup(self, c):
        a = Hexa3.setup(self, c)
        c.v.d = [c.R(1)] * 3
        return a[:3]

SPECS = [Geometry2(), Geometry3(), Layered(), Tensor2(), Tensor3(), TensorLayered(), Cart2(), Hexa3(), Cart3()]
