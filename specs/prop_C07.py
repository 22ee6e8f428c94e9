"""C07: topology of Cartesian grids"""
from dsl import Spec, NS
import prop_C05
from cart import Odo, Table, nest_inv
TU = 'opm/core/grid/cart_grid.c'

def strides(rad):
    out, s = [], 1
    for r in rad:
        s = s * r; out.append(s)
    return out

def mutual(c):
    """a consequence of the closed forms, evaluated in native runs: the cells that list a face are the cells it joins"""
    v = c.v; nf = 2 * len(v.n)
    seen = {}
    for m in range(v.nc):
        for q in range(v.cell_facepos[m], v.cell_facepos[m + 1]):
            f, t = v.cell_faces[q], v.cell_facetag[q]
            c.check(v.face_cells[2 * f + 1 - t % 2] == m, 'the face joins the cell that lists it')
            seen[f, t % 2] = seen.get((f, t % 2), 0) + 1
    for f in range(v.nf):
        for s in (0, 1): c.check(seen.get((f, s), 0) == (1 if v.face_cells[2 * f + 1 - s] >= 0 else 0), 'the cells it joins list the face, once')

class Topology3(Spec):
    """every entry of every topology array of a three-dimensional grid"""
    tu, fn, structs, static, opaque_mul, reseed, frames = TU, 'fill_cart_topology_3d', ('UnstructuredGrid',), True, True, True, False
    samples = 60
    def setup(self, c):
        v = c.v
        v.n = [c.size(x, 1) for x in ('nx', 'ny', 'nz')]
        nx, ny, nz = v.n
        Nx, Ny, Nz = nx + 1, ny + 1, nz + 1
        v.nc = nx * ny * nz
        v.nxf, v.nyf, v.nzf = Nx * ny * nz, nx * Ny * nz, nx * ny * Nz
        v.nf = v.nxf + v.nyf + v.nzf
        for a, n in (('cell_faces', 6 * v.nc), ('cell_facetag', 6 * v.nc), ('cell_facepos', v.nc + 1), ('face_nodes', 4 * v.nf), ('face_nodepos', v.nf + 1), ('face_cells', 2 * v.nf)):
            setattr(v, a, c.arr(a, 'int', n))
        v.G = c.struct('G', 'UnstructuredGrid', dimensions=3, cartdims=list(v.n), cell_faces=v.cell_faces, cell_facetag=v.cell_facetag, cell_facepos=v.cell_facepos,
                       face_nodes=v.face_nodes, face_nodepos=v.face_nodepos, face_cells=v.face_cells)
        v.C, v.X, v.Y, v.Z = Odo(c, 'C', [nx, ny]), Odo(c, 'X', [Nx, ny]), Odo(c, 'Y', [nx, Ny]), Odo(c, 'Z', [nx, ny])
        xf = lambda i, j, k: i + Nx * (j + ny * k)
        yf = lambda i, j, k: v.nxf + i + nx * (j + Ny * k)
        zf = lambda i, j, k: v.nxf + v.nyf + i + nx * (j + ny * k)
        cell = lambda i, j, k: i + nx * (j + ny * k)
        node = lambda i, j, k: i + Nx * (j + Ny * k)
        cf = lambda t, g: ('face %d' % t, lambda m: v.cell_faces[6 * m + t] == g(*v.C(m)))
        v.cells = Table('cells', v.C, v.nc, [cf(0, xf), cf(1, lambda i, j, k: xf(i + 1, j, k)), cf(2, yf), cf(3, lambda i, j, k: yf(i, j + 1, k)), cf(4, zf), cf(5, lambda i, j, k: zf(i, j, k + 1))], [(v.cell_faces, c.I(0), 6, False), (v.cell_facepos, c.I(0), 1, 6)])
        def faces(name, odo, base, count, corners, d):
            rows = [('node %d' % q, lambda m, q=q, w=w: v.face_nodes[4 * (base + m) + q] == node(*[a + b for a, b in zip(odo(m), w)])) for q, w in enumerate(corners)]
            def lo(m):
                x = odo(m); y = list(x); y[d] = y[d] - 1
                return v.face_cells[2 * (base + m)] == c.Ite(x[d] == 0, -1, cell(*y))
            def hi(m):
                x = odo(m)
                return v.face_cells[2 * (base + m) + 1] == c.Ite(x[d] == v.n[d], -1, cell(*x))
            return Table(name, odo, count, rows + [('first cell', lo), ('second cell', hi)], [(v.face_nodes, 4 * base, 4, False), (v.face_nodepos, base, 1, 4), (v.face_cells, 2 * base, 2, False)])
        v.tabs = [v.cells, faces('x-faces', v.X, c.I(0), v.nxf, [(0, 0, 0), (0, 1, 0), (0, 1, 1), (0, 0, 1)], 0),
                  faces('y-faces', v.Y, v.nxf, v.nyf, [(0, 0, 0), (0, 0, 1), (1, 0, 1), (1, 0, 0)], 1),
                  faces('z-faces', v.Z, v.nxf + v.nyf, v.nzf, [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], 2)]
        return [v.G]
    def inv(self, c, L):
        v = c.v
        nx, ny, nz = v.n
        yield from nest_inv(c, L, v.tabs)
        if L.writes(v.cell_facetag):
            if len(L.outer) == 0: yield 'tags', c.forall(0, 6 * L.N, lambda q: v.cell_facetag[q] == q % 6)
            if len(L.outer) == 1: yield 'tags inner', c.forall(0, 6 * L.outer[0] + L.N, lambda q: v.cell_facetag[q] == q % 6)
    def post(self, c, r):
        v = c.v
        if c.native: mutual(c)
        c.check_all(0, v.nc + 1, lambda q: v.cell_facepos[q] == 2 * len(v.n) * q, 'cell positions')
        c.check_all(0, v.nf + 1, lambda q: v.face_nodepos[q] == (4 if len(v.n) == 3 else 2) * q, 'face positions')
        for T in v.tabs:
            for l, f in T.rows: c.check_all(0, T.count, f, '%s: %s' % (T.name, l))
        c.check_all(0, 6 * v.nc, lambda q: v.cell_facetag[q] == q % 6, 'tags')

class Topology2(Spec):
    """every entry of every topology array of a two-dimensional grid"""
    tu, fn, structs, static, opaque_mul, reseed, frames = TU, 'fill_cart_topology_2d', ('UnstructuredGrid',), True, True, True, False
    samples = 60
    def setup(self, c):
        v = c.v
        v.n = [c.size(x, 1) for x in ('nx', 'ny')]
        nx, ny = v.n
        Nx, Ny = nx + 1, ny + 1
        v.nc = nx * ny
        v.nxf, v.nyf = Nx * ny, nx * Ny
        v.nf = v.nxf + v.nyf
        for a, n in (('cell_faces', 4 * v.nc), ('cell_facetag', 4 * v.nc), ('cell_facepos', v.nc + 1), ('face_nodes', 2 * v.nf), ('face_nodepos', v.nf + 1), ('face_cells', 2 * v.nf)):
            setattr(v, a, c.arr(a, 'int', n))
        v.G = c.struct('G', 'UnstructuredGrid', dimensions=2, cartdims=list(v.n) + [c.I(1)], cell_faces=v.cell_faces, cell_facetag=v.cell_facetag, cell_facepos=v.cell_facepos,
                       face_nodes=v.face_nodes, face_nodepos=v.face_nodepos, face_cells=v.face_cells)
        v.C, v.X, v.Y = Odo(c, 'C', [nx]), Odo(c, 'X', [Nx]), Odo(c, 'Y', [nx])
        xf = lambda i, j: i + Nx * j
        yf = lambda i, j: v.nxf + i + nx * j
        cell = lambda i, j: i + nx * j
        node = lambda i, j: i + Nx * j
        cf = lambda t, g: ('face %d' % t, lambda m: v.cell_faces[4 * m + t] == g(*v.C(m)))
        v.cells = Table('cells', v.C, v.nc, [cf(0, xf), cf(1, yf), cf(2, lambda i, j: xf(i + 1, j)), cf(3, lambda i, j: yf(i, j + 1))], [(v.cell_faces, c.I(0), 4, False), (v.cell_facepos, c.I(0), 1, 4)])
        def faces(name, odo, base, count, corners, d):
            rows = [('node %d' % q, lambda m, q=q, w=w: v.face_nodes[2 * (base + m) + q] == node(*[a + b for a, b in zip(odo(m), w)])) for q, w in enumerate(corners)]
            def lo(m):
                x = odo(m); y = list(x); y[d] = y[d] - 1
                return v.face_cells[2 * (base + m)] == c.Ite(x[d] == 0, -1, cell(*y))
            def hi(m):
                x = odo(m)
                return v.face_cells[2 * (base + m) + 1] == c.Ite(x[d] == v.n[d], -1, cell(*x))
            return Table(name, odo, count, rows + [('first cell', lo), ('second cell', hi)], [(v.face_nodes, 2 * base, 2, False), (v.face_nodepos, base, 1, 2), (v.face_cells, 2 * base, 2, False)])
        v.tabs = [v.cells, faces('x-faces', v.X, c.I(0), v.nxf, [(0, 0), (0, 1)], 0), faces('y-faces', v.Y, v.nxf, v.nyf, [(1, 0), (0, 0)], 1)]
        return [v.G]
    def inv(self, c, L):
        v = c.v
        nx, ny = v.n
        yield from nest_inv(c, L, v.tabs)
        if L.writes(v.cell_facetag): yield 'tags', c.forall(0, L.N, lambda q: c.And(*[v.cell_facetag[4 * q + t] == w for t, w in enumerate((0, 2, 1, 3))]))
    def post(self, c, r):
        v = c.v
        if c.native: mutual(c)
        c.check_all(0, v.nc + 1, lambda q: v.cell_facepos[q] == 2 * len(v.n) * q, 'cell positions')
        c.check_all(0, v.nf + 1, lambda q: v.face_nodepos[q] == (4 if len(v.n) == 3 else 2) * q, 'face positions')
        for T in v.tabs:
            for l, f in T.rows: c.check_all(0, T.count, f, '%s: %s' % (T.name, l))
        c.check_all(0, v.nc, lambda q: c.And(*[v.cell_facetag[4 * q + t] == w for t, w in enumerate((0, 2, 1, 3))]), 'tags')

class Alloc(Spec):
    """an empty Cartesian grid: counts and storage in closed form, or nothing"""
    ret, oom, structs, static, opaque_mul, samples, path_limit = 'ptr', True, ('UnstructuredGrid',), True, True, 60, 20000
    tu = [TU, 'opm/core/grid/grid.c']; D = 3
    def setup(self, c):
        v = c.v
        v.n = [c.size(x, 1) for x in ('nx', 'ny', 'nz')[:self.D]]
        return list(v.n)
    def post(self, c, r):
        v, D = c.v, c.I(self.D)
        nc, nn, fs = c.I(1), c.I(1), []
        for n in v.n: nc, nn = nc * n, nn * (n + 1)
        for d in range(self.D):
            p = c.I(1)
            for e, n in enumerate(v.n): p = p * (n + 1 if e == d else n)
            fs.append(p)
        nf = sum(fs[1:], fs[0])
        u = NS(); u.d, u.nc, u.nf, u.nn, u.nfn, u.ncf = D, nc, nf, nn, nf * (2 * (self.D - 1)), nc * (2 * self.D)
        def ok():
            G = c.at_struct(r, 'UnstructuredGrid')
            c.check(G.get('dimensions') == D, 'dimension')
            c.check(c.And(G.get('number_of_cells') == nc, G.get('number_of_faces') == nf, G.get('number_of_nodes') == nn), 'numbers of cells, faces and nodes')
            cd = G.member('cartdims', 'int', 3)
            c.check(c.And(*[cd[e] == (v.n[e] if e < self.D else 1) for e in range(3)]), 'cells per direction recorded')
            ps = []
            for f, k, n in prop_C05.ARRAYS:
                a = G.arr(f, k, n(u)); ps.append(a)
                c.check(c.Not(c.isnull(a)), f + ' allocated')
                c.check(c.capacity(a, k) >= n(u), 'capacity of ' + f)
            c.no_leak(r, *ps)
        c.when(c.Not(c.isnull(r)), ok)
        c.when(c.isnull(r), lambda: c.no_leak())
        if c.native and c.nfail == 0: c.check(not c.isnull(r), 'allocation succeeds when memory is available')
class Alloc3(Alloc): fn = 'allocate_cart_grid_3d'
class Alloc2(Alloc): fn, D = 'allocate_cart_grid_2d', 2

SPECS = [Topology2(), Topology3(), Alloc2(), Alloc3()]
