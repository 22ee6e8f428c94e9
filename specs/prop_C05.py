"""C05: grid allocation and release"""
from dsl import Spec
TU = 'opm/core/grid/grid.c'
ARRAYS = (('node_coordinates', 'double', lambda v: v.nn * v.d), ('face_nodes', 'int', lambda v: v.nfn), ('face_nodepos', 'int', lambda v: v.nf + 1),
          ('face_cells', 'int', lambda v: 2 * v.nf), ('face_centroids', 'double', lambda v: v.nf * v.d), ('face_normals', 'double', lambda v: v.nf * v.d),
          ('face_areas', 'double', lambda v: v.nf), ('cell_faces', 'int', lambda v: v.ncf), ('cell_facetag', 'int', lambda v: v.ncf),
          ('cell_facepos', 'int', lambda v: v.nc + 1), ('cell_centroids', 'double', lambda v: v.nc * v.d), ('cell_volumes', 'double', lambda v: v.nc))

class Empty(Spec):
    """the empty grid"""
    tu, fn, ret, oom, structs = TU, 'create_grid_empty', 'ptr', True, ('UnstructuredGrid',)
    def setup(self, c): return []
    def post(self, c, r):
        def ok():
            G = c.at_struct(r, 'UnstructuredGrid')
            for f in ('dimensions', 'number_of_cells', 'number_of_faces', 'number_of_nodes'): c.check(G.get(f) == 0, f + ' is zero')
            for f in [a for a, _, _ in ARRAYS] + ['global_cell']: c.check(c.isnull(G.get(f)), f + ' is absent')
            c.no_leak(r)
        c.when(c.Not(c.isnull(r)), ok)
        c.when(c.isnull(r), lambda: c.no_leak())
        if c.native and c.nfail == 0: c.check(not c.isnull(r), 'allocation succeeds when memory is available')

class Allocate(Spec):
    """a complete grid or nothing"""
    tu, fn, ret, oom, structs = TU, 'allocate_grid', 'ptr', True, ('UnstructuredGrid',)
    d = 3; samples = 40; path_limit = 20000
    def setup(self, c):
        v = c.v
        v.d = c.I(self.d)
        for n in ('nc', 'nf', 'nfn', 'ncf', 'nn'): setattr(v, n, c.size(n, 0))
        return [('size_t', x) for x in (v.d, v.nc, v.nf, v.nfn, v.ncf, v.nn)]
    def post(self, c, r):
        v = c.v
        def ok():
            G = c.at_struct(r, 'UnstructuredGrid')
            c.check(c.And(G.get('dimensions') == v.d, G.get('number_of_cells') == v.nc, G.get('number_of_faces') == v.nf, G.get('number_of_nodes') == v.nn), 'counts recorded')
            ps = []
            for f, k, n in ARRAYS:
                a = G.arr(f, k, n(v)); ps.append(a)
                c.check(c.Not(c.isnull(a)), f + ' allocated')
                c.check(c.capacity(a, k) >= n(v), 'capacity of ' + f)
            c.check(c.isnull(G.get('global_cell')), 'no index map')
            c.no_leak(r, *ps)
            if c.native: c.check(len({p.addr for p in ps}) == len(ps), 'arrays are distinct')
        c.when(c.Not(c.isnull(r)), ok)
        c.when(c.isnull(r), lambda: c.no_leak())
        if c.native and c.nfail == 0: c.check(not c.isnull(r), 'allocation succeeds when memory is available')

class Destroy(Spec):
    """releases everything, once; absent parts are skipped"""
    tu, fn, structs = TU, 'destroy_grid', ('UnstructuredGrid',)
    part = None; samples = 40
    def setup(self, c):
        v = c.v
        v.n = c.size('n', 1)
        fs = {}
        for i, f in enumerate([a for a, _, _ in ARRAYS] + ['global_cell']):
            if self.part is None or (self.part >> i & 1): fs[f] = c.arr(f, 'int', v.n, heap=True)
            else: fs[f] = c.null()
        v.keep = c.arr('other', 'int', v.n, heap=True)
        v.G = c.struct('G', 'UnstructuredGrid', heap=True, **fs)
        return [v.G]
    def post(self, c, r):
        c.no_leak(c.v.keep, label='everything released')
        c.check(c.alive(c.v.keep), 'nothing else released')

class DestroyNull(Destroy):
    def setup(self, c): return [c.null()]
    def post(self, c, r): c.no_leak()

SPECS = [Empty()]
for d in (1, 2, 3):
    s = Allocate(); s.d = d; s.name = 'Allocate/dim%d' % d; SPECS.append(s)
for p in [None, 0] + [(1 << 13) - 1 - (1 << i) for i in range(13)] + [1 << i for i in range(13)]:
    s = Destroy(); s.part = p; s.name = 'Destroy/' + ('all' if p is None else format(p, '013b')); SPECS.append(s)
SPECS.append(DestroyNull())
