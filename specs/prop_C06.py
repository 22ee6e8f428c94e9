"""C06: reading a grid file"""
from dsl import Spec
TU = 'opm/core/grid/grid.c'

def gen_file(r, d=None, tag=None, idx=None):
    """a grid file: usually consistent, sometimes truncated or inconsistent"""
    d = d if d is not None else r.choice([1, 2, 3, 3, 2, 0, 4, 5, 9])
    nc, nf, nn = r.randint(0, 3), r.randint(0, 4), r.randint(0, 4)
    npos, cpos = [0], [0]
    for _ in range(nf): npos.append(npos[-1] + r.randint(0, 3))
    for _ in range(nc): cpos.append(cpos[-1] + r.randint(0, 4))
    nfn, ncf = npos[-1], cpos[-1]
    bad = r.random()
    if bad < 0.1: nfn = max(0, nfn - r.randint(1, 3))
    elif bad < 0.2: ncf = max(0, ncf - r.randint(1, 3))
    elif bad < 0.25: npos[-1] += r.choice([1, 5, 40])
    elif bad < 0.3: cpos[-1] += r.choice([1, 5, 40])
    elif bad < 0.33: npos[-1] = -1
    elif bad < 0.36: cpos[-1] = -2
    tag = tag if tag is not None else r.randint(0, 1); idx = idx if idx is not None else r.randint(0, 1)
    fl = lambda n: [float(r.randint(-8, 8)) / 2 for _ in range(n)]
    t = [d, nc, nf, nn, nfn, ncf, tag, idx] + [r.randint(1, 9) for _ in range(d)]
    t += fl(d * nn) + npos + [r.randint(0, 9) for _ in range(max(0, npos[-1]))] + [r.randint(-1, 9) for _ in range(2 * nf)] + fl(nf) + fl(d * nf) + fl(d * nf)
    t += cpos + [r.randint(0, 9) for _ in range(max(0, cpos[-1]) * (2 if tag else 1))]
    if idx: t += [r.randint(0, 50) for _ in range(nc)]
    t += fl(nc) + fl(d * nc)
    if bad > 0.85: t = t[:r.randint(0, len(t))]
    elif bad > 0.8: t[r.randrange(len(t))] = 'x'
    return t

class Read(Spec):
    """exactly the data of the file, or failure"""
    tu, fn, ret, oom, structs = TU, 'read_grid', 'ptr', True, ('UnstructuredGrid',)
    d, tag, idx, big = None, None, None, False; samples = 300; overflow = True
    def setup(self, c):
        v = c.v
        v.F = c.file('grid.txt', gen=lambda r: gen_file(r, self.d, self.tag, self.idx))
        T = v.F.tok
        v.F.known = {k: x for k, x in ((0, self.d), (6, self.tag), (7, self.idx)) if x is not None}
        for k, x in v.F.known.items(): c.assume(c.Or(v.F.n <= k, T(k) == x))
        if self.big: c.assume(c.Or(T(0) > 3, v.F.n < 1))
        return [v.F.path]
    def layout(self, c):
        """(field, kind, number, position in the file, step)"""
        T = c.v.F.tok
        d = c.I(self.d) if self.d is not None else T(0)
        nc, nf, nn = T(1), T(2), T(3)
        p = 8 + d
        out = [('node_coordinates', 'double', d * nn, p, 1)]; p = p + d * nn
        out.append(('face_nodepos', 'int', nf + 1, p, 1)); nfn = T(p + nf); p = p + nf + 1
        out.append(('face_nodes', 'int', nfn, p, 1)); p = p + nfn
        out.append(('face_cells', 'int', 2 * nf, p, 1)); p = p + 2 * nf
        out.append(('face_areas', 'double', nf, p, 1)); p = p + nf
        out.append(('face_centroids', 'double', d * nf, p, 1)); p = p + d * nf
        out.append(('face_normals', 'double', d * nf, p, 1)); p = p + d * nf
        out.append(('cell_facepos', 'int', nc + 1, p, 1)); ncf = T(p + nc); p = p + nc + 1
        if self.tag:
            out += [('cell_faces', 'int', ncf, p, 2), ('cell_facetag', 'int', ncf, p + 1, 2)]; p = p + 2 * ncf
        else:
            out.append(('cell_faces', 'int', ncf, p, 1)); p = p + ncf
        if self.idx: out.append(('global_cell', 'int', nc, p, 1)); p = p + nc
        out.append(('cell_volumes', 'double', nc, p, 1)); p = p + nc
        out.append(('cell_centroids', 'double', d * nc, p, 1)); p = p + d * nc
        return out, p
    def inv(self, c, L):
        F = c.v.F
        cur0 = None
        for key in L.mods:
            if key[1] == 'cell' and L.st.mem[key[0]].name == 'FILE':
                x, e = L.st.mem[key[0]].cells[key[2]][1], L.entry_st.mem[key[0]].cells[key[2]][1]
                for s in (1, 2): yield 'cursor %d' % s, x == e + s * L.N
                cur0 = e
        if cur0 is None: return
        for k, A in enumerate(L.int_arrays()):
            yield 'read %d' % k, c.forall(0, L.N, lambda i: A[i] == F.tok(cur0 + i), pat=lambda i: [A[i]])
            if len(L.int_arrays()) == 2:
              for j in (0, 1): yield 'read pairs %d.%d' % (k, j), c.forall(0, L.N, lambda i: A[i] == F.tok(cur0 + 2 * i + j), pat=lambda i: [A[i]])
        for A in L.real_arrays():
            yield 'readr', c.forall(0, L.N, lambda i: A[i] == F.real(cur0 + i), pat=lambda i: [A[i]])
    def post(self, c, r):
        v = c.v; T = v.F.tok
        def ok():
            G = c.at_struct(r, 'UnstructuredGrid')
            reach = [G.arr(f, 'int', 0) for f in ('face_nodes', 'face_nodepos', 'face_cells', 'cell_facepos', 'cell_faces', 'node_coordinates', 'face_centroids', 'face_areas', 'face_normals', 'cell_centroids', 'cell_volumes', 'global_cell', 'cell_facetag')]
            c.no_leak(r, *[a.p for a in reach])
            c.check(c.And(G.get('dimensions') == T(0), G.get('number_of_cells') == T(1), G.get('number_of_faces') == T(2), G.get('number_of_nodes') == T(3)), 'counts of the file')
            if self.d is not None and self.tag is not None:
                lay, end = self.layout(c)
                if c.native: c.check(end <= v.F.n, 'no grid from an incomplete file')
                for f, k, n, p, s in lay:
                    a = G.arr(f, k, n)
                    if f == 'global_cell' and c.native and c.isnull(a): c.check(c.nfail > 0, 'index map read'); continue
                    def body(a=a, k=k, n=n, p=p, s=s, f=f):
                        c.check_all(0, n, lambda i: a[i] == (v.F.real(p + s * i) if k == 'double' else T(p + s * i)), f + ' of the file')
                    c.when(c.Not(c.isnull(a)), body)
                    if f != 'global_cell': c.check(c.Not(c.isnull(a)), f + ' present')
                if not self.tag: c.check(c.isnull(G.get('cell_facetag')), 'no tags')
                if not self.idx: c.check(c.isnull(G.get('global_cell')), 'no index map')
        c.when(c.Not(c.isnull(r)), ok)
        c.when(c.isnull(r), lambda: c.no_leak())
        if c.native and c.nfail == 0 and c.isnull(r) and self.d in (1, 2, 3) and self.tag is not None and 'x' not in v.F.toks and len(v.F.toks) > 8:
            lay, end = self.layout(c)
            n = {f: n for f, _, n, _, _ in lay}
            c.check(not (end <= v.F.n and n['face_nodes'] == T(4) and n['cell_faces'] == T(5)), 'a complete file is read')

SPECS = []
for d in (0, 1, 2, 3, None):
    s = Read(); s.d = d; s.big = d is None; s.name = 'Read/any-dim' + ('4+' if d is None else str(d)); SPECS.append(s)
for d, t, i in ((3, 0, 0), (3, 1, 0), (3, 0, 1), (3, 1, 1), (2, 1, 0), (1, 0, 1)):
    s = Read(); s.d, s.tag, s.idx = d, t, i; s.name = 'Read/dim%d%s%s' % (d, '/tag' if t else '', '/map' if i else ''); SPECS.append(s)
