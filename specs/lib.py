"""Shared generators of input data structures"""
from dsl import Spec

def monotone(c, name, n, maxstep=2, kind='int', first=0, gen=None):
    """position array of n+1 entries: first = p[0] <= p[1] <= ... <= p[n]; -> (array, total)"""
    def gen_(r, m):
        out = [first]
        while len(out) < m: out.append(out[-1] + r.randint(0, maxstep))
        return out
    gen = gen or gen_
    p = c.arr(name, kind, n + 1, gen=gen)
    c.assume(p[0] == first)
    c.assume(c.forall2(0, n + 1, lambda i, j: p[i] <= p[j], pat=lambda i, j: (p[i], p[j])))
    tot = c.int(name + '_total', 0, None, size=True, gen=lambda r: int(p[int(n)]))
    c.assume(p[n] == tot)
    return p, tot

def owner(c, name, pos, n, total):
    """specification-only array: owner[k] = i for pos[i] <= k < pos[i+1]"""
    def gen(r, m):
        out = [0] * m
        for i in range(int(n)):
            for k in range(int(pos[i]), int(pos[i + 1])):
                if 0 <= k < m: out[k] = i
        return out
    o = c.arr(name, 'int', total, gen=gen)
    c.assume(c.forall(0, total, lambda k: c.And(o[k] >= 0, o[k] < n, pos[o[k]] <= k, k < pos[o[k] + 1]), pat=lambda k: o[k]))
    return o

def owned(c, pos, o, i, k):
    """fact: pos[i] <= k < pos[i+1] implies owner[k] == i (consequence of monotonicity)"""
    return c.Implies(c.And(pos[i] <= k, k < pos[i + 1]), o[k] == i)

def each_np(cls, nps=(1, 2, 3), **kw):
    out = []
    for n in nps:
        s = cls(); s.np = n; s.name = '%s/np%d' % (cls.__name__, n)
        out.append(s)
    return out

def each_dim(cls, ds=(1, 2, 3)):
    out = []
    for d in ds:
        s = cls(); s.d = d; s.name = '%s/dim%d' % (cls.__name__, d)
        out.append(s)
    return out

def grid_cells(c, d, mincells=0, geometry=False, minfaces=1, cover=False):
    """arbitrary grid: cells list their half-faces [facepos[c], facepos[c+1]), half-face k is on face
    faces[k] and belongs to cell own[k]; face f joins fc[2f] and fc[2f+1] (-1: outside).
    -> namespace with nc, nf, nhf, facepos, faces, fc, own, g"""
    from dsl import NS
    G = NS()
    G.nc, G.nf = c.size('nc', mincells), c.size('nf', minfaces)
    def genfc(r, m):
        out = []
        nc = int(G.nc)
        for _ in range(int(G.nf)):
            a, b = r.randrange(nc) if nc else -1, r.randrange(nc) if nc else -1
            if a == b: b = -1
            if r.random() < 0.2: b = -1
            if r.random() < 0.5: a, b = b, a
            out += [a, b]
        return out
    if cover and c.native and int(G.nc) == 0 and int(G.nf) > 0:
        from dsl import Rejected
        raise Rejected('no cell')
    G.fc = c.arr('fc', 'int', 2 * G.nf, gen=genfc)
    def of_cell(i): return [f for f in range(int(G.nf)) if i in (G.fc[2 * f], G.fc[2 * f + 1])]
    def genpos(r, m):
        out = [0]
        for i in range(int(G.nc)): out.append(out[-1] + len(of_cell(i)))
        return out
    G.pos, G.nhf = monotone(c, 'facepos', G.nc, gen=genpos)
    G.own = owner(c, 'own', G.pos, G.nc, G.nhf)
    def genfaces(r, m):
        out = []
        for i in range(int(G.nc)):
            l = of_cell(i); r.shuffle(l); out += l
        return out
    G.faces = c.arr('faces', 'int', G.nhf, gen=genfaces)
    if cover:
        # every face is a face of some cell: half-face first[f] lies on face f
        G.first = c.arr('first', 'int', G.nf, gen=lambda r, m: [G.faces.list().index(f) for f in range(int(m))])
        c.assume(c.forall(0, G.nf, lambda f: c.And(G.first[f] >= 0, G.first[f] < G.nhf, G.faces[G.first[f]] == f), pat=lambda f: G.first[f]))
    c.assume(c.forall(0, G.nhf, lambda k: c.And(G.faces[k] >= 0, G.faces[k] < G.nf), pat=lambda k: G.faces[k]))
    # the cell of a half-face is one of the two cells of its face
    c.assume(c.forall(0, G.nhf, lambda k: c.Or(G.fc[2 * G.faces[k]] == G.own[k], G.fc[2 * G.faces[k] + 1] == G.own[k]), pat=lambda k: (G.faces[k], G.own[k])))
    c.assume(c.forall(0, 2 * G.nf, lambda k: c.And(G.fc[k] >= -1, G.fc[k] < G.nc), pat=lambda k: G.fc[k]))
    c.assume(c.forall(0, G.nf, lambda f: G.fc[2 * f] != G.fc[2 * f + 1], pat=lambda f: (G.fc[2 * f], G.fc[2 * f + 1])))
    f = dict(dimensions=d, number_of_cells=G.nc, number_of_faces=G.nf, cell_facepos=G.pos, cell_faces=G.faces, face_cells=G.fc)
    if geometry:
        G.cc = c.arr('cc', 'double', G.nc * d, gen=lambda r, n: [float(r.randint(-3, 3)) for _ in range(n)])
        G.fcen = c.arr('fcen', 'double', G.nf * d, gen=lambda r, n: [r.randint(-4, 4) + 0.5 for _ in range(n)])
        G.nrm = c.arr('nrm', 'double', G.nf * d); G.vol = c.arr('vol', 'double', G.nc, gen=(lambda r, n: [r.randint(1, 16) / 4 for _ in range(n)]) if geometry == 'positive' else None)
        f.update(cell_centroids=G.cc, face_centroids=G.fcen, face_normals=G.nrm, cell_volumes=G.vol)
    G.g = c.struct('g', 'UnstructuredGrid', **f)
    return G

def own_inv(c, G, L):
    """loop 'for c ... for (; i < pos[c+1]; i++)': i is at the first half-face of cell c"""
    for n, x in L.named_ints:
        yield 'at-cell-start ' + n, x == G.pos[L.N]
