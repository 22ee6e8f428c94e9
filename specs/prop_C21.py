"""C21: discontinuous Galerkin bases and quadratures"""
from dsl import Spec
from lib import *
TU = 'harness/dg.cpp'
KINDS = ('tot', 'mul')

class Basis(Spec):
    """kind, d (dimension), deg are instances; everything else is arbitrary"""
    tu, structs, samples = TU, ('UnstructuredGrid',), 60
    kind, d, deg, op = 'tot', 1, 1, None
    @property
    def fn(self): return 'h_%s_%s' % (self.kind, self.op)
    @property
    def nb(self): return (1 + self.d if self.kind == 'tot' else 2 ** self.d) if self.deg else 1
    def grid(self, c):
        v, d = c.v, self.d
        v.nc = c.size('nc', 1)
        v.cc = c.arr('cc', 'double', v.nc * d)
        v.cell = c.int('cell', 0, v.nc); c.assume(v.cell < v.nc)
        v.g = c.struct('g', 'UnstructuredGrid', dimensions=d, number_of_cells=v.nc, cell_centroids=v.cc)
        v.c = [v.cc[d * v.cell + k] for k in range(d)]
        return v.g
    def basis(self, x, cc):
        """values of the basis functions at x"""
        if not self.deg: return [1]
        if self.kind == 'tot': return [1] + [x[k] - cc[k] for k in range(self.d)]
        out = []
        for i in range(2 ** self.d):
            p = 1
            for k in range(self.d):
                t = x[k] - cc[k]
                p = p * ((0.5 + t) if (i >> (self.d - 1 - k)) & 1 else (0.5 - t))
            out.append(p)
        return out
    def gradient(self, x, cc):
        """component k of the gradient of function i, at [d*i + k]: the functions are affine in every single
        coordinate, so that the derivative is the exact difference over the unit interval around the point"""
        out = []
        cols = []
        for k in range(self.d):
            hi = [x[j] + 0.5 if j == k else x[j] for j in range(self.d)]
            lo = [x[j] - 0.5 if j == k else x[j] for j in range(self.d)]
            cols.append([a - b for a, b in zip(self.basis(hi, cc), self.basis(lo, cc))])
        return [cols[k][i] for i in range(self.nb) for k in range(self.d)]
    def inv(self, c, L):
        yield from ()

class NumBasis(Basis):
    op, ret = 'nb', 'int'
    def setup(self, c): return [self.grid(c), self.deg]
    def post(self, c, r): c.check(r == self.nb, 'number of basis functions')
class Degree(Basis):
    op, ret = 'deg', 'int'
    def setup(self, c): return [self.grid(c), self.deg]
    def post(self, c, r): c.check(r == self.deg, 'degree reported')
class Dimensions(Basis):
    op, ret = 'dim', 'int'
    def setup(self, c): return [self.grid(c), self.deg]
    def post(self, c, r): c.check(r == self.d, 'dimension reported')

class Eval(Basis):
    op = 'eval'
    def setup(self, c):
        v = c.v
        g = self.grid(c)
        v.x = c.arr('x', 'double', self.d)
        v.f = c.arr('f', 'double', self.nb)
        return [g, self.deg, v.cell, v.x, v.f]
    def post(self, c, r):
        v = c.v
        b = self.basis([v.x[k] for k in range(self.d)], v.c)
        for i in range(self.nb): c.check(c.eq(v.f[i], c.R(b[i])), 'basis function %d' % i)
        c.unchanged(v.cc); c.unchanged(v.x)
        if self.kind == 'mul':
            s = 0
            for i in range(self.nb): s = s + v.f[i]
            c.check(c.eq(s, c.R(1)), 'the functions add up to one')
class Grad(Eval):
    op = 'grad'
    def setup(self, c):
        a = super().setup(c)
        v = c.v
        v.f = c.arr('gf', 'double', self.nb * self.d)
        return a[:4] + [v.f]
    def post(self, c, r):
        v = c.v
        b = self.gradient([v.x[k] for k in range(self.d)], v.c)
        for i in range(self.nb):
            for k in range(self.d): c.check(c.eq(v.f[i * self.d + k], c.R(b[i * self.d + k])), 'derivative of basis function %d in direction %d' % (i, k))
        c.unchanged(v.cc); c.unchanged(v.x)
class Func(Eval):
    op, ret = 'func', 'double'
    def setup(self, c):
        a = super().setup(c)
        v = c.v
        v.co = c.arr('coeff', 'double', self.nb)
        return [a[0], self.deg, v.cell, v.co, v.x]
    def post(self, c, r):
        v = c.v
        b = self.basis([v.x[k] for k in range(self.d)], v.c)
        s = 0
        for i in range(self.nb): s = s + v.co[i] * b[i]
        c.check(c.eq(r, s), 'value of the expansion')
        c.unchanged(v.co); c.unchanged(v.x)

class Coeff(Basis):
    """operations on the coefficients, judged by the function they stand for"""
    def setup(self, c):
        v = c.v
        g = self.grid(c)
        v.co = c.arr('coeff', 'double', self.nb)
        v.o = [v.co[i] for i in range(self.nb)]
        v.a = c.real('a')
        v.t = [c.real('t%d' % k) for k in range(self.d)]          # an arbitrary point of the cell, relative to nothing
        return [g, self.deg, v.a, v.co]
    def value(self, co, x, cc):
        s = 0
        for a, b in zip(co, self.basis(x, cc)): s = s + a * b
        return s
    def slope(self, co, x, cc, k):
        s = 0
        for i, a in enumerate(co): s = s + a * self.gradient(x, cc)[self.d * i + k]
        return s
    def average(self, co, cc):
        """mean over the unit cell (or over any cell with this centroid, for affine functions)"""
        return self.value(co, cc, cc)
class AddConstant(Coeff):
    op = 'add'
    def post(self, c, r):
        v = c.v
        new = [v.co[i] for i in range(self.nb)]
        c.check(c.eq(self.value(new, v.t, v.c), self.value(v.o, v.t, v.c) + v.a), 'the function is shifted by the increment everywhere')
class AddSlope(AddConstant):
    """the rest of the contract, also where the increment is known to be wrong (known_findings.txt)"""
    def post(self, c, r):
        v = c.v
        new = [v.co[i] for i in range(self.nb)]
        for k in range(self.d): c.check(c.eq(self.slope(new, v.t, v.c, k), self.slope(v.o, v.t, v.c, k)), 'the gradient is kept in direction %d' % k)
        dv = self.value(new, v.t, v.c) - self.value(v.o, v.t, v.c)
        c.check(c.Or(c.eq(dv, c.R(v.a)), c.eq(self.nb * dv, c.R(v.a))), 'shifted by the increment, or by its share per function')
class MulGradient(Coeff):
    op = 'mul'
    def post(self, c, r):
        v = c.v
        new = [v.co[i] for i in range(self.nb)]
        for k in range(self.d):
            c.check(c.eq(self.slope(new, v.t, v.c, k), c.R(v.a) * self.slope(v.o, v.t, v.c, k)), 'gradient scaled in direction %d' % k)
        c.check(c.eq(self.average(new, v.c), self.average(v.o, v.c)), 'average kept')
class Average(Coeff):
    op, ret = 'avg', 'double'
    def setup(self, c):
        a = super().setup(c)
        return [a[0], self.deg, a[3]]
    def post(self, c, r):
        v = c.v
        c.check(c.eq(r, self.average(v.o, v.c)), 'average of the function')
        c.unchanged(v.co)

class Refused(Spec):
    """degree or dimension outside the implemented range"""
    tu, structs, throws, ret, samples = TU, ('UnstructuredGrid',), True, 'int', 80
    kind = 'tot'
    @property
    def fn(self): return 'h_%s_nb' % self.kind
    def setup(self, c):
        v = c.v
        v.d = c.int('d', 1, None, gen=lambda r: r.randint(1, 6)); v.deg = c.int('deg', None, None, gen=lambda r: r.randint(-3, 5))
        return [c.struct('g', 'UnstructuredGrid', dimensions=v.d), v.deg]
    def bad(self, c): return c.Or(c.v.d > 3, c.v.deg > 1, c.v.deg < 0)
    def inv(self, c, L): yield from ()
    def post(self, c, r): c.check(c.Not(self.bad(c)), 'degree or dimension that is not implemented is refused')
    def on_throw(self, c): c.check(self.bad(c), 'degrees 0 and 1 in one to three dimensions are accepted')

# ---------------------------------------------------------------------------------------------- quadratures
class Quad(Spec):
    """a grid with explicit node lists; q is the queried entity"""
    tu, structs, samples = TU, ('UnstructuredGrid',), 80
    d, deg, op, ent = 2, 2, None, 'c'
    @property
    def fn(self): return 'h_%sq_%s' % (self.ent, self.op)
    def grid(self, c, minnodes=0):
        v, d = c.v, self.d
        v.nc, v.nf, v.nn = c.size('nc', 1), c.size('nf', 1), c.size('nn', 1)
        v.fpos, v.nhf = monotone(c, 'facepos', v.nc)
        v.npos = c.arr('nodepos', 'int', v.nf + 1, gen=lambda r, m: self.gen_npos(r, m, minnodes))
        v.nfn = c.int('nfn', 0, None, size=True, gen=lambda r: int(v.npos[int(v.nf)]))
        c.assume(v.npos[0] == 0); c.assume(v.npos[v.nf] == v.nfn)
        c.assume(c.forall2(0, v.nf + 1, lambda i, j: v.npos[i] <= v.npos[j], pat=lambda i, j: (v.npos[i], v.npos[j])))
        if minnodes: c.assume(c.forall(0, v.nf, lambda f: v.npos[f + 1] - v.npos[f] >= minnodes if d != 2 else v.npos[f + 1] - v.npos[f] == 2, pat=lambda f: v.npos[f]))
        v.faces = c.arr('faces', 'int', v.nhf, lo=0, hi=v.nf)
        v.nodes = c.arr('nodes', 'int', v.nfn, lo=0, hi=v.nn)
        v.x = c.arr('coords', 'double', v.nn * d)
        v.cc, v.fc = c.arr('cc', 'double', v.nc * d), c.arr('fc', 'double', v.nf * d)
        v.vol, v.area = c.arr('vol', 'double', v.nc), c.arr('area', 'double', v.nf)
        v.g = c.struct('g', 'UnstructuredGrid', dimensions=d, number_of_cells=v.nc, number_of_faces=v.nf, number_of_nodes=v.nn,
                       cell_facepos=v.fpos, cell_faces=v.faces, face_nodepos=v.npos, face_nodes=v.nodes, node_coordinates=v.x,
                       cell_centroids=v.cc, face_centroids=v.fc, cell_volumes=v.vol, face_areas=v.area)
        v.cell, v.face = c.int('cell', 0, v.nc), c.int('face', 0, v.nf)
        c.assume(v.cell < v.nc); c.assume(v.face < v.nf)
        return v.g
    def gen_npos(self, r, m, lo):
        out = [0]
        while len(out) < m: out.append(out[-1] + (2 if self.d == 2 else r.randint(lo, 7)))
        return out
    def node(self, c, i): return [c.v.x[self.d * c.v.nodes[i] + k] for k in range(self.d)]
    def cen(self, c): return [c.v.cc[self.d * c.v.cell + k] for k in range(self.d)]
    def fcen(self, c, f): return [c.v.fc[self.d * f + k] for k in range(self.d)]
    def inv(self, c, L): yield from ()
    def keep(self, c):
        v = c.v
        for a in (v.fpos, v.npos, v.faces, v.nodes, v.x, v.cc, v.fc, v.vol, v.area): c.unchanged(a)
    def tri2(self, c, a, b, p):
        x = (a[0] - p[0]) * (b[1] - p[1]) - (a[1] - p[1]) * (b[0] - p[0])
        return c.abs(x) / 2

class Midpoint(Quad):
    """degrees 0 and 1: the centroid with the full measure"""
    op = 'x'
    def setup(self, c):
        v = c.v
        g = self.grid(c)
        v.out = c.arr('out', 'double', self.d)
        return [g, v.cell if self.ent == 'c' else v.face, self.deg, 0, v.out]
    def post(self, c, r):
        v = c.v
        m = self.cen(c) if self.ent == 'c' else self.fcen(c, v.face)
        for k in range(self.d): c.check(c.eq(v.out[k], m[k]), 'the point is the centroid')
        self.keep(c)
class MidpointW(Midpoint):
    op, ret = 'w', 'double'
    def setup(self, c): return super().setup(c)[:4]
    def post(self, c, r):
        v = c.v
        c.check(c.eq(r, v.vol[v.cell] if self.ent == 'c' else v.area[v.face]), 'the weight is the whole measure')
class MidpointN(Midpoint):
    op, ret = 'n', 'int'
    def setup(self, c): return super().setup(c)[:3]
    def post(self, c, r): c.check(r == 1, 'one point')

class Cell1(Quad):
    """Simpson's rule on an interval"""
    d, op, s = 1, 'x', 0
    def gen_npos(self, r, m, lo): return list(range(m))
    def setup(self, c):
        v = c.v
        g = self.grid(c)
        v.out = c.arr('out', 'double', 1)
        v.lo = v.fpos[v.cell]
        c.assume(v.fpos[v.cell + 1] == v.lo + 2); c.assume(v.lo >= 0); c.assume(v.lo + 2 <= v.nhf)
        return [g, v.cell, 2, self.s, v.out]
    def post(self, c, r):
        v = c.v
        P = [v.fc[v.faces[v.lo]], v.cc[v.cell], v.fc[v.faces[v.lo + 1]]]
        c.check(c.eq(v.out[0], P[self.s]), 'points are end, centre, end')
        self.keep(c)
class Cell1W(Cell1):
    op, ret = 'w', 'double'
    def setup(self, c): return super().setup(c)[:4]
    def post(self, c, r): c.check(c.eq(r, (1.0 / 6.0, 4.0 / 6.0, 1.0 / 6.0)[self.s] * c.v.vol[c.v.cell]), "weights of Simpson's rule")
class Cell1N(Cell1):
    op, ret = 'n', 'int'
    def setup(self, c): return super().setup(c)[:3]
    def post(self, c, r): c.check(r == 3, 'three points')

class Cell2(Quad):
    """the triangle of half-face h: edge midpoints, a third of its area each"""
    d, op = 2, 'x'
    def setup(self, c):
        v = c.v
        g = self.grid(c, 2)
        v.out = c.arr('out', 'double', self.d)
        v.h = c.int('h', 0, None, gen=lambda r: r.randrange(max(1, int(v.fpos[int(v.cell) + 1] - v.fpos[int(v.cell)]))))
        v.s = c.int('s', 0, 3); c.assume(v.s < 3)
        v.hf = v.fpos[v.cell] + v.h
        c.assume(v.hf < v.fpos[v.cell + 1])
        c.assume(v.hf < v.nhf)
        v.f = v.faces[v.hf]
        return [g, v.cell, 2, 3 * v.h + v.s, v.out]
    def post(self, c, r):
        v = c.v
        a, b, m = self.node(c, v.npos[v.f]), self.node(c, v.npos[v.f] + 1), self.cen(c)
        fc = self.fcen(c, v.f)
        for k in range(2):
            c.check(c.Implies(v.s == 0, c.eq(v.out[k], fc[k])), 'point 0 is the midpoint of the edge on the face')
            c.check(c.Implies(v.s == 1, c.eq(2 * v.out[k], m[k] + a[k])), 'point 1 is the midpoint of the edge to the first node')
            c.check(c.Implies(v.s == 2, c.eq(2 * v.out[k], m[k] + b[k])), 'point 2 is the midpoint of the edge to the second node')
        self.keep(c)
class Cell2W(Cell2):
    op, ret = 'w', 'double'
    def setup(self, c): return super().setup(c)[:4]
    def post(self, c, r):
        v = c.v
        a, b, m = self.node(c, v.npos[v.f]), self.node(c, v.npos[v.f] + 1), self.cen(c)
        c.check(c.near(3 * r, self.tri2(c, a, b, m)), 'the weight is a third of the area of the triangle')
class Cell2N(Cell2):
    op, ret = 'n', 'int'
    def setup(self, c): return super().setup(c)[:3]
    def post(self, c, r):
        v = c.v
        c.check(r == 3 * (v.fpos[v.cell + 1] - v.fpos[v.cell]), 'three points per face')

class Cell3(Quad):
    """the tetrahedron of half-face number h of the cell and local node t"""
    d, op, tscale = 3, 'x', 2
    A = 0.138196601125010515179541316563436
    def sums(self, c):
        v = c.v
        v.lo, v.n = v.fpos[v.cell], v.fpos[v.cell + 1] - v.fpos[v.cell]
        c.assume(v.lo >= 0); c.assume(v.n >= 0); c.assume(v.lo + v.n <= v.nhf)
        v.S = c.psum('S', v.n, lambda k: v.npos[v.faces[v.lo + k] + 1] - v.npos[v.faces[v.lo + k]], ret='int')
    def setup(self, c):
        v = c.v
        g = self.grid(c, 1)
        v.out = c.arr('out', 'double', self.d)
        self.sums(c)
        S = v.S
        v.h = c.int('h', 0, None, gen=lambda r: r.randrange(max(1, int(v.n))))
        c.assume(v.h < v.n)
        v.f = v.faces[v.lo + v.h]
        v.nn_ = v.npos[v.f + 1] - v.npos[v.f]
        v.t = c.int('t', 0, None, gen=lambda r: r.randrange(max(1, int(v.nn_))))
        c.assume(v.t < v.nn_)
        v.s = c.int('s', 0, 4); c.assume(v.s < 4)
        c.induct('prefix sums', v.h, lambda k: [('monotone', c.Implies(k <= v.h, c.forall(0, k + 1, lambda j: S(j) <= S(k), pat=lambda j: S(j))))], lambda k: S.unfold(k))
        v.I = S(v.h) + v.t
        return [g, v.cell, 2, 4 * v.I + v.s, v.out]
    def inv(self, c, L):
        v = c.v
        v.S.unfold(L.N)
        yield 'before', L.N <= v.h
        for n, x in L.named_ints: yield 'rest ' + n, x == v.I - v.S(L.N)
    def tet(self, c):
        v = c.v
        b = v.npos[v.f]
        return self.cen(c), self.fcen(c, v.f), self.node(c, b + v.t), self.node(c, b + c.mod(v.t + 1, v.nn_))
    def post(self, c, r):
        v = c.v
        T = self.tet(c)
        a = self.A; z = 1.0 - 3.0 * a
        for k in range(3):
            for s in range(4):
                e = (z if s == 0 else a) * T[0][k]
                for j in range(1, 4): e = e + (z if s == j else a) * T[j][k]
                c.check(c.Implies(v.s == s, c.eq(v.out[k], e)), 'point %d of the tetrahedron of cell centroid, face centroid and two neighbouring nodes' % s)
        self.keep(c)
class Cell3W(Cell3):
    op, ret = 'w', 'double'
    def setup(self, c): return super().setup(c)[:4]
    def post(self, c, r):
        v = c.v
        p, q, a, b = self.tet(c)
        x, y, z = [[w[k] - p[k] for k in range(3)] for w in (q, a, b)]
        det = x[0] * (y[1] * z[2] - z[1] * y[2]) - x[1] * (y[0] * z[2] - z[0] * y[2]) + x[2] * (y[0] * z[1] - z[0] * y[1])
        c.check(c.eq(24 * r, c.abs(det)), 'the weight is a quarter of the volume of the tetrahedron')
class Cell3N(Cell3):
    op, ret = 'n', 'int'
    def setup(self, c):
        g = self.grid(c, 1)
        self.sums(c)
        return [g, c.v.cell, 2]
    def inv(self, c, L):
        v = c.v
        v.S.unfold(L.N)
        for n, x in L.named_ints: yield 'nodes ' + n, x == v.S(L.N)
    def post(self, c, r): c.check(r == 4 * c.v.S(c.v.n), 'four points for every tetrahedron of the cell')

class Face2(Quad):
    """Simpson's rule on an edge"""
    d, ent, op, s = 2, 'f', 'x', 0
    def setup(self, c):
        v = c.v
        g = self.grid(c, 2)
        v.out = c.arr('out', 'double', self.d)
        return [g, v.face, 2, self.s, v.out]
    def post(self, c, r):
        v = c.v
        b = v.npos[v.face]
        P = [self.node(c, b), self.fcen(c, v.face), self.node(c, b + 1)]
        for k in range(2): c.check(c.eq(v.out[k], P[self.s][k]), 'points are end, centre, end')
        self.keep(c)
class Face2W(Face2):
    op, ret = 'w', 'double'
    def setup(self, c): return super().setup(c)[:4]
    def post(self, c, r):
        v = c.v
        a = v.area[v.face]
        c.check(c.eq(r, (1.0 / 6.0, 4.0 / 6.0, 1.0 / 6.0)[self.s] * a), "weights of Simpson's rule")
class Face2N(Face2):
    op, ret = 'n', 'int'
    def setup(self, c): return super().setup(c)[:3]
    def post(self, c, r): c.check(r == 3, 'three points')

class Face3(Quad):
    """triangles of the face centroid and two neighbouring nodes; every edge midpoint carries a third of the
    area of the triangles it belongs to"""
    d, ent, op, outer = 3, 'f', 'x', True
    def setup(self, c):
        v = c.v
        g = self.grid(c, 3)
        v.out = c.arr('out', 'double', self.d)
        v.b, v.n = v.npos[v.face], v.npos[v.face + 1] - v.npos[v.face]
        v.t = c.int('t', 0, None, gen=lambda r: r.randrange(max(1, int(v.n))))
        c.assume(v.t < v.n)
        c.assume(v.b >= 0); c.assume(v.b + v.n <= v.nfn)
        return [g, v.face, 2, v.t if self.outer else v.n + v.t, v.out]
    def around(self, c):
        v = c.v
        nxt, prv = c.mod(v.t + 1 if self.outer else v.n + v.t + 1, v.n), c.mod(v.n + v.t - 1, v.n)
        return [self.node(c, v.b + i) for i in (prv, v.t, nxt)]
    def post(self, c, r):
        v = c.v
        p, m, n = self.around(c)
        q = n if self.outer else self.fcen(c, v.face)
        for k in range(3): c.check(c.eq(2 * v.out[k], m[k] + q[k]), 'midpoint of the edge to the next node' if self.outer else 'midpoint of the edge to the centroid')
        self.keep(c)
class Face3W(Face3):
    op, ret = 'w', 'double'
    def setup(self, c): return super().setup(c)[:4]
    def post(self, c, r):
        v = c.v
        p, m, n = self.around(c)
        f = self.fcen(c, v.face)
        if self.outer: c.check(c.eq(3 * r, self.area(c, m, n, f)), 'a third of the area of the triangle')
        else: c.check(c.eq(3 * r, self.area(c, p, m, f) + self.area(c, m, n, f)), 'a third of the areas of both triangles')
    def area(self, c, a, b, p):
        u, z = [a[k] - p[k] for k in range(3)], [b[k] - p[k] for k in range(3)]
        cr = [u[1] * z[2] - u[2] * z[1], u[2] * z[0] - u[0] * z[2], u[0] * z[1] - u[1] * z[0]]
        return c.sqrt(cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]) / 2
class Face3N(Face3):
    op, ret = 'n', 'int'
    def setup(self, c): return super().setup(c)[:3]
    def post(self, c, r): c.check(r == 2 * c.v.n, 'two points per node')

class QuadRefused(Spec):
    tu, structs, throws, ret, samples = TU, ('UnstructuredGrid',), True, 'int', 80
    ent = 'c'
    @property
    def fn(self): return 'h_%sq_n' % self.ent
    def setup(self, c):
        v = c.v
        v.d = c.int('d', 1, None, gen=lambda r: r.randint(1, 6)); v.deg = c.int('deg', 0, None, gen=lambda r: r.randint(0, 5))
        c.assume(c.Or(v.d > 3, v.deg > 2))
        return [c.struct('g', 'UnstructuredGrid', dimensions=v.d), 0, v.deg]
    def inv(self, c, L): yield from ()
    def post(self, c, r): c.check(False, 'degree or dimension that is not implemented is refused')
    def on_throw(self, c): pass

def build():
    out = []
    def inst(cls, name, **kw):
        s = cls(); s.name = '%s/%s' % (cls.__name__, name)
        for k, x in kw.items(): setattr(s, k, x)
        out.append(s)
    for kind in KINDS:
        for d in (1, 2, 3):
            for deg in (0, 1):
                for cls in (NumBasis, Degree, Dimensions, Eval, Grad, Func, AddConstant, AddSlope, MulGradient, Average):
                    inst(cls, '%s-d%d-deg%d' % (kind, d, deg), kind=kind, d=d, deg=deg)
        inst(Refused, kind, kind=kind)
    for ent in 'cf':
        for d in (1, 2, 3):
            for deg in (0, 1):
                for cls in (Midpoint, MidpointW, MidpointN): inst(cls, '%s-d%d-deg%d' % (ent, d, deg), ent=ent, d=d, deg=deg)
        inst(QuadRefused, ent, ent=ent)
    for cls in (Midpoint, MidpointW, MidpointN): inst(cls, 'f-d1-deg2', ent='f', d=1, deg=2)
    out += [Cell1N(), Cell2(), Cell2W(), Cell2N(), Cell3(), Cell3W(), Cell3N(), Face2N(), Face3N()]
    for o in (True, False):
        for cls in (Face3, Face3W): inst(cls, 'boundary' if o else 'interior', outer=o)
    for k in range(3):
        for cls in (Cell1, Cell1W, Face2, Face2W): inst(cls, 'point%d' % k, s=k)
    return out
SPECS = build()
