"""Contract language.  The same contract text is evaluated symbolically (to produce
hypotheses and obligations) and natively (to replay inputs against the compiled code)."""
import z3, random, ctypes, contextlib, math, struct as _struct
import terms
from terms import mkforall, P, R, Ptr, NULL, fresh_int, fresh_real, fresh_array, fresh_name

ELSZ = {'int': 4, 'uint': 4, 'long': 8, 'size_t': 8, 'double': 8, 'char': 1, 'bool': 1, 'float': 4, 'enum': 4, 'ptr': 8}
def sortk(kind): return 'real' if kind in ('double', 'float') else 'int'

class Rejected(Exception): pass
class CheckFailed(Exception): pass

class Spec:
    """one function contract"""
    name = None
    tu = None            # source file(s) under /repo, or harness file under /verif/harness
    fn = None            # function symbol
    ret = 'void'
    oom = False
    strict = True
    samples = 60
    inline_ok = True
    throws = False       # may the function throw on inputs satisfying setup?
    budget = 200
    def setup(self, c): raise NotImplementedError
    def post(self, c, r): pass
    def handlers(self): return {}

# ------------------------------------------------------------------ symbolic
class SymArr:
    def __init__(self, c, p, kind, n, name, col=0, stride=None):
        self.c, self.p, self.kind, self.n, self.name, self.col, self.stride = c, p, kind, n, name, col, stride or ELSZ[kind]
    def at(self, st, i):
        r = st.mem[self.p.rid]
        k = sortk(self.kind)
        off = self.p.off.divexact(self.stride)
        if off is None: off = P.of(terms.idiv(self.p.off, P.of(self.stride)))
        i = off + P.of(i)
        if r.kind == 'cells':
            ic = i.const
            if ic is not None:
                c = r.cells.get(ic * self.stride + self.col)
                if c is not None: return c[1]
                if r.zero: return R.of(0) if k == 'real' else P.of(0)
            v = self.c._cellarr(st, self.p.rid, k, self.stride, self.col)
            return terms.sel(v, i, k)
        if r.kind == 'untyped' or self.col not in r.cols:
            if r.zero: return R.of(0) if k == 'real' else P.of(0)
            a = self.c._untyped(self.p.rid, k, self.col)
            return terms.sel(a, i, k)
        return terms.sel(r.cols[self.col][2], i, k)
    def z3arr(self, st=None):
        return (st or self.c.st).mem[self.p.rid].cols[self.col][2]
    def __getitem__(self, i): return self.at(self.c.st, i)
    @property
    def ptr(self): return self.p

class OldView:
    def __init__(self, st, a): self.st, self.a = st, a
    def __getitem__(self, i): return self.a.at(self.st, i)
    @property
    def n(self): return self.a.n

class SymStruct:
    def __init__(self, c, p, cname):
        self.c, self.p, self.cname = c, p, cname
        self.f = c.ex.mod.struct_fields(cname)
        if self.f is None: 
            from exec import Unsupported
            raise Unsupported('no debug info for struct %s' % cname)
    def at(self, st, fld):
        off, sz, ty = self.f[fld]
        r = st.mem[self.p.rid]
        c = r.cells.get(off + self.p.off.const)
        if c is not None: return c[1]
        if r.zero:
            if ty.endswith('*'): return NULL
            return R.of(0) if ty in ('double',) else P.of(0)
        v = self.c._lazy_cell(self.p.rid, off + self.p.off.const, ty)
        return v
    def get(self, fld): return self.at(self.c.st, fld)
    def ptrf(self, fld): return self.at(self.c.st, fld)
    def arr(self, fld, kind, n): return SymArr(self.c, self.get(fld), kind, n, fld)
    def member(self, fld, kind, n): return SymArr(self.c, Ptr(self.p.rid, self.p.off + self.f[fld][0]), kind, n, fld)
    def sub(self, fld, cname): return SymStruct(self.c, Ptr(self.p.rid, self.p.off + self.f[fld][0]), cname)
    @property
    def ptr(self): return self.p

class SymSlot:
    def __init__(self, c, rid, idx):
        self.c, self.rid = c, rid
        self.p = self.ptr = Ptr(rid, idx * -8)
    def get(self):
        st = self.c.st
        return st.mem[self.rid].cells[0][1]

class OldStruct:
    def __init__(self, st, s): self.st, self.s = st, s
    def get(self, fld): return self.s.at(self.st, fld)
    def arr(self, fld, kind, n): return OldView(self.st, SymArr(self.s.c, self.get(fld), kind, n, fld))

class NS: pass

class SymCtx:
    native = False
    def __init__(self, ex, bounded=None):
        self.ex = ex
        self.inputs = []       # (name, 'int'|'real'|'arr', value...)
        self.v = NS()
        self.st = None; self.st0 = None; self.view_ = None
        self.bounded = bounded      # dict-like chooser of sizes
        self._ut = {}
        self._where = None
        self.tier = 'quick'

    And, Or, Not, Implies, Iff, Ite = map(staticmethod, (terms.And, terms.Or, terms.Not, terms.Implies, terms.Iff, terms.Ite))
    def R(self, x): return R.of(x)
    def I(self, x): return P.of(x)
    def eq(self, a, b): return a == b
    def near(self, a, b, tol=None): return a == b
    def le(self, a, b): return a <= b
    def sqrt(self, x):
        import models
        r = R(z3.Function('sqrt', z3.RealSort(), z3.RealSort())(models.som(R.of(x).z3())))
        self.st.assume(terms.Implies(R.of(x) >= 0, terms.And(r >= 0, r * r == x)))
        return r
    def max(self, a, b): return terms.Ite(a >= b, a, b)
    def min(self, a, b): return terms.Ite(a <= b, a, b)
    def abs(self, a): return terms.Ite(a >= 0, a, -a)
    def div(self, a, b): return terms.idiv(P.of(a), P.of(b))
    def mod(self, a, b): return terms.imod(P.of(a), P.of(b))
    def cdiv(self, a, b): return terms.cdiv(P.of(a), P.of(b))
    def div_facts(self, *abs):
        for a, b in abs: self.st.assume(terms.div_facts(a, b))
    def isnull(self, p):
        if isinstance(p, (SymArr, SymStruct)): p = p.p
        return self.ex.ptr_null(p)
    def same(self, p, q):
        p = p.p if isinstance(p, (SymArr, SymStruct)) else p; q = q.p if isinstance(q, (SymArr, SymStruct)) else q
        if p.isnull or q.isnull: return terms.And(self.isnull(p), self.isnull(q))
        return terms.And(p.rid == q.rid, p.off == q.off) if p.rid == q.rid else False

    @contextlib.contextmanager
    def at(self, st, view=None):
        o = (self.st, self.view_)
        self.st, self.view_ = st, view
        try: yield
        finally: self.st, self.view_ = o

    # ---- inputs
    def int(self, name, lo=None, hi=None, size=False, gen=None):
        if self.bounded is not None and (size or (lo is not None and hi is not None and size)):
            v = P.of(self.bounded(name, lo, hi))
            self.inputs.append((name, 'int', v)); return v
        if lo is not None and hi is not None and lo == hi: v = P.of(lo)
        else:
            v = P.of(z3.Int(name))
            if lo is not None:
                self.st.assume(v >= lo)
                if lo >= 0: self.ex.nonneg_atoms[v.z3().get_id()] = v.z3()
            if hi is not None: self.st.assume(v <= hi)
        self.inputs.append((name, 'int', v))
        return v
    def size(self, name, lo=0, hi=None, gen=None): return self.int(name, lo, hi, size=True)
    def choose(self, name, lo, hi):
        """small enumerated integer"""
        return self.int(name, lo, hi)
    def real(self, name, lo=None, hi=None, gen=None):
        v = R(z3.Real(name))
        if lo is not None: self.st.assume(v >= lo)
        if hi is not None: self.st.assume(v <= hi)
        self.inputs.append((name, 'real', v))
        return v
    def boolean(self, name):
        v = P.of(z3.Int(name)); self.st.assume(terms.And(v >= 0, v <= 1))
        self.inputs.append((name, 'int', v)); return v
    def arr(self, name, kind, n, gen=None, heap=False, lo=None, hi=None, null_if_empty=False):
        from exec import Reg
        n = P.of(n)
        k, sz = sortk(kind), ELSZ[kind]
        reg = Reg(name, 'arr', n * sz, heap=heap)
        reg.stride = sz
        a = z3.Array(name, z3.IntSort(), z3.RealSort() if k == 'real' else z3.IntSort())
        reg.cols[0] = (sz, k, a)
        rid = self.ex.region(self.st, reg)
        A = SymArr(self, Ptr(rid), kind, n, name)
        self.inputs.append((name, 'arr', A, a))
        if lo is not None or hi is not None:
            self.st.assume(self.forall(0, n, lambda i: self.And(True if lo is None else A[i] >= lo, True if hi is None else A[i] < hi if k == 'int' else A[i] <= hi)))
        return A
    def ptrs(self, name, base, pos, n, null=None):
        """table of n pointers: entry i points at base[pos[i]], its block ends at base[pos[i+1]]
        (null: entries i with null[i] != 0 are null pointers)"""
        from exec import Reg
        n = P.of(n)
        reg = Reg(name, 'arr', n * 8); reg.stride = 8
        reg.cols[0], reg.tgt = self.ptrcol(name, base, pos, n)
        return SymArr(self, Ptr(self.ex.region(self.st, reg)), 'ptr', n, name)
    def ptrcol(self, name, base, pos, n, col=0):
        # column content: the element index; a block is identified by the index of its first element
        S = ELSZ[base.kind]
        a = pos.z3arr()
        nxt = z3.Function(fresh_name(name + '_end'), z3.IntSort(), z3.IntSort())
        q = z3.Int(fresh_name('q')); qp = P.of(q)
        t = pos[qp]
        self.st.assume(mkforall([q], z3.Implies(z3.And(q >= 0, q < n.z3()), nxt(t.z3()) >= pos[qp + 1].z3()), [(t,)]))
        self.st.assume(mkforall([q], z3.Implies(z3.And(q >= 0, q < n.z3(), pos[qp].z3() < pos[qp + 1].z3()), nxt(t.z3()) == pos[qp + 1].z3()), [(t,)]))
        lim = lambda k: (k * S, P.of(nxt(k.z3())) * S)
        return (8, 'ptr', a), {col: (base.p.rid, S, lim, True)}
    def pool(self, name, cname, n, table=True, **fields):
        """n structures; fields: array of n values (scalars), or (base, pos) for pointers into base at pos[i].
        -> object with .col(field) (array view), .tab (table of pointers to the structures), .ptr (first structure)"""
        from exec import Reg, Unsupported
        f = self.ex.mod.struct_fields(cname)
        if f is None: raise Unsupported('no debug info for struct %s' % cname)
        n = P.of(n); S = self.struct_size(cname, f)
        reg = Reg(name, 'arr', n * S); reg.stride = S; reg.tgt = {}
        kinds = {}
        for k, v in fields.items():
            if k not in f: raise Unsupported('struct %s has no field %s' % (cname, k))
            off, sz, ty = f[k]
            if isinstance(v, tuple):
                reg.cols[off], t = self.ptrcol(name + '_' + k, v[0], v[1], n, off); reg.tgt.update(t)
            else:
                reg.cols[off] = (sz, sortk(v.kind), v.z3arr()); kinds[k] = v.kind
        rid = self.ex.region(self.st, reg)
        o = NS()
        o.col = lambda fld: SymArr(self, Ptr(rid), kinds[fld], n, fld, f[fld][0], S)
        o.ptr = o.p = Ptr(rid)
        if table:
            t = Reg(name + '_tab', 'arr', n * 8); t.stride = 8
            ident = z3.Array(fresh_name(name + '_id'), z3.IntSort(), z3.IntSort())
            q = z3.Int(fresh_name('q'))
            self.st.assume(mkforall([q], z3.Select(ident, q) == q, [(z3.Select(ident, q),)]))
            t.cols[0] = (8, 'ptr', ident); t.tgt = {0: (rid, S, None, True)}
            o.tab = SymArr(self, Ptr(self.ex.region(self.st, t)), 'ptr', n, name + '_tab')
        return o
    def null(self): return NULL
    def family(self, name, cname):
        """ghost allocator: structures handed out one by one at increasing index -> object with .rid, .S, .count(), .live, .col(field)"""
        from exec import Reg
        f = self.ex.mod.struct_fields(cname) if cname else {}
        S = self.struct_size(cname, f) if cname else 8
        reg = Reg(name, 'arr', None); reg.stride = S
        for k, (off, sz, ty) in f.items():
            if not ty.endswith('*'): reg.cols[off] = (sz, sortk('double' if ty == 'double' else 'int'), z3.Array(fresh_name(name + '_' + k), z3.IntSort(), z3.RealSort() if ty == 'double' else z3.IntSort()))
        o = NS(); o.rid = self.ex.region(self.st, reg); o.S = S; o.f = f
        o.col = lambda fld: SymArr(self, Ptr(o.rid), 'int', None, fld, f[fld][0], S)
        lr = Reg(name + '_live', 'arr', None); lr.stride = 8; lr.cols[0] = (8, 'int', z3.Array(fresh_name(name + '_live'), z3.IntSort(), z3.IntSort()))
        o.lrid = self.ex.region(self.st, lr); reg.fam = o.lrid; o.live = SymArr(self, Ptr(o.lrid), 'size_t', None, name + '_live')
        gr = Reg(name + '_count', 'cells', P.of(8)); n0 = P.of(z3.Int(name + '_made')); self.st.assume(n0 >= 0)
        gr.cells[0] = (8, n0); o.grid, o.n0 = self.ex.region(self.st, gr), n0
        o.count = lambda: self.st.mem[o.grid].cells[0][1]
        return o
    def table(self, name, n, tgt, S, heap=True, nullable=True):
        """table of n pointers into region tgt (element size S), as an array of element numbers (-1: null)"""
        from exec import Reg
        n = P.of(n)
        reg = Reg(name, 'arr', n * 8, heap=heap); reg.stride = 8
        reg.cols[0] = (8, 'ptr', z3.Array(fresh_name(name), z3.IntSort(), z3.IntSort()))
        reg.tgt = {0: (tgt, S, None, not nullable)}
        return SymArr(self, Ptr(self.ex.region(self.st, reg)), 'ptr', n, name)
    def slot(self, name, idx, n, ptr):
        """table of n pointers of which the function may touch entry idx only (its footprint); -> pointer to the table"""
        from exec import Reg
        if isinstance(ptr, (SymArr, SymStruct)): ptr = ptr.p
        reg = Reg(name, 'cells', P.of(8)); reg.cells[0] = (8, ptr)
        return SymSlot(self, self.ex.region(self.st, reg), P.of(idx))
    def cstr(self, name, s='abc'):
        from exec import Reg
        reg = Reg(name, 'opaque', None)
        return Ptr(self.ex.region(self.st, reg))
    def text(self, name):
        """any zero-terminated string"""
        n = self.int(name + '_len', 0, None)
        a = self.arr(name, 'char', n + 1)
        self.assume(a[n] == 0)
        self.assume(self.forall(0, n, lambda k: a[k] != 0, pat=lambda k: a[k]))
        self.st.mem[a.p.rid].weak = False
        self.texts = getattr(self, 'texts', {}); self.texts[a.p.rid] = n
        self.ex.texts = self.texts
        a.len = n
        return a
    def same_text(self, p, t):
        """the string at p equals text t"""
        a = SymArr(self, p, 'char', t.len + 1, 'text')
        self.check_all(0, t.len + 1, lambda k: a[k] == t[k], 'string copied')
    def file(self, name, gen=None):
        """text file: a finite sequence of numbers; -> object with .path, .n, .tok (integers), .real"""
        F = NS(); F.path = self.opaque(name)
        self.st.mem[F.path.rid].owner = 'file'
        F.n = P.of(z3.Int(name + '_ntok')); self.st.assume(F.n >= 0)
        ti, tr = z3.Function(name + '_tok', z3.IntSort(), z3.IntSort()), z3.Function(name + '_real', z3.IntSort(), z3.RealSort())
        F.tok = lambda i: P.of(ti(P.of(i).z3()))
        F.real = lambda i: R(tr(P.of(i).z3()))
        self.files = getattr(self, 'files', {}); self.files[F.path.rid] = F
        return F
    def opaque(self, name):
        from exec import Reg
        return Ptr(self.ex.region(self.st, Reg(name, 'opaque', None)))
    def struct(self, name, cname, /, heap=False, **fields):
        from exec import Reg, Unsupported
        f = self.ex.mod.struct_fields(cname)
        if f is None: raise Unsupported('no debug info for struct %s' % cname)
        size = self.struct_size(cname, f)
        reg = Reg(name, 'cells', P.of(size), heap=heap, lazy='havoc')
        for k, v in fields.items():
            if k not in f: raise Unsupported('struct %s has no field %s' % (cname, k))
            off, sz, ty = f[k]
            if isinstance(v, list):      # array member
                for j, x in enumerate(v): reg.cells[off + j * (sz // len(v))] = (sz // len(v), P.of(x) if isinstance(x, int) else x)
                continue
            if isinstance(v, (SymArr, SymStruct, SymSlot)): v = v.p
            if isinstance(v, int): v = P.of(v)
            if ty in ('double',) and not isinstance(v, R): v = R.of(v)
            reg.cells[off] = (sz, v)
        rid = self.ex.region(self.st, reg)
        return SymStruct(self, Ptr(rid), cname)
    def struct_size(self, cname, f):
        for pre in ('struct.', 'class.'):
            t = self.ex.mod.types.get(pre + cname)
            if t is not None: return self.ex.mod.size(t)
        return max(o + s for o, s, _ in f.values())
    def at_struct(self, p, cname): return SymStruct(self, p, cname)
    def view(self, p, kind, n): return SymArr(self, p, kind, n, 'view')
    def assume(self, cond): self.st.assume(cond)

    def forall(self, lo, hi, f, pat=None):
        lo, hi = P.of(lo), P.of(hi)
        if lo.const is not None and hi.const is not None and hi.const - lo.const <= 12:
            return terms.And(*[f(P.of(i)) for i in range(lo.const, hi.const)])
        q = z3.Int(fresh_name('q'))
        qp = P.of(q)
        body = f(qp)
        if body is True: return True
        b = terms.Implies(terms.And(lo <= qp, qp < hi), body)
        if b is False: return False
        b = terms.bz(b)
        if pat is not None:
            ps = pat(qp)
            ps = ps if isinstance(ps, (list, tuple)) else [ps]
            return mkforall([q], b, [pp if isinstance(pp, tuple) else (pp,) for pp in ps])
        return z3.ForAll([q], b)
    def forall2(self, lo, hi, f, pat=None):
        """for lo <= i <= j < hi"""
        lo, hi = P.of(lo), P.of(hi)
        if lo.const is not None and hi.const is not None and hi.const - lo.const <= 8:
            return terms.And(*[f(P.of(i), P.of(j)) for i in range(lo.const, hi.const) for j in range(i, hi.const)])
        q, r = z3.Int(fresh_name('q')), z3.Int(fresh_name('r'))
        qp, rp = P.of(q), P.of(r)
        b = terms.bz(terms.Implies(terms.And(lo <= qp, qp <= rp, rp < hi), f(qp, rp)))
        if pat is not None:
            ps = pat(qp, rp)
            return mkforall([q, r], b, [tuple(ps)])
        return z3.ForAll([q, r], b)
    def exists(self, lo, hi, f, pat=None):
        lo, hi = P.of(lo), P.of(hi)
        if lo.const is not None and hi.const is not None and hi.const - lo.const <= 12:
            return terms.Or(*[f(P.of(i)) for i in range(lo.const, hi.const)])
        q = z3.Int(fresh_name('e')); qp = P.of(q)
        b = terms.bz(terms.And(lo <= qp, qp < hi, f(qp)))
        if pat is not None:
            z = lambda t: t.z3() if hasattr(t, 'z3') else t
            return z3.Exists([q], b, patterns=[z(t) for t in pat(qp)])
        return z3.Exists([q], b)
    def rawforall(self, nvars, f, pat):
        qs = [z3.Int(fresh_name('q')) for _ in range(nvars)]
        qp = [P.of(q) for q in qs]
        b = terms.bz(f(*qp))
        if isinstance(b, bool) or z3.is_true(b): return True
        ps = pat(*qp)
        return mkforall(qs, b, [tuple(ps)])

    # ---- states
    def old(self, a):
        if isinstance(a, SymArr): return OldView(self.st0, a)
        if isinstance(a, SymStruct): return OldStruct(self.st0, a)
        return a
    def entry(self, a):
        st = self.view_.entry_st
        if isinstance(a, SymArr): return OldView(st, a)
        return OldStruct(st, a)
    def unchanged(self, a, label=None):
        """array content equals its initial content (checked as obligation)"""
        z0 = self.st0.mem[a.p.rid].cols.get(a.col); z1 = self.st.mem[a.p.rid].cols.get(a.col)
        if z0 is not None and z1 is not None and z0[2].get_id() == z1[2].get_id(): 
            self.ex.trivial += 1; return
        self.check_all(0, a.n, lambda i: a[i] == self.old(a)[i], label or ('unchanged ' + a.name))
    def _lazy_cell(self, rid, off, ty):
        k = ('c', rid, off)
        if k not in self._ut:
            self._ut[k] = fresh_real('uninit') if ty == 'double' else (Ptr('undef') if ty.endswith('*') else fresh_int('uninit'))
        return self._ut[k]
    def _untyped(self, rid, k, col):
        key = (rid, k, col)
        if key not in self._ut: self._ut[key] = fresh_array('uninit', k)
        return self._ut[key]
    def _cellarr(self, st, rid, k, stride, col):
        r = st.mem[rid]
        a = self._untyped(rid, k, col)
        for off, (s, v) in r.cells.items():
            if off % stride == col: a = z3.Store(a, z3.IntVal(off // stride), v.z3())
        return a

    # ---- obligations
    def check(self, cond, label):
        self.ex.oblige(self.st, 'post: ' + label, cond, where=self._where)
    def check_all(self, lo, hi, f, label, hint=None):
        lo, hi = P.of(lo), P.of(hi)
        if lo.const is not None and hi.const is not None and hi.const - lo.const <= 12:
            for i in range(lo.const, hi.const): self.check(f(P.of(i)), label)
            return
        k = fresh_int('sk')
        st = self.st.fork()
        st.assume(terms.And(lo <= k, k < hi))
        with self.at(st, self.view_):
            if hint: 
                for h in hint(k):
                    if h is not None: self.lemma(h)
            self.ex.oblige(st, 'post: ' + label, f(k), where=self._where)
    def each(self, lo, hi, body):
        """run body(k) for an arbitrary k in [lo,hi); checks made inside are for all k"""
        lo, hi = P.of(lo), P.of(hi)
        if lo.const is not None and hi.const is not None and hi.const - lo.const <= 12:
            for i in range(lo.const, hi.const): body(P.of(i))
            return
        k = fresh_int('sk')
        st = self.st.fork()
        st.assume(terms.And(lo <= k, k < hi))
        with self.at(st, self.view_): body(k)
    def when(self, cond, body):
        """run body() under the hypothesis cond"""
        if cond is False: return
        st = self.st.fork(); st.assume(cond)
        if not self.ex.feasible(st): return
        with self.at(st, self.view_): body()
    def lemma(self, cond):
        """prove cond here, then use it"""
        self.ex.oblige(self.st, 'lemma', cond, where=self._where)
    def define(self, cond):
        """a definitional fact about a ghost (uninterpreted) function: assumed"""
        self.st.assume(cond)
    def ghost(self, name, *sorts, ret='real'):
        f = z3.Function(name, *([z3.IntSort()] * len(sorts) if sorts else [z3.IntSort()]), z3.RealSort() if ret == 'real' else z3.IntSort())
        wrap = R if ret == 'real' else P.of
        return lambda *a: wrap(f(*[P.of(x).z3() for x in a]))
    def mark(self, name, trigger=False):
        """arbitrary predicate used only to steer quantifier instantiation (true in native runs)"""
        f = z3.Function(fresh_name(('trig_' if trigger else 'mark_') + name), z3.IntSort(), z3.BoolSort())
        return lambda i: f(P.of(i).z3())
    def psum(self, name, n, f, lo=0, ret='int'):
        return SymSum(self, name, n, f, lo, ret)
    def array_sum(self, a, n):
        """prefix sums of an array's current contents; std::accumulate and std::partial_sum over it return them"""
        S = self.psum('sum_' + a.name, n, lambda k: a[k], ret='real' if a.kind == 'double' else 'int')
        r = self.st.mem[a.p.rid]
        self.ex.sums.append((a.p.rid, r.cols[a.col][2] if a.col in r.cols else None, S))
        return S
    def pigeonhole(self, a, n, m):
        """n distinct values in [0, m) need n <= m (lemma by induction on m, proved as two obligations); used for the current contents of a"""
        A = z3.ArraySort(z3.IntSort(), z3.IntSort())
        i, j, n_ = z3.Ints('i!ph j!ph n!ph')
        def hyp(a, n, m): return z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= a[i], a[i] < m)), patterns=[a[i]]),
                                        z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), a[i] != a[j]), patterns=[z3.MultiPattern(a[i], a[j])]))
        if not getattr(self.ex, 'pigeon', False):
            self.ex.pigeon = True
            b, k, x, w = z3.Const('a!ph', A), z3.Int('k!ph'), z3.Int('m!ph'), z3.Int('w!ph')
            st = self.st.fork(); st.pc = []
            # induction hypothesis for m, used for the array itself and with the cell of value m overwritten by the last one
            st.assume(x >= 0); st.assume(hyp(b, k, x + 1)); st.assume(z3.Or(z3.And(0 <= w, w < k, b[w] == x), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), b[i] != x), patterns=[b[i]])))
            c2 = z3.Store(b, w, b[k - 1])
            d = z3.Const('d!ph', A); st.assume(d == c2)
            st.assume(z3.Implies(hyp(b, k, x), k <= x)); st.assume(z3.Implies(hyp(d, k - 1, x), k - 1 <= x))
            self.ex.oblige(st, 'lemma: pigeonhole (step)', k <= x + 1, where=self._where)
            st = self.st.fork(); st.pc = []
            st.assume(hyp(b, k, z3.IntVal(0))); st.assume(b[0] == x)
            self.ex.oblige(st, 'lemma: pigeonhole (start)', k <= 0, where=self._where)
        z = a.z3arr()
        self.st.assume(z3.Implies(hyp(z, P.of(n).z3(), P.of(m).z3()), P.of(n).z3() <= P.of(m).z3()))
    def induct(self, label, hi, facts, unfold):
        """lemma by induction: facts(0), and facts(k) implies facts(k+1); facts(hi) is then assumed (hi >= 0)"""
        k, hi = fresh_int('k'), P.of(hi)
        def prove(n, st, how):
            with self.at(st):
                for l, f in facts(n):
                    if f is not True: self.ex.oblige(st, 'lemma: %s: %s (%s)' % (label, l, how), f, where=self._where)
        st = self.st.fork()
        prove(P.of(0), st, 'start')
        st = self.st.fork()
        with self.at(st):
            st.assume(terms.And(k >= 0, k < hi)); unfold(k)
            for l, f in facts(k): st.assume(f)
        prove(k + 1, st, 'step')
        for l, f in facts(hi): self.st.assume(f)
    def sum2(self, name, f, lo=lambda i: 0, ret='real'): return SymSum2(self, name, f, lo, ret)
    def fun(self, name, arity, f, ret='real'): return SymFun(self, name, arity, f, ret)
    def live_heap(self):
        return [(rid, r) for rid, r in self.st.mem.items() if r.heap and r.alive]
    def no_leak(self, *reach, label='no memory leaked'):
        """every live heap region allocated by the call is one of reach"""
        rs = set()
        for p in reach:
            if isinstance(p, (SymArr, SymStruct)): p = p.p
            if isinstance(p, Ptr) and not p.isnull: rs.add(p.rid)
        self.ex.trivial += 1     # regions freed on every path need no obligation
        for rid, r in self.live_heap():
            if rid in rs: continue
            self.ex.oblige(self.st, 'post: ' + label, r.nullc if r.nullc is not False else False, where=self._where)
    def alive(self, p):
        p = p.p if isinstance(p, (SymArr, SymStruct)) else p
        if p.isnull: return False
        return self.st.mem[p.rid].alive
    def offset(self, p, base, kind):
        """number of elements from base to p (same object), -1 otherwise"""
        p = p.p if isinstance(p, (SymArr, SymStruct)) else p; base = base.p if isinstance(base, (SymArr, SymStruct)) else base
        if p.isnull or base.isnull or p.rid != base.rid: return P.of(-1)
        d = (p.off - base.off).divexact(ELSZ[kind])
        return d if d is not None else P.of(-1)
    def capacity(self, p, kind):
        """number of elements the object behind p can hold"""
        p = p.p if isinstance(p, (SymArr, SymStruct)) else p
        if p.isnull: return P.of(0)
        r = self.st.mem[p.rid]
        if r.size is None: return fresh_int('cap')
        return terms.idiv(r.size, P.of(ELSZ.get(kind, 1)))

class SymSum:
    """ghost prefix sum S(lo)=0, S(k+1)=S(k)+f(k), f read in the state where it was created"""
    def __init__(self, c, name, n, f, lo, ret):
        self.c, self.f, self.n, self.lo, self.ret = c, f, n, P.of(lo), ret
        self.g = z3.Function(fresh_name('S_' + name), z3.IntSort(), z3.RealSort() if ret == 'real' else z3.IntSort())
        self.st = c.st.fork()
        c.st.assume(self(self.lo) == 0)
        # the defining recurrence, triggered by S(k+1)... instantiated explicitly through unfold
    def __call__(self, k):
        e = self.g(P.of(k).z3())
        return R(e) if self.ret == 'real' else P.of(e)
    def unfold(self, *ks):
        for k in ks:
            k = P.of(k)
            with self.c.at(self.st): v = self.f(k)
            self.c.st.assume(self(k + 1) == self(k) + v)
    def nondecreasing(self, hi):
        """lemma by induction: if no term is negative the sums never decrease on [lo, hi]"""
        c, lo, hi = self.c, self.lo, P.of(hi)
        def nonneg():
            with c.at(self.st): return c.forall(lo, hi, lambda k: self.f(k) >= 0)
        nn = nonneg()
        a, k = c.I(z3.Int(fresh_name('a'))), c.I(z3.Int(fresh_name('k')))
        with c.at(self.st): fk = self.f(k)
        c.ex.oblige(c.st, 'lemma: prefix sums of non-negative terms never decrease (induction step)',
                    terms.Implies(terms.And(lo <= a, a <= k, k < hi, self(a) <= self(k), self(k + 1) == self(k) + fk, terms.Implies(terms.And(lo <= k, k < hi), fk >= 0)), self(a) <= self(k + 1)), where=c._where)
        x, y = z3.Int(fresh_name('a')), z3.Int(fresh_name('b'))
        X, Y = P.of(x), P.of(y)
        c.st.assume(terms.Implies(nn, z3.ForAll([x, y], terms.bz(terms.Implies(terms.And(lo <= X, X <= Y, Y <= hi), self(X) <= self(Y))), patterns=[z3.MultiPattern(self.g(x), self.g(y))])))
    def axiom(self):
        """full recurrence as a quantified fact (pattern S(k+1) normal form)"""
        q = z3.Int(fresh_name('q')); qp = P.of(q)
        with self.c.at(self.st): v = self.f(qp)
        self.c.st.assume(z3.ForAll([q], z3.Implies(q >= self.lo.z3(), (self(qp + 1) == self(qp) + v)), patterns=[self.g(q)]))

class SymFun:
    """opaque abbreviation: g(a..) = f(a..), the definition is used only where unfolded"""
    def __init__(self, c, name, arity, f, ret):
        self.c, self.f, self.ret = c, f, ret
        self.g = z3.Function(fresh_name('F_' + name), *([z3.IntSort()] * arity), z3.RealSort() if ret == 'real' else z3.IntSort())
        self.st = c.st.fork()
    def __call__(self, *a):
        e = self.g(*[P.of(x).z3() for x in a])
        return R(e) if self.ret == 'real' else P.of(e)
    def unfold(self, *a):
        with self.c.at(self.st): v = self.f(*[P.of(x) for x in a])
        self.c.st.assume(self(*a) == v)
class NatFun:
    def __init__(self, f): self.f = f
    def __call__(self, *a): return self.f(*[int(x) for x in a])
    def unfold(self, *a): pass

class SymSum2:
    """ghost family of prefix sums: T(i, lo(i)) = 0, T(i, k+1) = T(i, k) + f(i, k)"""
    def __init__(self, c, name, f, lo, ret):
        self.c, self.f, self.lo, self.ret = c, f, lo, ret
        self.g = z3.Function(fresh_name('T_' + name), z3.IntSort(), z3.IntSort(), z3.RealSort() if ret == 'real' else z3.IntSort())
        self.st = c.st.fork()
    def __call__(self, i, k):
        e = self.g(P.of(i).z3(), P.of(k).z3())
        return R(e) if self.ret == 'real' else P.of(e)
    def base(self, i):
        with self.c.at(self.st): l = self.lo(P.of(i))
        self.c.st.assume(self(i, l) == 0)
    def unfold(self, i, *ks):
        self.base(i)
        for k in ks:
            k = P.of(k)
            with self.c.at(self.st): v = self.f(P.of(i), k)
            self.c.st.assume(self(i, k + 1) == self(i, k) + v)
    def base_all(self):
        q = z3.Int(fresh_name('q')); qp = P.of(q)
        with self.c.at(self.st): l = self.lo(qp)
        t = self(qp, l)
        self.c.st.assume(mkforall([q], t.z3() == 0, [(t,)]))
    def unfold_all(self, k):
        q = z3.Int(fresh_name('q')); qp = P.of(q); k = P.of(k)
        with self.c.at(self.st): v = self.f(qp, k)
        self.c.st.assume(mkforall([q], bz_eq(self(qp, k + 1), self(qp, k) + v), [(self(qp, k + 1),), (self(qp, k),)]))
def bz_eq(a, b): return terms.bz(a == b)

class NatSum2:
    def __init__(self, f, lo): self.f, self.lo, self.m = f, lo, {}
    def __call__(self, i, k):
        i, k = int(i), int(k); l = int(self.lo(i))
        key = (i, k)
        if key not in self.m:
            s = 0
            for j in range(l, k): s += self.f(i, j)
            self.m[key] = s
        return self.m[key]
    def base(self, i): pass
    def base_all(self): pass
    def unfold(self, *a): pass
    def unfold_all(self, k): pass

class NatSum:
    def __init__(self, n, f, lo):
        self.lo, self.t = lo, [0]
        for k in range(int(lo), int(n)): self.t.append(self.t[-1] + f(k))
    def __call__(self, k): 
        i = int(k) - self.lo
        return self.t[i] if 0 <= i < len(self.t) else 0
    def unfold(self, *ks): pass
    def axiom(self): pass
    def nondecreasing(self, hi): pass

# ------------------------------------------------------------------ native
class NatArr:
    def __init__(self, c, addr, kind, n, name):
        self.c, self.addr, self.kind, self.n, self.name = c, addr, kind, n, name
        self.ct = {'int': ctypes.c_int, 'uint': ctypes.c_uint, 'long': ctypes.c_long, 'size_t': ctypes.c_size_t, 'double': ctypes.c_double, 'char': ctypes.c_byte, 'bool': ctypes.c_ubyte, 'float': ctypes.c_float, 'enum': ctypes.c_int}[kind]
        self.p = addr
    @property
    def ptr(self): return self.addr
    def __getitem__(self, i):
        i = int(i)
        if self.addr in (0, None): return self.ct(0).value
        if i < 0 or (self.n is not None and i >= self.n): return self.ct(0).value
        return self.ct.from_address(self.addr + i * ctypes.sizeof(self.ct)).value
    def set(self, i, v):
        self.ct.from_address(self.addr + i * ctypes.sizeof(self.ct)).value = v
    def list(self): return [self[i] for i in range(int(self.n))]

class NatOld:
    def __init__(self, vals): self.vals = vals
    def __getitem__(self, i):
        i = int(i)
        return self.vals[i] if 0 <= i < len(self.vals) else 0

class NatStruct:
    def __init__(self, c, addr, cname):
        self.c, self.addr, self.cname = c, addr, cname
        self.f = c.structs(cname)
        self.p = addr
    @property
    def ptr(self): return self.addr
    def _ct(self, ty, sz):
        if ty == 'double': return ctypes.c_double
        if ty.endswith('*'): return ctypes.c_void_p
        if 'unsigned' in ty: return {1: ctypes.c_ubyte, 4: ctypes.c_uint, 8: ctypes.c_ulong}[sz]
        return {1: ctypes.c_byte, 2: ctypes.c_short, 4: ctypes.c_int, 8: ctypes.c_long}[sz]
    def get(self, fld):
        off, sz, ty = self.f[fld]
        v = self._ct(ty, sz).from_address(self.addr + off).value
        return (v or 0) if ty.endswith('*') else v
    def setf(self, fld, v):
        off, sz, ty = self.f[fld]
        self._ct(ty, sz).from_address(self.addr + off).value = v
    def arr(self, fld, kind, n): return NatArr(self.c, self.get(fld), kind, int(n), fld)
    def member(self, fld, kind, n): return NatArr(self.c, self.addr + self.f[fld][0], kind, n, fld)
    def sub(self, fld, cname): return NatStruct(self.c, self.addr + self.f[fld][0], cname)

class NatOldStruct:
    def __init__(self, vals, arrs): self.vals, self.arrs = vals, arrs
    def get(self, f): return self.vals[f]
    def arr(self, f, kind, n): return NatOld(self.arrs.get(self.vals[f], []))

class NatCtx:
    native = True
    def __init__(self, lib, rng, structs, values=None, consts=(), size_hint=None):
        self.lib, self.rng, self.structs_, self.values, self.consts = lib, rng, structs, values, list(consts)
        self.v = NS()
        self.arrs = []
        self.structlist = []
        self.oldvals = {}
        self.fail = None
        self.record = []
        self.libc = lib
        self.view_ = None
        self.scale = size_hint if size_hint is not None else rng.choice([1, 2, 3, 4, 6])
    def structs(self, cname):
        r = self.structs_.get(cname)
        if r is None: raise Rejected('no struct ' + cname)
        return r
    @staticmethod
    def And(*xs): return all(_flat(xs))
    @staticmethod
    def Or(*xs): return any(_flat(xs))
    @staticmethod
    def Not(a): return not a
    @staticmethod
    def Implies(a, b): return (not a) or b
    @staticmethod
    def Iff(a, b): return bool(a) == bool(b)
    @staticmethod
    def Ite(c, a, b): return a if c else b
    def R(self, x): return float(x)
    def I(self, x): return int(x)
    def eq(self, a, b):
        if isinstance(a, float) or isinstance(b, float): return self.near(a, b)
        return a == b
    def near(self, a, b, tol=1e-8):
        if a == b: return True
        if math.isnan(a) or math.isnan(b): return False
        return abs(a - b) <= tol * max(1e-6, abs(a), abs(b)) + 1e-10 * max(1.0, self.magnitude())
    def magnitude(self): return getattr(self, 'mag', 1.0)
    def le(self, a, b): return a <= b or self.eq(a, b)
    def max(self, a, b): return max(a, b)
    def min(self, a, b): return min(a, b)
    def sqrt(self, x): return math.sqrt(max(x, 0))
    def abs(self, a): return abs(a)
    def div(self, a, b):
        q = abs(a) // abs(b); return q if (a >= 0) == (b > 0) else -q
    def mod(self, a, b): return a - self.div(a, b) * b
    def isnull(self, p):
        p = getattr(p, 'addr', p)
        return p in (0, None)
    def same(self, p, q): return (getattr(p, 'addr', p) or 0) == (getattr(q, 'addr', q) or 0)
    # inputs
    def _val(self, name, g):
        if self.values is not None and name in self.values: v = self.values[name]
        else: v = g()
        self.record.append((name, v))
        return v
    def int(self, name, lo=None, hi=None, size=False, gen=None):
        def g():
            if gen is not None: return gen(self.rng)
            a = lo if lo is not None else -5
            b = hi if hi is not None else a + (self.scale if size else 10)
            if size: b = min(b, a + self.scale)
            if self.consts and self.rng.random() < 0.08 and not size:
                c = self.rng.choice(self.consts) + self.rng.choice([-1, 0, 0, 1])
                if (lo is None or c >= lo) and (hi is None or c <= hi): return c
            if self.consts and size and self.rng.random() < 0.08:
                cs = [c for c in self.consts if 0 < c <= 200]
                if cs:
                    c = self.rng.choice(cs) + self.rng.choice([-1, 0, 1])
                    if (lo is None or c >= lo) and (hi is None or c <= hi): return c
            return self.rng.randint(a, max(a, b))
        v = self._val(name, g)
        if lo is not None and v < lo or hi is not None and v > hi: raise Rejected(name)
        return v
    def size(self, name, lo=0, hi=None, gen=None): return self.int(name, lo, hi, size=True, gen=gen)
    def choose(self, name, lo, hi): return self.int(name, lo, hi, gen=lambda r: r.randint(lo, hi))
    def _rnd_real(self, lo, hi):
        r = self.rng
        if lo is not None and hi is not None:
            k = r.random()
            if k < 0.1: return float(lo)
            if k < 0.2: return float(hi)
            return lo + (hi - lo) * r.randint(0, 16) / 16.0
        if lo is not None: return float(lo) + r.choice([0, 1, 2, 3, 5, 0.5, 0.25, 10])
        if hi is not None: return float(hi) - r.choice([0, 1, 2, 3, 5, 0.5, 0.25])
        return float(r.choice([0, 0, 1, -1, 2, -2, 3, 0.5, -0.5, 4, 7, -5, 10]))
    def real(self, name, lo=None, hi=None, gen=None):
        v = float(self._val(name, lambda: gen(self.rng) if gen else self._rnd_real(lo, hi)))
        if lo is not None and v < lo or hi is not None and v > hi: raise Rejected(name)
        return v
    def boolean(self, name): return self._val(name, lambda: self.rng.randint(0, 1))
    def alloc(self, nbytes, heap=False):
        f = self.lib.vp_heap_malloc if heap else self.lib.vp_raw_malloc
        f.restype = ctypes.c_void_p; f.argtypes = [ctypes.c_size_t]
        return f(nbytes)
    def arr(self, name, kind, n, gen=None, heap=False, lo=None, hi=None, null_if_empty=False):
        n = int(n)
        if n < 0 or n > 200000: raise Rejected(name)
        addr = self.alloc(n * ELSZ[kind], heap)
        A = NatArr(self, addr, kind, n, name)
        def g():
            if gen is not None:
                v = gen(self.rng, n)
                return list(v)
            if sortk(kind) == 'real': return [self._rnd_real(lo, hi) for _ in range(n)]
            a = lo if lo is not None else (0 if kind in ('size_t', 'bool') else -4)
            b = (hi - 1) if hi is not None else a + (1 if kind == 'bool' else 6)
            if b < a: 
                if n: raise Rejected(name)
                return []
            return [self.rng.randint(int(a), int(b)) for _ in range(n)]
        vals = self._val(name, g)
        vals = (list(vals) + [0] * n)[:n]
        for i, v in enumerate(vals):
            try: A.set(i, v)
            except (OverflowError, TypeError): raise Rejected(name)
        if lo is not None or hi is not None:
            for v in vals:
                if lo is not None and v < lo: raise Rejected(name)
                if hi is not None and (v >= hi if sortk(kind) == 'int' else v > hi): raise Rejected(name)
        self.arrs.append(A)
        return A
    def ptrs(self, name, base, pos, n, null=None):
        addr = self.alloc(int(n) * 8)
        for i in range(int(n)): ctypes.c_void_p.from_address(addr + 8 * i).value = base.addr + ELSZ[base.kind] * int(pos[i])
        return NatArr(self, addr, 'size_t', int(n), name)
    def pool(self, name, cname, n, table=True, **fields):
        f = self.structs(cname); n = int(n)
        S = f.get('__size__', (0, 0, ''))[1] or max(o + s for o, s, _ in f.values())
        addr = self.alloc(max(n, 1) * S)
        ss = [NatStruct(self, addr + i * S, cname) for i in range(n)]
        for k, v in fields.items():
            for i in range(n):
                ss[i].setf(k, v[0].addr + ELSZ[v[0].kind] * int(v[1][i]) if isinstance(v, tuple) else v[i])
        class Col:
            def __init__(s_, fld): s_.fld = fld
            def __getitem__(s_, i):
                i = int(i)
                return ss[i].get(s_.fld) if 0 <= i < n else 0
        o = NS(); o.col = Col; o.addr = o.p = o.ptr = addr
        if table:
            t = self.alloc(max(n, 1) * 8)
            for i in range(n): ctypes.c_void_p.from_address(t + 8 * i).value = addr + i * S
            o.tab = NatArr(self, t, 'size_t', n, name)
        return o
    def null(self): return 0
    def slot(self, name, idx, n, ptr):
        a = self.alloc(max(int(n), 1) * 8)
        ctypes.memset(a, 0, max(int(n), 1) * 8)
        ptr = getattr(ptr, 'addr', ptr)
        ctypes.c_void_p.from_address(a + 8 * int(idx)).value = ptr
        o = NS(); o.p = o.ptr = o.addr = a
        o.get = lambda: ctypes.c_void_p.from_address(a + 8 * int(idx)).value or 0
        return o
    def text(self, name):
        n = self.int(name + '_len', 0, None, gen=lambda r: r.randint(0, 6))
        a = self.arr(name, 'char', n + 1, gen=lambda r, k: [r.randint(65, 90) for _ in range(k - 1)] + [0])
        a.len = n
        return a
    def same_text(self, p, t):
        self.check(ctypes.string_at(p) == ctypes.string_at(t.addr), 'string copied')
    def cstr(self, name, s='abc'):
        a = self.alloc(len(s) + 1)
        ctypes.memmove(a, s.encode() + b'\0', len(s) + 1)
        return a
    def opaque(self, name): return self.alloc(64)
    def file(self, name, gen=None):
        import os, tempfile
        toks = self._val(name, lambda: gen(self.rng))
        fd, p = tempfile.mkstemp(prefix='vpf_', dir=os.environ.get('VP_SCRATCH')); os.close(fd)
        self.cleanup = getattr(self, 'cleanup', []); self.cleanup.append(p)
        open(p, 'w').write(' '.join(('%r' % t) if isinstance(t, float) else str(t) for t in toks) + '\n')
        F = NS(); F.path = self.cstr(name, p); F.n = len(toks)
        def tok(i): return int(toks[int(i)]) if 0 <= int(i) < len(toks) and not isinstance(toks[int(i)], str) else 0
        def real(i): return float(toks[int(i)]) if 0 <= int(i) < len(toks) and not isinstance(toks[int(i)], str) else 0.0
        F.tok, F.real, F.toks = tok, real, toks
        return F
    def struct(self, name, cname, /, heap=False, **fields):
        f = self.structs(cname)
        size = f.get('__size__', (0, 0, ''))[1] or max(o + s for o, s, _ in f.values())
        addr = self.alloc(size, heap)
        ctypes.memset(addr, 0x5a, size)
        s = NatStruct(self, addr, cname)
        for k, (off, sz, ty) in f.items():
            if k != '__size__' and ty.endswith('*'): s.setf(k, 0)
        for k, v in fields.items():
            if isinstance(v, list):
                off, sz, ty = f[k]
                for j, x in enumerate(v): (ctypes.c_double if isinstance(x, float) else ctypes.c_int).from_address(addr + off + j * (sz // len(v))).value = x
            else: s.setf(k, getattr(v, 'addr', v))
        self.structlist.append(s)
        return s
    def at_struct(self, p, cname): return NatStruct(self, p, cname)
    def view(self, p, kind, n): return NatArr(self, p, kind, int(n), 'view')
    def assume(self, cond):
        if not cond: raise Rejected('assume')
    def forall(self, lo, hi, f, pat=None): return all(f(i) for i in range(int(lo), int(hi)))
    def forall2(self, lo, hi, f, pat=None): return all(f(i, j) for i in range(int(lo), int(hi)) for j in range(i, int(hi)))
    def exists(self, lo, hi, f, pat=None): return any(f(i) for i in range(int(lo), int(hi)))
    def rawforall(self, nvars, f, pat): return True
    def snapshot(self):
        self.oldvals = {a.addr: a.list() for a in self.arrs}
        self.oldstruct = {s.addr: {k: s.get(k) for k in s.f if k != '__size__' and s.f[k][1] in (1, 2, 4, 8)} for s in self.structlist}
        self.mag = max([1.0] + [abs(float(x)) for v in self.oldvals.values() for x in v if x == x and abs(x) != float('inf')])
    def old(self, a):
        if isinstance(a, NatArr): return NatOld(self.oldvals.get(a.addr, []))
        if isinstance(a, NatStruct): return NatOldStruct(self.oldstruct[a.addr], self.oldvals)
        return a
    def unchanged(self, a, label=None):
        o = self.oldvals.get(a.addr)
        now = [a.ct.from_address(a.addr + i * ctypes.sizeof(a.ct)).value for i in range(len(o))]
        if o != now and not all(x == y or (x != x and y != y) for x, y in zip(o, now)):
            raise CheckFailed(label or ('unchanged ' + a.name))
    def check(self, cond, label):
        if not cond: raise CheckFailed(label)
    def check_all(self, lo, hi, f, label, hint=None):
        for i in range(int(lo), int(hi)):
            if not f(i): raise CheckFailed('%s (at %d)' % (label, i))
    def each(self, lo, hi, body):
        for i in range(int(lo), int(hi)): body(i)
    def when(self, cond, body):
        if cond: body()
    def lemma(self, cond): pass
    def define(self, cond): pass
    def mark(self, name, trigger=False): return lambda i: True
    def psum(self, name, n, f, lo=0, ret='int'): return NatSum(n, f, lo)
    def array_sum(self, a, n): return NatSum(n, lambda k: a[k], 0)
    def induct(self, label, hi, facts, unfold): pass
    def pigeonhole(self, a, n, m): pass
    def div_facts(self, *abs): pass
    def sum2(self, name, f, lo=lambda i: 0, ret='real'): return NatSum2(f, lo)
    def fun(self, name, arity, f, ret='real'): return NatFun(f)
    def no_leak(self, *reach, label='no memory leaked'):
        f = self.lib.vp_live_count; f.restype = ctypes.c_long
        n = f()
        rs = {getattr(p, 'addr', p) for p in reach} - {0, None}
        own = self.lib.vp_is_live; own.restype = ctypes.c_int; own.argtypes = [ctypes.c_void_p]
        k = sum(1 for p in rs if own(p))
        if n != k: raise CheckFailed('%s (%d live, %d reachable)' % (label, n, k))
    def alive(self, p):
        p = getattr(p, 'addr', p)
        own = self.lib.vp_is_freed; own.restype = ctypes.c_int; own.argtypes = [ctypes.c_void_p]
        return not own(p)
    def offset(self, p, base, kind):
        p, base = getattr(p, 'addr', p) or 0, getattr(base, 'addr', base) or 0
        return (p - base) // ELSZ[kind] if (p - base) % ELSZ[kind] == 0 else -1
    def capacity(self, p, kind):
        p = getattr(p, 'addr', p)
        if not p: return 0
        f = self.lib.vp_capacity; f.restype = ctypes.c_long; f.argtypes = [ctypes.c_void_p]
        r = f(p)
        return (r // ELSZ.get(kind, 1)) if r >= 0 else 1 << 40

def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)): yield from _flat(x)
        else: yield x
