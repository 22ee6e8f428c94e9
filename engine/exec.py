"""Symbolic executor / verification-condition generator over LLVM IR.

Walks every path of a function; loops are cut at their header with inferred or
supplied invariants (every candidate is proved inductive, or dropped), calls are
inlined, replaced by a callee contract, or handled by a model of a library function.
Every memory access, division, assertion and postcondition becomes an obligation.
"""
import re, time, subprocess
import z3
from terms import *
import terms, absnl
from ir import Module, Ty

class Unsupported(Exception): pass
class PathLimit(Exception): pass

class Reg:
    __slots__ = ('name', 'kind', 'size', 'stride', 'cols', 'cells', 'alive', 'heap', 'nullc', 'owner', 'zero', 'lazy', 'fam', 'weak', 'birth', 'tgt')
    def __init__(self, name, kind, size, **kw):
        self.name, self.kind, self.size = name, kind, size
        self.stride, self.cols, self.cells = None, {}, {}
        self.alive, self.heap, self.nullc, self.owner = True, False, False, 'input'
        self.zero, self.lazy, self.fam, self.weak, self.birth = False, None, None, False, 0
        self.tgt = None     # pointer columns: col -> (target region, element stride, limits(k) or None)
        for k, v in kw.items(): setattr(self, k, v)
    def copy(self):
        r = Reg.__new__(Reg)
        for s in Reg.__slots__: setattr(r, s, getattr(self, s))
        r.cols = dict(self.cols); r.cells = dict(self.cells)
        return r
    def length(self):
        """elements"""
        if self.size is None: return None
        return self.size.divexact(self.stride)

class State:
    __slots__ = ('mem', 'pc', 'ghost')
    def __init__(self, mem=None, pc=None, ghost=None):
        self.mem, self.pc, self.ghost = mem or {}, pc or [], ghost or {}
    def fork(self):
        return State(dict(self.mem), list(self.pc), dict(self.ghost))
    def assume(self, c):
        if c is True: return
        self.pc.append(bz(c))
    def w(self, rid):
        r = self.mem[rid].copy()
        self.mem[rid] = r
        return r

class Obl:
    __slots__ = ('kind', 'where', 'pc', 'goal', 'status', 'solver', 'time', 'model', 'extra')
    def __init__(self, kind, where, pc, goal):
        self.kind, self.where, self.pc, self.goal = kind, where, pc, goal
        self.status = None; self.solver = None; self.time = 0.0; self.model = None; self.extra = None

class PI:
    """pointer converted to integer"""
    def __init__(self, p): self.p = p

class Inc:
    """incremental solver that mirrors a path condition"""
    def __init__(self, timeout=400, axioms=()):
        self.axioms = axioms
        self.reset(timeout)
        self.n = 0; self.t = 0.0
    def reset(self, timeout):
        self.s = z3.SolverFor('ALL') if False else z3.Solver()
        self.s.set('smt.mbqi', False)
        self.s.set('auto_config', False)
        self.timeout = timeout
        self.s.set('timeout', timeout)
        for a in self.axioms: self.s.add(a)
        self.stack = []
        self.refs = []
    def sync(self, pc):
        k = 0
        n = min(len(pc), len(self.stack))
        while k < n and self.stack[k] == pc[k].get_id(): k += 1
        if k < len(self.stack):
            self.s.pop(len(self.stack) - k)
            del self.stack[k:]; del self.refs[k:]
        for c in pc[k:]:
            self.s.push(); self.s.add(c)
            self.stack.append(c.get_id()); self.refs.append(c)
    def check(self, pc, extra=None, timeout=None):
        self.n += 1
        if self.n % 400 == 0: self.reset(self.timeout)
        t0 = time.time()
        self.sync(pc)
        if timeout: self.s.set('timeout', timeout)
        if extra is not None:
            self.s.push(); self.s.add(extra)
        try:
            r = self.s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if extra is not None: self.s.pop()
        if timeout: self.s.set('timeout', self.timeout)
        self.t += time.time() - t0
        return r

class Ex:
    def __init__(self, mod, spec=None, mode='proof', handlers=None, verbose=False):
        self.mod, self.spec, self.mode, self.verbose = mod, spec, mode, verbose
        self.obls = []
        self.handlers = handlers or {}
        self.inc = Inc()
        modes = getattr(spec, 'abs_modes', ('expand',))
        self.abs = [(absnl.AbsNL(flat=m == 'flat'), Inc(axioms=absnl.FLAT_AXIOMS if m == 'flat' else absnl.AXIOMS)) for m in modes]
        self.tscale = 1
        self.dry = 0
        self.rid = 0
        self.loopstack = []
        self.callstack = []
        self.sums = []; self.sites, self.cursite = [], None      # call sites of the functions on the call stack
        self.ctx = None
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.loop_log = []
        self.houdini_memo = {}
        self.paths = 0
        self.path_limit = 4000
        self.unroll_limit = 64
        self.check_safety = True
        self.oom = False
        self.overflow = False
        self.deadline = None
        self.bounded_unroll = 6
        self.throws_ok = True
        self.writes = None
        self.globals_rid = {}
        self.trivial = 0
        self.strict = getattr(spec, 'strict', True)

    # ------------------------------------------------------------ helpers
    def new_rid(self):
        self.rid += 1
        return self.rid
    def region(self, st, reg):
        r = self.new_rid()
        reg.birth = r
        st.mem[r] = reg
        return r
    def feasible(self, st, extra=None):
        if extra is False: return False
        return self.inc.check(st.pc, None if extra is None or extra is True else bz(extra)) != z3.unsat
    def proves(self, st, goal, timeout=None, which=None):
        if goal is True: return True
        return self.refutes(st.pc, None if goal is False else bz(Not(goal)), timeout, which)
    dump = None
    def proves_fresh(self, st, goal, timeout=3000, order=None):
        """non-incremental attempt (its preprocessing sometimes finds what the incremental core misses)"""
        if goal is True: return True
        neg = z3.BoolVal(True) if goal is False else bz(Not(goal))
        nl = self.abs[0][0]._nl
        if any(nl(x) for x in st.pc) or nl(neg): return False
        both = ((z3.Solver, timeout), (lambda: z3.SolverFor('ALL'), 2 * timeout))
        for mk, t in both if order is None else both[order:order + 1]:
            s = mk(); s.set('timeout', int(t * self.tscale))
            for x in st.pc: s.add(bz(x))
            s.add(neg)
            if s.check() == z3.unsat: return True
        return False
    def proves_seeds(self, st, goal, timeout=1500):
        """non-incremental attempts with different seeds"""
        neg = z3.BoolVal(True) if goal is False else bz(Not(goal))
        for seed, ar in ((0, 6), (0, 2), (3, 6)):
            s = z3.Solver(); s.set('timeout', int(timeout * self.tscale)); s.set('auto_config', False); s.set('smt.mbqi', False); s.set('smt.random_seed', seed); s.set('smt.arith.solver', ar)
            for x in st.pc: s.add(bz(x))
            s.add(neg)
            if s.check() == z3.unsat: return True
        return False
    def refutes(self, pc, neg, timeout=None, which=None):
        # first with nonlinear real terms abstracted, then as they are
        timeout = int((timeout or 400) * self.tscale)
        nl = self.abs[0][0]._nl
        if any(nl(x) for x in pc) or (neg is not None and nl(neg)):
            for ab, inc in self.abs:
                if inc.check([ab(x) for x in pc], None if neg is None else ab(neg), timeout) == z3.unsat: return True
            if which == 'cand' and getattr(self.spec, 'abs_only', False): return False
        return self.inc.check(pc, neg, timeout) == z3.unsat
    def oblige(self, st, kind, goal, inst=None, where=None):
        if self.dry: 
            st.assume(goal) if goal is not False else None
            return
        if goal is True:
            self.trivial += 1
            return
        w = where or self.where(inst)
        self.obls.append(Obl(kind, w, list(st.pc), goal))
        if goal is not False: st.assume(goal)
    def where(self, inst):
        fn = self.callstack[-1] if self.callstack else '?'
        ln = self.mod.line(inst.dbg) if inst is not None else None
        return '%s:%s' % (fn, ln)

    # ------------------------------------------------------------ values
    def const(self, st, ty, v):
        k = ty.k
        if isinstance(v, tuple):
            if v[0] == 'fp': return R.of(v[1]) if v[1] == v[1] and abs(v[1]) != float('inf') else R(z3.Real('const_%s' % ('nan' if v[1] != v[1] else 'inf' if v[1] > 0 else 'ninf')))
            if v[0] == 'gep':
                base = self.const(st, v[2][0][0], v[2][0][1])
                return self.gep(st, v[1], base, [(t, self.const(st, t, x)) for t, x in v[2][1:]])
            if v[0] == 'cast':
                x = self.const(st, v[2], v[3])
                return x
            if v[0] == 'agg': return [self.const(st, t, x) for t, x in v[1]]
            if v[0] == 'fp80': return fresh_real('fp80')
            raise Unsupported('const %r' % (v,))
        if v == 'null': return NULL
        if v == 'true': return True
        if v == 'false': return False
        if v in ('undef', 'poison'): return self.fresh(ty, 'undef')
        if v == 'zeroinitializer':
            if k in ('int',): return False if ty.n == 1 else P.of(0)
            rt = self.mod.resolve(ty)
            if rt.k == 'struct': return [self.const(st, t, 'zeroinitializer') for t in rt.a]
            if rt.k == 'arr': return [self.const(st, rt.a, 'zeroinitializer') for _ in range(rt.n)]
            if k in ('double', 'float'): return R.of(0)
            return NULL
        if isinstance(v, int):
            if k == 'int':
                if ty.n == 1: return bool(v & 1)
                return P.of(v)
            if k in ('double', 'float'): return R.of(v)
        if isinstance(v, str) and v[0] == '@':
            return self.global_ptr(st, v[1:])
        raise Unsupported('const %r %r' % (ty, v))

    def fresh(self, ty, nm='v'):
        k = ty.k
        if k == 'int':
            return fresh_bool(nm) if ty.n == 1 else fresh_int(nm)
        if k in ('double', 'float', 'x86_fp80'): return fresh_real(nm)
        if k == 'ptr': return Ptr('undef')
        if k in ('named', 'struct'):
            rt = self.mod.resolve(ty)
            if rt.k == 'struct': return [self.fresh(t, nm) for t in rt.a]
        raise Unsupported('fresh %r' % ty)

    def global_ptr(self, st, name):
        if name in self.mod.funcs: return FnPtr(name)
        rid = self.globals_rid.get(name)
        if rid is None:
            rid = self.globals_rid[name] = self.new_rid()
        if rid not in st.mem:
            gi = self.mod.global_init(name)
            if gi is None:
                st.mem[rid] = Reg('@' + name, 'opaque', None, owner='global')
            else:
                const, ty, v = gi
                size = None
                try: size = P.of(self.mod.size(ty))
                except Exception: pass
                reg = Reg('@' + name, 'cells', size, owner='global')
                if v is not None and (const or v == 'zeroinitializer' or True):
                    if const:
                        try: self.fill_const(st, reg, ty, v, 0)
                        except Unsupported: reg.kind = 'opaque'
                    else:
                        reg.lazy = 'havoc'
                else: reg.lazy = 'havoc'
                st.mem[rid] = reg
        return Ptr(rid)

    def fill_const(self, st, reg, ty, v, off):
        rt = self.mod.resolve(ty)
        if rt.k == 'arr':
            if isinstance(v, tuple) and v[0] == 'str':
                s = v[1]
                s = s[2:-1] if s.startswith('c"') else s[1:-1]
                bs, i = [], 0
                while i < len(s):
                    if s[i] == '\\':
                        if s[i+1] == '\\': bs.append(92); i += 2
                        else: bs.append(int(s[i+1:i+3], 16)); i += 3
                    else: bs.append(ord(s[i])); i += 1
                for j, b in enumerate(bs): reg.cells[off + j] = (1, P.of(b))
                return
            es = self.mod.size(rt.a)
            if v == 'zeroinitializer':
                if rt.n > 4096: raise Unsupported('big const')
                for j in range(rt.n): self.fill_const(st, reg, rt.a, 'zeroinitializer', off + j * es)
                return
            if isinstance(v, tuple) and v[0] == 'agg':
                for j, (t, x) in enumerate(v[1]): self.fill_const(st, reg, t, x, off + j * es)
                return
            raise Unsupported('const arr')
        if rt.k == 'struct':
            for j, t in enumerate(rt.a):
                fo = self.mod.field_off(rt, j)
                if v == 'zeroinitializer': self.fill_const(st, reg, t, v, off + fo)
                elif v in ('undef', 'poison'): pass
                else: self.fill_const(st, reg, v[1][j][0], v[1][j][1], off + fo)
            return
        sz = self.mod.size(rt)
        reg.cells[off] = (sz, self.const(st, rt, v))

    def val(self, st, env, ty, v):
        if isinstance(v, str) and v[0] == '%':
            return env[v]
        return self.const(st, ty, v)

    def as_P(self, v):
        if isinstance(v, P): return v
        if isinstance(v, bool): return P.of(int(v))
        if isinstance(v, PI): raise Unsupported('ptrtoint arithmetic')
        if isinstance(v, z3.BoolRef): return P.of(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, Ptr) and v.isnull: return P.of(0)
        raise Unsupported('int expected, got %r' % (v,))

    @staticmethod
    def as_bool_of(p):
        """bool b when p is ite(b,1,0)"""
        if p.const is not None: return p.const != 0
        if len(p.t) == 1:
            (m, k), = p.t.items()
            if k == 1 and len(m) == 1:
                e = terms._atoms[m[0]]
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(e.arg(1)) and z3.is_int_value(e.arg(2)) and e.arg(1).as_long() == 1 and e.arg(2).as_long() == 0:
                    return e.arg(0)
        return None

    # ------------------------------------------------------------ pointers and memory
    def gep(self, st, bt, base, idx):
        m = self.mod
        if isinstance(base, PI): base = base.p
        if not isinstance(base, Ptr): raise Unsupported('gep base %r' % (base,))
        hint = None
        off = base.off
        ty = bt
        sz = m.size(ty)
        i0 = self.as_P(idx[0][1])
        off = off + i0 * sz
        rt = m.resolve(ty)
        if rt.k == 'struct' and i0.const != 0: hint = sz
        for t, v in idx[1:]:
            rt = m.resolve(ty)
            if rt.k == 'struct':
                j = self.as_P(v).const
                off = off + m.field_off(rt, j)
                ty = rt.a[j]
            else:
                ty = rt.a
                iv = self.as_P(v)
                es = m.size(ty)
                off = off + iv * es
                if m.resolve(ty).k == 'struct' and iv.const is None: hint = es
        return Ptr(base.rid, off, base.nullc, hint or base.hint, base.idx)

    def kind_of(self, ty):
        if ty.k == 'int': return 'int', max(1, (ty.n + 7) // 8)
        if ty.k == 'double': return 'real', 8
        if ty.k == 'float': return 'real', 4
        if ty.k == 'ptr': return 'ptr', 8
        if ty.k == 'x86_fp80': return 'real', 16
        raise Unsupported('access type %r' % ty)

    def reg_access(self, st, p, size, kind, inst, what):
        """checks + typing of an access; returns (region, 'cell', off) or (region,'arr',col,index P)"""
        if not isinstance(p, Ptr): raise Unsupported('%s through %r' % (what, p))
        if p.isnull:
            self.oblige(st, 'null dereference', False, inst)
            return None
        if p.rid == 'undef':
            if not self.feasible(st): return None
            self.oblige(st, 'wild pointer dereference', False, inst); return None
        reg = st.mem[p.rid]
        if p.nullc is not False:
            self.oblige(st, 'null dereference', Not(p.nullc), inst)
        if not reg.alive:
            self.oblige(st, 'use after free', False, inst)
            return None
        if reg.kind == 'opaque': raise Unsupported('access to opaque %s' % reg.name)
        if p.idx is not None:
            # element of a table of separate blocks: stay inside the block
            self.oblige(st, 'out of bounds %s of %s' % (what, self.rname(reg)), And(p.idx[0] <= p.off, p.off + size <= p.idx[1]), inst)
        if reg.kind == 'untyped':
            reg = st.w(p.rid)
            c = reg.size.const if reg.size is not None else None
            if c is not None and (c <= 256 or p.off.const is not None and kind == 'ptr') and (p.off.const is not None):
                reg.kind = 'cells'
            else:
                reg.kind = 'arr'
                stride = p.hint or size
                reg.stride = stride
        if reg.kind == 'cells':
            c = p.off.const
            if c is None:
                # symbolic offset into a cells region: convert to array
                reg = self.cells_to_arr(st, p.rid, size, kind, p.hint)
            else:
                if reg.size is not None:
                    self.oblige(st, 'out of bounds %s' % what, And(c >= 0, P.of(c + size) <= reg.size), inst)
                    if reg.size.const is not None and (c < 0 or c + size > reg.size.const): return None
                return (reg, 'cell', c)
        # array
        stride = reg.stride
        if stride is None:
            reg = st.w(p.rid); reg.stride = stride = p.hint or size
        base, rem = {}, None
        cst = p.off.t.get((), 0)
        col = cst % stride
        idx = (p.off - col).divexact(stride)
        if idx is None:
            raise Unsupported('offset %s not a multiple of stride %d in %s' % (p.off, stride, reg.name))
        if reg.size is not None:
            # idx*stride + col + size <= reg.size
            n = reg.size.divexact(stride)
            if n is not None and col + size <= stride:
                self.oblige(st, 'out of bounds %s of %s' % (what, self.rname(reg)), And(idx >= 0, idx < n), inst)
            else:
                self.oblige(st, 'out of bounds %s of %s' % (what, self.rname(reg)), And(idx >= 0, p.off + size <= reg.size), inst)
        if col not in reg.cols:
            for o, (s, kk, a) in reg.cols.items():
                if not (col + size <= o or o + s <= col): raise Unsupported('overlapping columns in %s' % reg.name)
            if kind == 'ptr': 
                raise Unsupported('array of pointers %s' % reg.name)
            reg = st.w(p.rid)
            if reg.zero:
                a = z3.K(z3.IntSort(), z3.RealVal(0) if kind == 'real' else z3.IntVal(0))
            else:
                a = fresh_array(reg.name, kind)
            reg.cols[col] = (size, kind, a)
        s, kk, a = reg.cols[col]
        if s != size or kk != kind:
            raise Unsupported('access of kind %s%d to column %s%d of %s' % (kind, size, kk, s, reg.name))
        return (reg, 'arr', col, idx)

    def rname(self, reg): return reg.name

    def cells_to_arr(self, st, rid, size, kind, hint=None):
        reg = st.w(rid)
        stride = hint or size
        if reg.lazy == 'havoc' or reg.zero or not reg.cells:
            a0 = z3.K(z3.IntSort(), z3.RealVal(0) if kind == 'real' else z3.IntVal(0)) if reg.zero else fresh_array(reg.name, kind)
        else: a0 = fresh_array(reg.name, kind)
        cols = {}
        for off, (s, v) in sorted(reg.cells.items()):
            c = off % stride
            k2 = 'real' if isinstance(v, R) else ('int' if isinstance(v, (P, bool, z3.BoolRef)) else 'ptr')
            if k2 == 'ptr': raise Unsupported('pointer table %s indexed symbolically' % reg.name)
            if c not in cols:
                cols[c] = (s, k2, a0 if (s, k2) == (size, kind) and c == 0 else fresh_array(reg.name, k2))
            s0, kk, a = cols[c]
            if s0 != s or kk != k2: raise Unsupported('mixed cells %s' % reg.name)
            vz = R.of(v).z3() if k2 == 'real' else self.as_P(v).z3()
            cols[c] = (s0, kk, z3.Store(a, z3.IntVal(off // stride), vz))
        reg.kind, reg.stride, reg.cells, reg.cols = 'arr', stride, {}, cols
        return reg

    def load(self, st, ty, p, inst):
        kind, size = self.kind_of(ty)
        a = self.reg_access(st, p, size, kind, inst, 'read')
        if a is None: return None
        reg = a[0]
        if a[1] == 'cell':
            off = a[2]
            c = reg.cells.get(off)
            if c is not None:
                s, v = c
                if s != size:
                    raise Unsupported('partial read of cell %s+%d' % (reg.name, off))
                if ty.k == 'int' and ty.n == 1 and isinstance(v, P): v = v != 0
                if kind == 'int' and not isinstance(v, (P, bool, z3.BoolRef)):
                    if isinstance(v, Ptr): return PI(v)
                    raise Unsupported('int read of non-int cell in %s' % reg.name)
                if kind == 'real' and not isinstance(v, R): raise Unsupported('real read of non-real cell')
                return v
            for o, (s, v) in reg.cells.items():
                if o < off + size and off < o + s: raise Unsupported('overlapping cell read %s' % reg.name)
            if reg.zero:
                v = self.const(st, ty, 'zeroinitializer' if kind != 'int' or ty.n != 1 else 0)
            else:
                if reg.lazy is None and reg.owner in ('stack', 'alloc'):
                    self.oblige(st, 'read of uninitialised memory', False, inst)
                    return None
                v = self.fresh(ty, reg.name)
                if kind == 'ptr' and reg.name in ('@stderr', '@stdout', '@stdin'):
                    v = Ptr(self.region(st, Reg('FILE', 'opaque', None)))
                elif kind == 'ptr': raise Unsupported('read of unspecified pointer %s+%d' % (reg.name, off))
            reg = st.w(p.rid)
            reg.cells[off] = (size, v)
            return v
        _, _, col, idx = a
        reg = st.mem[p.rid]
        v = sel(reg.cols[col][2], idx, kind)
        if kind == 'ptr': return self.ptr_elem(reg, col, v)
        if ty.k == 'int' and ty.n == 1: return v != 0
        if ty.k == 'int' and ty.n == 8 : 
            pass
        return v

    def ptr_elem(self, reg, col, k):
        """pointer number k of a pointer column (negative: null)"""
        rid, S, lim = reg.tgt[col][:3]
        nn = reg.tgt[col][3] if len(reg.tgt[col]) > 3 else False
        return Ptr(rid, k * S, False if nn else k < 0, S, None if lim is None else lim(k))

    def store(self, st, ty, v, p, inst):
        kind, size = self.kind_of(ty)
        a = self.reg_access(st, p, size, kind, inst, 'write')
        if a is None: return False
        if a[1] == 'cell':
            off = a[2]
            reg = st.w(p.rid)
            for o, (s, _) in list(reg.cells.items()):
                if o < off + size and off < o + s and o != off: raise Unsupported('overlapping cell write %s' % reg.name)
            if ty.k == 'int' and ty.n == 1: v = self.as_P(v)
            reg.cells[off] = (size, v)
            return True
        _, _, col, idx = a
        reg = st.w(p.rid)
        s, kk, arr = reg.cols[col]
        if kind == 'ptr':
            t = reg.tgt[col]
            if isinstance(v, Ptr) and v.isnull: v = P.of(-1)
            elif isinstance(v, Ptr) and v.rid == t[0] and v.off.divexact(t[1]) is not None: v = terms.Ite(v.nullc, P.of(-1), v.off.divexact(t[1]))
            else: raise Unsupported('store of this pointer into a pointer table')
        vz = R.of(v).z3() if kind == 'real' else self.as_P(v).z3()
        reg.cols[col] = (s, kk, z3.Store(arr, idx.z3(), vz))
        if self.writes is not None: self.writes.append((p.rid, col, idx))
        return True

    # allocation -------------------------------------------------------
    def malloc(self, st, size, name, zero=False, nullable=None):
        nullable = self.oom if nullable is None else nullable
        size = self.as_P(size)
        nullc = fresh_bool('oom_' + name) if nullable else False
        reg = Reg(name, 'untyped', size, heap=True, owner='alloc', nullc=nullc, zero=zero)
        r = self.region(st, reg)
        return Ptr(r, P.of(0), nullc)

    def free(self, st, p, inst):
        if isinstance(p, Ptr) and p.isnull: return
        if not isinstance(p, Ptr) or p.rid == 'undef':
            self.oblige(st, 'free of a wild pointer', False, inst); return
        reg = st.mem[p.rid]
        nn = Not(p.nullc)
        if not reg.alive: self.oblige(st, 'double free', Not(nn), inst); return
        if reg.fam is not None:
            # member of a ghost family: released once
            from ir import IntTy
            k = p.off.divexact(reg.stride)
            if k is None: self.oblige(st, 'free of interior pointer', Not(nn), inst); return
            lv = Ptr(reg.fam, k * 8)
            if p.nullc is not False:
                if not self.feasible(st, nn): return
                a = st.mem[reg.fam].cols[0][2]
                self.oblige(st, 'double free', terms.Or(p.nullc, P.of(z3.Select(a, k.z3())) == 1), inst)
                self.store(st, IntTy(64), terms.Ite(p.nullc, P.of(z3.Select(a, k.z3())), P.of(0)), lv, inst)
                return
            self.oblige(st, 'double free', P.of(z3.Select(st.mem[reg.fam].cols[0][2], k.z3())) == 1, inst)
            self.store(st, IntTy(64), P.of(0), lv, inst)
            return
        if not reg.heap: self.oblige(st, 'free of non-heap memory', Not(nn), inst); return
        self.oblige(st, 'free of interior pointer', p.off == 0, inst)
        reg = st.w(p.rid)
        reg.alive = False

    def memcpy(self, st, d, s, n, inst):
        n = self.as_P(n)
        if n.const == 0: return
        if d.isnull or s.isnull:
            self.oblige(st, 'null dereference', n == 0, inst); return
        for q, w in ((s, 'read'), (d, 'write')):
            if q.rid == 'undef': self.oblige(st, 'wild pointer dereference', False, inst); return
            reg = st.mem[q.rid]
            if q.nullc is not False: self.oblige(st, 'null dereference', Or(Not(q.nullc), n <= 0), inst)
            if not reg.alive: self.oblige(st, 'use after free', n <= 0, inst)
            if reg.size is not None:
                self.oblige(st, 'out of bounds block %s of %s' % (w, reg.name), Or(n <= 0, And(q.off >= 0, q.off + n <= reg.size)), inst)
        sr, dr = st.mem[s.rid], st.mem[d.rid]
        so, do, nc = s.off.const, d.off.const, n.const
        if sr.kind in ('cells',) and nc is not None and so is not None and do is not None:
            if dr.kind == 'untyped':
                dr = st.w(d.rid); dr.kind = 'cells'
            if dr.kind == 'cells':
                dr = st.w(d.rid)
                for o in [o for o in dr.cells if do <= o < do + nc]: del dr.cells[o]
                for o, (sz, v) in sr.cells.items():
                    if so <= o and o + sz <= so + nc: dr.cells[o - so + do] = (sz, v)
                if sr.zero and do == 0 and so == 0 and dr.size is not None and dr.size.const == nc: dr.zero = True
                elif sr.zero or sr.lazy: 
                    if not dr.zero: dr.lazy = dr.lazy or sr.lazy
                return
        if sr.kind == 'untyped' and sr.zero and nc is not None and so == 0 and do == 0 and dr.kind in ('untyped', 'cells') and dr.size is not None and dr.size.const == nc:
            dr = st.w(d.rid); dr.zero = True; dr.cells = {}; dr.kind = 'untyped'
            return
        if sr.kind == 'cells':
            ks = {(sz, 'real' if isinstance(v, R) else 'int') for sz, v in sr.cells.values() if isinstance(v, (R, P))}
            if len(ks) == 1:
                (sz, k), = ks
                sr = self.cells_to_arr(st, s.rid, sz, k)
        if sr.kind == 'untyped':
            # copying indeterminate bytes; adopt the destination's type
            if dr.kind == 'arr':
                sr = st.w(s.rid); sr.kind, sr.stride = 'arr', dr.stride
                for c, (sz, k, a) in dr.cols.items():
                    sr.cols[c] = (sz, k, fresh_array(sr.name, k) if not sr.zero else z3.K(z3.IntSort(), z3.RealVal(0) if k == 'real' else z3.IntVal(0)))
            else:
                return
        if sr.kind != 'arr': raise Unsupported('memcpy from %s' % sr.kind)
        if dr.kind == 'cells' and dr.cells == {} : 
            dr = st.w(d.rid); dr.kind = 'untyped'
        if dr.kind == 'cells' :
            (c0, (sz, k, a)), = sr.cols.items()
            dr = self.cells_to_arr(st, d.rid, sz, k)
        dr = st.w(d.rid)
        if dr.kind == 'untyped': dr.kind, dr.stride = 'arr', sr.stride
        if dr.stride != sr.stride: raise Unsupported('memcpy stride')
        S = sr.stride
        si, di, cnt = s.off.divexact(S), d.off.divexact(S), n.divexact(S)
        if si is None or di is None or cnt is None: raise Unsupported('memcpy alignment')
        for c, (sz, k, a) in sr.cols.items():
            if c not in dr.cols:
                dr.cols[c] = (sz, k, fresh_array(dr.name, k) if not dr.zero else z3.K(z3.IntSort(), z3.RealVal(0) if k == 'real' else z3.IntVal(0)))
            dsz, dk, da = dr.cols[c]
            if dsz != sz or dk != k: raise Unsupported('memcpy column type')
            if cnt.const is not None and cnt.const <= 8:
                for j in range(cnt.const):
                    v = sel(a, si + j, k)
                    da = z3.Store(da, (di + j).z3(), v.z3())
                dr.cols[c] = (sz, k, da)
                if self.writes is not None:
                    for j in range(cnt.const): self.writes.append((d.rid, c, di + j))
                continue
            na = fresh_array(dr.name, k)
            q = z3.Int(fresh_name('k'))
            inside = z3.And(di.z3() <= q, q < (di + cnt).z3())
            body = z3.Select(na, q) == z3.If(inside, z3.Select(a, q + (si - di).z3()), z3.Select(da, q))
            st.assume(z3.ForAll([q], body, patterns=[z3.Select(na, q)]))
            # also index by the source, so that facts about source elements carry over
            dr.cols[c] = (sz, k, na)
            if self.writes is not None: self.writes.append((d.rid, c, None))

    def memset(self, st, d, val, n, inst):
        n = self.as_P(n); v = self.as_P(val)
        if n.const == 0: return
        if d.isnull: self.oblige(st, 'null dereference', n == 0, inst); return
        reg = st.mem[d.rid]
        if d.nullc is not False: self.oblige(st, 'null dereference', Or(Not(d.nullc), n <= 0), inst)
        if not reg.alive: self.oblige(st, 'use after free', n <= 0, inst)
        if reg.size is not None:
            self.oblige(st, 'out of bounds block write of %s' % reg.name, Or(n <= 0, And(d.off >= 0, d.off + n <= reg.size)), inst)
        do, nc = d.off.const, n.const
        if v.const != 0:
            if reg.kind == 'arr' and list(reg.cols) == [0] and reg.cols[0][0] == 1 or reg.kind == 'untyped':
                reg = st.w(d.rid)
                if reg.kind == 'untyped': reg.kind, reg.stride, reg.cols = 'arr', 1, {0: (1, 'int', fresh_array(reg.name, 'int'))}
                return self.range_fill(st, d.rid, d.off, n, {0: P.of(v)})
            raise Unsupported('memset non-zero')
        if reg.kind == 'untyped' and do == 0 and reg.size is not None and (reg.size - n).const == 0:
            reg = st.w(d.rid); reg.zero = True; return
        if reg.kind == 'untyped':
            reg = st.w(d.rid)
            if reg.size.const is not None and nc is not None: reg.kind = 'cells'
            else: raise Unsupported('partial memset of untyped memory')
        if reg.kind == 'cells':
            if do is None or nc is None: raise Unsupported('memset cells')
            reg = st.w(d.rid)
            for o in [o for o in reg.cells if do <= o < do + nc]:
                sz, vv = reg.cells[o]
                del reg.cells[o]
            if reg.size is not None and reg.size.const is not None and do == 0 and nc == reg.size.const: reg.zero = True
            else:
                # zero-valued int/real view is decided by the reader: keep 8-byte zero cells
                raise Unsupported('partial memset of cells')
            return
        S = reg.stride
        di, cnt = d.off.divexact(S), n.divexact(S)
        if di is None or cnt is None: raise Unsupported('memset alignment')
        self.range_fill(st, d.rid, di, cnt, {c: (R.of(0) if k == 'real' else P.of(0)) for c, (sz, k, a) in reg.cols.items()})

    def range_fill(self, st, rid, di, cnt, vals):
        reg = st.w(rid)
        for c, v in vals.items():
            sz, k, a = reg.cols[c]
            if self.writes is not None: self.writes.append((rid, c, None))
            if cnt.const is not None and cnt.const <= 8:
                for j in range(cnt.const): a = z3.Store(a, (di + j).z3(), v.z3())
                reg.cols[c] = (sz, k, a); continue
            na = fresh_array(reg.name, k)
            q = z3.Int(fresh_name('k'))
            inside = z3.And(di.z3() <= q, q < (di + cnt).z3())
            st.assume(z3.ForAll([q], z3.Select(na, q) == z3.If(inside, v.z3(), z3.Select(a, q)), patterns=[z3.Select(na, q)]))
            reg.cols[c] = (sz, k, na)

    # ------------------------------------------------------------ function execution
    def call_fn(self, name, args, st):
        """-> list of (kind, value, state), kind in ret/throw"""
        fn = self.mod.funcs.get(name)
        if fn is None or fn.declared_only: raise Unsupported('no body: %s' % name)
        if self.callstack.count(name) >= 1 + (4 if self.mode == 'bounded' else 0) and not getattr(self.spec, 'allow_recursion', False):
            raise Unsupported('recursion: %s' % name)
        if len(self.callstack) > 40: raise Unsupported('call depth')
        self.inlined.add(name)
        env = {}
        for (ty, nm), a in zip(fn.params, args): env[nm] = a
        self.callstack.append(name)
        self.sites.append(self.cursite)
        try:
            outs = self.run(fn, fn.entry, None, env, st, None)
        finally:
            self.callstack.pop()
            self.sites.pop()
        return [(o[0], o[1], o[-1]) for o in outs]

    def run(self, fn, start, prev, env, st, stop, first=True):
        """execute from block start; returns list of outcomes:
           ('ret', val, st) ('throw', None, st) ('back', env, prev, st) ('exit', block, prev, env, st)"""
        outs = []
        work = [(start, prev, 0, env, st, first)]
        while work:
            bb, prev, idx, env, st, isfirst = work.pop()
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exceeded')
            if idx == 0:
                if not isfirst:
                    L = fn.loops.get(bb)
                    if stop is not None:
                        k = stop(bb, prev)
                        if k == 'back': outs.append(('back', env, prev, st)); continue
                        if k == 'exit': outs.append(('exit', bb, prev, env, st)); continue
                    if L is not None and prev not in L.blocks:
                        for o in self.loop(fn, L, prev, env, st):
                            if o[0] == 'exit':
                                work.append((o[1], o[2], 0, o[3], o[4], False))
                            else: outs.append(o)
                        continue
                    env = self.do_phis(fn, bb, prev, env, st)
            # execute instructions
            blk = fn.blocks[bb]
            i = idx
            while True:
                inst = blk.insts[i]
                op = inst.op
                if op == 'br':
                    if not inst.ops:
                        work.append((inst.x[0], bb, 0, env, st, False)); break
                    c = self.val(st, env, *inst.ops[0])
                    if isinstance(c, P): c = c != 0
                    if c is True: work.append((inst.x[0], bb, 0, env, st, False)); break
                    if c is False: work.append((inst.x[1], bb, 0, env, st, False)); break
                    nc = Not(c)
                    f1, f0 = True, True
                    if not (self.dry and False):
                        f1 = self.feasible(st, c)
                        f0 = self.feasible(st, nc) if f1 else True
                    self.paths += 1
                    if self.paths > self.path_limit: raise Unsupported('path limit')
                    if f1 and f0:
                        s2 = st.fork(); s2.assume(nc)
                        work.append((inst.x[1], bb, 0, dict(env), s2, False))
                        st.assume(c)
                        work.append((inst.x[0], bb, 0, env, st, False))
                    elif f1:
                        st.assume(c); work.append((inst.x[0], bb, 0, env, st, False))
                    else:
                        st.assume(nc); work.append((inst.x[1], bb, 0, env, st, False))
                    break
                if op == 'switch':
                    v = self.as_P(self.val(st, env, *inst.ops[0]))
                    rest = []
                    done = False
                    for cv, tgt in inst.x[1]:
                        c = v == cv
                        if c is True:
                            work.append((tgt, bb, 0, env, st, False)); done = True; break
                        if c is False: continue
                        if self.feasible(st, c):
                            s2 = st.fork(); s2.assume(c)
                            work.append((tgt, bb, 0, dict(env), s2, False))
                        rest.append(Not(c))
                    if not done:
                        for c in rest: st.assume(c)
                        if self.feasible(st): work.append((inst.x[0], bb, 0, env, st, False))
                    break
                if op == 'ret':
                    v = self.val(st, env, *inst.ops[0]) if inst.ops else None
                    outs.append(('ret', v, st)); break
                if op == 'unreachable':
                    outs_append = self.feasible(st)
                    if outs_append and not self.dry:
                        self.oblige(st, 'unreachable reached', False, inst)
                    break
                if op == 'resume':
                    outs.append(('throw', None, st)); break
                if op in ('call', 'invoke'):
                    res = self.do_call(fn, inst, env, st)
                    nxt = []
                    for kind, v, s in res:
                        if kind == 'throw':
                            if op == 'invoke':
                                lp = fn.blocks[inst.x['dests'][1]].insts[0]
                                if lp.op == 'landingpad' and lp.x and not self.throws_ok: raise Unsupported('catch handler')
                                outs.append(('throw', None, s))
                            else: outs.append(('throw', None, s))
                            continue
                        nxt.append((None, v, s))
                    many = len(nxt) > 1
                    for k, e in enumerate(nxt):
                        en = dict(env) if many else env
                        if e[0] is None:
                            if inst.res: en[inst.res] = e[1]
                            if op == 'invoke': work.append((inst.x['dests'][0], bb, 0, en, e[2], False))
                            else: work.append((bb, prev, i + 1, en, e[2], False))
                        else:
                            work.append((e[0], bb, 0, en, e[4], False))
                    break
                if op == 'select':
                    c = self.val(st, env, *inst.ops[0])
                    a = self.val(st, env, *inst.ops[1]); b = self.val(st, env, *inst.ops[2])
                    if isinstance(c, bool): env[inst.res] = a if c else b
                    elif isinstance(a, (Ptr, FnPtr, list, PI)) or isinstance(b, (Ptr, FnPtr, list, PI)):
                        s2 = st.fork(); s2.assume(Not(c)); e2 = dict(env); e2[inst.res] = b
                        if self.feasible(s2): work.append((bb, prev, i + 1, e2, s2, False))
                        st.assume(c); env[inst.res] = a
                        if self.feasible(st): work.append((bb, prev, i + 1, env, st, False))
                        break
                    else: env[inst.res] = Ite(c, a, b)
                    i += 1; continue
                r = self.step(fn, inst, env, st)
                if r is False: break          # path ended (definite error already reported)
                i += 1
        return outs

    def do_phis(self, fn, bb, prev, env, st):
        phis = fn.blocks[bb].phis
        if not phis: return env
        new = {}
        for ph in phis:
            for v, b in ph.x:
                if b == prev:
                    new[ph.res] = self.val(st, env, ph.ty, v); break
            else: raise Unsupported('phi without predecessor')
        env = dict(env)
        env.update(new)
        return env

    def speculated(self, fn, inst):
        """a division the compiler moved above a branch: its value is used, through floating-point
        arithmetic of the same block only, by selects on one condition -> (condition, side)"""
        tab = getattr(fn, '_spec', None)
        if tab is None:
            tab = {}
            uses = {}
            for b in fn.blocks.values():
                for q in list(b.phis) + list(b.insts):
                    vals = [v for _, v in q.ops] if q.op != 'phi' else [v for v, _ in q.x]
                    if q.op == 'call' or q.op == 'invoke': vals = re.findall(r'%[-\w.$]+', repr(q))
                    for v in vals:
                        if isinstance(v, str): uses.setdefault(v, []).append((b.name, q))
            for b in fn.blocks.values():
                if not any(q.op == 'fdiv' for q in b.insts): continue
                def side(r, depth=0):
                    if depth > 6: return None
                    out = None
                    for bn, u in uses.get(r, []):
                        if bn != b.name: return None
                        if u.op == 'select' and u.ops[0][1] != r and (u.ops[1][1] == r) != (u.ops[2][1] == r): x = (u.ops[0], u.ops[1][1] == r)
                        elif u.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'): x = side(u.res, depth + 1)
                        else: return None
                        if x is None or out is not None and (out[0][1], out[1]) != (x[0][1], x[1]): return None
                        out = x
                    return out
                for q in b.insts:
                    if q.op == 'fdiv': tab[q.res] = side(q.res)
            fn._spec = tab
        return tab.get(inst.res)

    # ------------------------------------------------------------ plain instructions
    def step(self, fn, inst, env, st):
        op = inst.op
        V = lambda j: self.val(st, env, *inst.ops[j])
        if op == 'load':
            p = V(0)
            rt = self.mod.resolve(inst.ty)
            if rt.k == 'struct':
                v = [self.load(st, t, p.add(self.mod.field_off(rt, j)), inst) for j, t in enumerate(rt.a)]
            else:
                v = self.load(st, inst.ty, p, inst)
            if v is None: return False
            env[inst.res] = v
        elif op == 'store':
            v, p = V(0), V(1)
            rt = self.mod.resolve(inst.ty)
            if rt.k == 'struct':
                for j, t in enumerate(rt.a):
                    if not self.store(st, t, v[j], p.add(self.mod.field_off(rt, j)), inst): return False
            elif not self.store(st, inst.ty, v, p, inst): return False
        elif op == 'getelementptr':
            b = V(0)
            env[inst.res] = self.gep(st, inst.x, b, [(t, self.val(st, env, t, v)) for t, v in inst.ops[1:]])
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            env[inst.res] = self.arith(st, inst, V(0), V(1))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = V(0), V(1)
            if op == 'fadd': r = a + b
            elif op == 'fsub': r = a - b
            elif op == 'fmul': r = a * b
            else:
                if getattr(self.spec, 'check_fdiv', True):
                    g = self.speculated(fn, inst)
                    ok = b != 0
                    if g is not None:
                        cv = g[0][1] in env if isinstance(g[0][1], str) else False
                        if cv:
                            cv = self.val(st, env, *g[0]); ok = Or(ok, Not(cv) if g[1] else cv)
                    self.oblige(st, 'floating-point division by zero', ok, inst)
                if b.const == 0: r = fresh_real('div0')
                else: r = a / b
            env[inst.res] = r
        elif op == 'frem': env[inst.res] = fresh_real('frem')
        elif op == 'fneg': env[inst.res] = -V(0)
        elif op == 'freeze': env[inst.res] = V(0)
        elif op == 'icmp': env[inst.res] = self.icmp(st, inst, V(0), V(1))
        elif op == 'fcmp':
            a, b = V(0), V(1)
            p = inst.x
            r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}.get(p[1:])
            if p in ('ord',): env[inst.res] = True
            elif p in ('uno',): env[inst.res] = False
            elif p == 'true': env[inst.res] = True
            elif p == 'false': env[inst.res] = False
            else: env[inst.res] = r()
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'addrspacecast', 'fpext', 'fptrunc'):
            v = V(0); sty = inst.ops[0][0]; dty = inst.ty
            if op in ('fpext', 'fptrunc', 'bitcast', 'addrspacecast'):
                if op == 'bitcast' and sty.k != dty.k: raise Unsupported('bitcast %r' % inst)
                env[inst.res] = v
            elif op == 'zext':
                if sty.n == 1: env[inst.res] = self.as_P(v) if not isinstance(v, PI) else v
                else: env[inst.res] = self.unsigned(st, self.as_P(v), sty.n)
            elif op == 'sext':
                if sty.n == 1: env[inst.res] = -self.as_P(v)
                else: env[inst.res] = v
            else:
                if isinstance(v, PI): raise Unsupported('trunc of pointer')
                if dty.n == 1:
                    if isinstance(v, (bool, z3.BoolRef)): env[inst.res] = v
                    else:
                        b = self.as_bool_of(v)
                        env[inst.res] = b if b is not None else (imod(v, 2) == 1)
                else:
                    if isinstance(v, (bool, z3.BoolRef)): v = self.as_P(v)
                    if self.overflow: 
                        h = 1 << (dty.n - 1)
                        self.oblige(st, 'lossy conversion', And(v >= -h, v < 2 * h), inst)
                    if v.const is not None:
                        h = 1 << dty.n
                        c = v.const % h
                        env[inst.res] = P.of(c - h if c >= h // 2 else c)
                    else: env[inst.res] = v
        elif op == 'sitofp': env[inst.res] = R.of(self.as_P(V(0)))
        elif op == 'uitofp':
            env[inst.res] = R.of(self.unsigned(st, self.as_P(V(0)), inst.ops[0][0].n))
        elif op in ('fptosi', 'fptoui'):
            v = V(0)
            if v.const is not None: env[inst.res] = P.of(int(v.const))
            else:
                z = v.z3()
                env[inst.res] = P.of(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))
        elif op == 'ptrtoint':
            v = V(0)
            env[inst.res] = P.of(0) if v.isnull else PI(v)
        elif op == 'inttoptr':
            v = V(0)
            if isinstance(v, PI): env[inst.res] = v.p
            elif isinstance(v, P) and v.const == 0: env[inst.res] = NULL
            else: raise Unsupported('inttoptr')
        elif op == 'alloca':
            ty, n = inst.x
            size = P.of(self.mod.size(ty))
            cnt = None
            if n is not None:
                cnt = self.as_P(self.val(st, env, *n)); size = size * cnt
            rt = self.mod.resolve(ty)
            kind = 'cells'
            reg = Reg('%s.%s' % (fn.name, inst.res[1:]), 'cells' if size.const is not None else 'untyped', size, owner='stack')
            env[inst.res] = Ptr(self.region(st, reg))
        elif op == 'extractvalue':
            v = V(0)
            for j in inst.x: v = v[j]
            env[inst.res] = v
        elif op == 'insertvalue':
            v = list(V(0)) if isinstance(V(0), list) else [None, None]
            if len(inst.x) != 1: raise Unsupported('insertvalue')
            v[inst.x[0]] = V(1)
            env[inst.res] = v
        elif op == 'landingpad': env[inst.res] = [NULL, P.of(0)]
        else:
            if not self.feasible(st): return False
            raise Unsupported('instruction %s' % (inst.x if op == 'unsupported' else op))
        return True

    def known_nonneg(self, st, a):
        c = a.const
        if c is not None: return c >= 0
        if all(k > 0 for k in a.t.values()):
            # sums/products of atoms known nonneg by syntax
            ok = True
            for m in a.t:
                for at in m:
                    e = terms._atoms[at]
                    if e.get_id() not in self.nonneg_atoms: ok = False; break
                if not ok: break
            if ok: return True
        return self.proves(st, a >= 0)
    nonneg_atoms = {}

    def unsigned(self, st, a, n):
        if self.known_nonneg(st, a): return a
        if a.const is not None: return P.of(a.const % (1 << n))
        return P.of(z3.If(a.z3() >= 0, a.z3(), a.z3() + z3.IntVal(1 << n)))

    def arith(self, st, inst, a, b):
        op, ty = inst.op, inst.ty
        if ty.n == 1:
            if isinstance(a, P): a = a != 0
            if isinstance(b, P): b = b != 0
            if op in ('and', 'mul'): return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'): return Not(Iff(a, b))
            raise Unsupported('i1 %s' % op)
        if isinstance(a, PI) or isinstance(b, PI):
            if op == 'sub' and isinstance(a, PI) and isinstance(b, PI):
                if a.p.isnull and b.p.isnull: return P.of(0)
                if a.p.rid == b.p.rid: return a.p.off - b.p.off
                raise Unsupported('difference of pointers into different objects')
            if op == 'add' and isinstance(a, PI) and not isinstance(b, PI): return PI(a.p.add(self.as_P(b)))
            if op == 'sub' and isinstance(a, PI) and isinstance(b, P):
                if b.const == 0: return a
                return PI(a.p.add(-b))
            if op == 'sub' and isinstance(b, PI) and isinstance(a, P): raise Unsupported('int - ptr')
            raise Unsupported('pointer arithmetic %s' % op)
        a, b = self.as_P(a), self.as_P(b)
        r = None
        if op == 'add': r = a + b
        elif op == 'sub': r = a - b
        elif op == 'mul': r = a * b
        if r is not None:
            if self.overflow and 'nsw' in (inst.x or ()) and r.const is None:
                h = 1 << (ty.n - 1)
                self.oblige(st, 'signed integer overflow', And(r >= -h, r < h), inst)
            if r.const is not None and ty.n in (32, 64, 8, 16):
                h = 1 << ty.n
                c = r.const % h
                r = P.of(c - h if c >= h // 2 else c)
            return r
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            self.oblige(st, 'integer division by zero', b != 0, inst)
            if b.const == 0: return fresh_int('div0')
            if op[0] == 'u':
                a, b = self.unsigned(st, a, ty.n), self.unsigned(st, b, ty.n)
                return idiv(a, b) if op == 'udiv' else imod(a, b)
            nn = self.known_nonneg(st, a)
            q = (cdiv if op == 'sdiv' else cmod)(a, b, nn and self.known_nonneg(st, b))
            return q
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                c = y.const
                if c is not None:
                    if c == -1: return x
                    if c == 0: return y
                    if c > 0 and (c & (c + 1)) == 0: return imod(x, c + 1)
                for m in getattr(self, 'pow2', ()):          # declared powers of two
                    if (y + 1 - m).const == 0: return imod(x, m)
        if op == 'or' and (a.const == 0 or b.const == 0): return b if a.const == 0 else a
        if op in ('xor', 'and', 'or'):
            x, y = self.as_bool_of(a), self.as_bool_of(b)
            if x is not None and y is not None:
                return self.as_P({'xor': lambda: Not(Iff(x, y)), 'and': lambda: And(x, y), 'or': lambda: Or(x, y)}[op]())
        if op == 'xor' and b.const == 0: return a
        if op == 'xor' and b.const == -1: return -a - 1
        if a.const is not None and b.const is not None:
            M = (1 << ty.n) - 1
            x, y = a.const & M, b.const & M
            v = {'and': x & y, 'or': x | y, 'xor': x ^ y, 'shl': (x << y) & M, 'lshr': x >> y, 'ashr': a.const >> y}[op]
            return P.of(v - (1 << ty.n) if v >> (ty.n - 1) else v)
        if op == 'shl' and b.const is not None: return a * (1 << b.const)
        if op in ('lshr', 'ashr') and b.const is not None:
            if op == 'lshr': a = self.unsigned(st, a, ty.n)
            d = a.divexact(1 << b.const)
            if d is not None: return d
            return P.of(a.z3() / z3.IntVal(1 << b.const))
        f = z3.Function('bv_%s_%d' % (op, ty.n), z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.used_models.add('bitwise %s: uninterpreted' % op)
        return P.of(f(a.z3(), b.z3()))

    def ptr_null(self, p):
        """condition that p is null"""
        if p.isnull: return True
        return p.nullc

    def icmp(self, st, inst, a, b):
        pred, ty = inst.x, inst.ops[0][0]
        if isinstance(a, PI): a = a.p
        if isinstance(b, PI): b = b.p
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr): r = a.name == b.name
            else: r = False
            return r if pred == 'eq' else not r
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr): a = NULL if self.as_P(a).const == 0 else None
            if not isinstance(b, Ptr): b = NULL if self.as_P(b).const == 0 else None
            if a is None or b is None: raise Unsupported('pointer/int compare')
            if 'undef' in (a.rid, b.rid): 
                if not self.feasible(st): return False
                raise Unsupported('comparison of an undefined pointer')
            if pred in ('eq', 'ne'):
                if a.isnull or b.isnull: r = And(self.ptr_null(a), self.ptr_null(b)) if (a.isnull and b.isnull) else self.ptr_null(b if a.isnull else a)
                elif a.rid == b.rid:
                    same = a.off == b.off
                    r = same
                else:
                    r = And(self.ptr_null(a), self.ptr_null(b))
                return r if pred == 'eq' else Not(r)
            if a.rid != b.rid:
                if a.isnull and b.isnull: pass
                else: raise Unsupported('ordering of unrelated pointers')
            x, y = a.off, b.off
            return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
        if ty.k == 'int' and ty.n == 1:
            a = a if not isinstance(a, P) else a != 0
            b = b if not isinstance(b, P) else b != 0
            if pred == 'eq': return Iff(a, b)
            if pred == 'ne': return Not(Iff(a, b))
        a, b = self.as_P(a), self.as_P(b)
        if pred in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if y.const in (0, 1):
                    t = self.as_bool_of(x) if x.const is None else None
                    if t is not None:
                        r = t if y.const == 1 else Not(t)
                        return r if pred == 'eq' else Not(r)
            return (a == b) if pred == 'eq' else (a != b)
        if pred[0] == 'u':
            a, b = self.unsigned(st, a, ty.n), self.unsigned(st, b, ty.n)
        o = pred[1:]
        return {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[o]()

    # ------------------------------------------------------------ calls
    def do_call(self, fn, inst, env, st):
        f = inst.x['fn']
        if isinstance(f, tuple) and f[0] == 'asm': raise Unsupported('inline asm')
        if isinstance(f, str) and f.startswith('@'): name = f[1:]
        else:
            t = self.val(st, env, Ty('ptr'), f)
            if not isinstance(t, FnPtr):
                if not self.feasible(st): return []
                raise Unsupported('indirect call through %r' % (t,))
            name = t.name
        args = [self.val(st, env, ty, v) if ty.k != 'metadata' else None for ty, v in inst.ops]
        return self.call_named(name, args, st, inst)

    def call_named(self, name, args, st, inst):
        h = self.handlers.get(name)
        if h is not None:
            self.used_contracts.add(name)
            return h(self, st, args, inst)
        import models
        h = models.lookup(self, name)
        if h is not None:
            r = h(self, st, args, inst)
            return r
        fnn = self.mod.funcs.get(name)
        if fnn is not None and not fnn.declared_only:
            self.cursite = id(inst)
            return self.call_fn(name, args, st)
        if not self.feasible(st): return []
        raise Unsupported('call to unmodelled external function %s' % name)

    # ------------------------------------------------------------ loops
    def loop(self, fn, L, prev, env, st):
        import loops
        return loops.handle(self, fn, L, prev, env, st)
