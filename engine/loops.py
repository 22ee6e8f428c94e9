"""Loop cutting: induction variables, modified-set computation, Houdini over candidate invariants."""
import z3, time
from terms import *
import terms

class View:
    """one program point of a loop at which candidate invariants are evaluated"""
    def __init__(self, ex, fn, L, N, phis, st, entry_phis, entry_st, ivs, mods):
        self.ex, self.fn, self.L, self.N, self.phis, self.st = ex, fn, L, P.of(N), phis, st
        self.entry_phis, self.entry_st, self.ivs, self.mods = entry_phis, entry_st, ivs, mods
        self.outer = list(ex.loopstack)      # iteration counters of the enclosing loops, outermost first
    def _arrays(self, kind):
        import dsl
        out = []
        for j, key in enumerate(self.mods):
            if key[1] != 'col': continue
            r = self.st.mem[key[0]]
            if key[2] in r.cols and r.cols[key[2]][1] == kind:
                sz = r.cols[key[2]][0]
                out.append(dsl.SymArr(self.ex.ctx, Ptr(key[0]), {('int', 4): 'int', ('int', 8): 'long', ('int', 1): 'char', ('real', 8): 'double', ('real', 4): 'float'}[(kind, sz)], r.length(), '%s#%d' % (r.name, j), key[2], r.stride))
        return out
    def writes(self, a):
        """does the loop write to this array?"""
        return a is not None and any(k[1] in ('col', 'newcol') and k[0] == a.p.rid for k in self.mods)
    @property
    def cell_ints(self):
        """integer memory cells the loop may write (name, value)"""
        out = []
        for key in self.mods:
            if key[1] != 'cell': continue
            r = self.st.mem[key[0]]
            x = r.cells.get(key[2])
            if x is not None and isinstance(x[1], P): out.append(('%s+%d' % (r.name, key[2]), x[1]))
        return out
    @property
    def cell_reals(self):
        """real memory cells the loop may write (name, value)"""
        out = []
        for key in self.mods:
            if key[1] != 'cell': continue
            r = self.st.mem[key[0]]
            x = r.cells.get(key[2])
            if x is not None and isinstance(x[1], R): out.append(('%s+%d' % (r.name, key[2]), x[1]))
        return out
    @property
    def vec_sizes(self):
        """sizes of the vectors the loop grows (name, number of elements)"""
        out = []
        for key in self.mods:
            if key[1] != 'cell': continue
            x = self.st.mem[key[0]].cells.get(key[2])
            if x is None or not isinstance(x[1], Ptr) or x[1].isnull or x[1].rid == 'undef': continue
            n = x[1].off.divexact(ptr_stride(self.st, x[1]))
            if n is not None: out.append(('%s+%d' % (self.st.mem[x[1].rid].name, key[2]), n))
        return out
    def int_arrays(self): return self._arrays('int')
    def real_arrays(self): return self._arrays('real')
    @property
    def moving(self):
        """pointers that change irregularly (name, offset, offset on entry), in bytes"""
        out = []
        for k, v in self.phis.items():
            e = self.entry_phis.get(k)
            if isinstance(v, Ptr) and k not in self.ivs and not v.isnull and v.rid != 'undef' and isinstance(e, Ptr) and e.rid == v.rid: out.append((k, v.off, e.off))
        return out
    @property
    def cursors(self):
        """offsets in bytes, on entry to the loop, of the pointers the loop moves"""
        return [e.off for k, e in self.entry_phis.items() if isinstance(e, Ptr) and not e.isnull and e.rid != 'undef']
    @property
    def ints(self):
        """non-IV integer header values"""
        return [v for k, v in self.phis.items() if isinstance(v, P) and k not in self.ivs]
    @property
    def all_ints(self):
        return [v for k, v in self.phis.items() if isinstance(v, P)]
    @property
    def reals(self):
        return [v for k, v in self.phis.items() if isinstance(v, R)]
    @property
    def named_ints(self):
        return [(k, v) for k, v in self.phis.items() if isinstance(v, P) and k not in self.ivs]
    @property
    def named_reals(self):
        return [(k, v) for k, v in self.phis.items() if isinstance(v, R)]

def header_entry_phis(ex, fn, L, prev, env, st):
    e2 = ex.do_phis(fn, L.header, prev, env, st)
    return {ph.res: e2[ph.res] for ph in fn.blocks[L.header].phis}

def try_unroll(ex, fn, L, prev, env, st, limit):
    """unroll while every header exit test is decided syntactically; None when it is not"""
    class Abort(Exception): pass
    snap = (len(ex.obls), ex.trivial, ex.paths)
    outs = []
    work = [(prev, env, st, 0)]
    hdr = fn.blocks[L.header]
    try:
        while work:
            prev, env, st, k = work.pop()
            if k > limit: raise Abort
            env = ex.do_phis(fn, L.header, prev, env, st)
            # the header's own terminator must be decided unless the header does not leave the loop
            res = ex.run(fn, L.header, prev, env, st, lambda b, p: 'back' if b == L.header else ('exit' if b not in L.blocks else None), first=True) \
                if not header_symbolic(ex, fn, L, env, st) else None
            if res is None: raise Abort
            for o in res:
                if o[0] == 'back': work.append((o[2], o[1], o[3], k + 1))
                else: outs.append(o)
        return outs
    except Abort:
        del ex.obls[snap[0]:]; ex.trivial, ex.paths = snap[1], snap[2]
        return None

def header_symbolic(ex, fn, L, env, st):
    """does some loop-exiting branch depend on a non-constant condition?  Only the header
    (and, for bottom-tested loops, the latch when it is the header) is examined."""
    hdr = fn.blocks[L.header]
    t = hdr.insts[-1]
    if t.op != 'br': return t.op != 'switch'
    if len(t.x) == 1:
        return True if ex.mode != 'bounded' else False
    s2 = st.fork(); e2 = dict(env)
    ex.dry += 1
    try:
        for inst in hdr.insts[:-1]:
            if inst.op in ('call', 'invoke'):
                # calls in a header: evaluate (size() and the like)
                res = ex.do_call(fn, inst, e2, s2)
                if len(res) != 1 or res[0][0] != 'ret': return True
                if inst.res: e2[inst.res] = res[0][1]
                s2 = res[0][2]
                continue
            if inst.op == 'select': 
                c = ex.val(s2, e2, *inst.ops[0])
                if not isinstance(c, bool): return True
                e2[inst.res] = ex.val(s2, e2, *inst.ops[1 if c else 2]); continue
            if ex.step(fn, inst, e2, s2) is False: return True
        c = ex.val(s2, e2, *t.ops[0])
    finally:
        ex.dry -= 1
    return not isinstance(c, bool)

def handle(ex, fn, L, prev, env, st):
    # -- syntactic unrolling of constant-trip loops
    e1 = ex.do_phis(fn, L.header, prev, env, st)
    sym = None
    try:
        sym = header_symbolic(ex, fn, L, e1, st.fork())
    except Exception as e:
        if type(e).__name__ not in ('Unsupported',): raise
        sym = True
    if not sym:
        s0 = st.fork()
        r = try_unroll(ex, fn, L, prev, dict(env), s0, ex.unroll_limit)
        if r is not None: return r
    if ex.mode == 'bounded':
        return unroll_bounded(ex, fn, L, prev, env, st)
    return invariant_mode(ex, fn, L, prev, env, st)

def unroll_bounded(ex, fn, L, prev, env, st):
    outs = []
    work = [(prev, env, st, 0)]
    while work:
        prev, env, st, k = work.pop()
        if k > ex.bounded_unroll:
            ex.bound_hit = True
            continue
        env = ex.do_phis(fn, L.header, prev, env, st)
        for o in ex.run(fn, L.header, prev, env, st, lambda b, p: 'back' if b == L.header else ('exit' if b not in L.blocks else None)):
            if o[0] == 'back': work.append((o[2], o[1], o[3], k + 1))
            else: outs.append(o)
    return outs

def solve_trip(ex, fn, L, hst, henv, Nat, N):
    """If the loop leaves from its header by comparing something linear in N with an
    invariant bound, return (T, kind): the header exits exactly when N == T (for T >= 0)."""
    from exec import Unsupported
    hdr = fn.blocks[L.header]
    t = hdr.insts[-1]
    if t.op != 'br' or len(t.x) != 2: return None
    ins = [b in L.blocks for b in t.x]
    if ins == [True, True] or ins == [False, False]: return None
    cv = t.ops[0][1]
    s2, e2 = hst.fork(), dict(henv)
    ci = None
    ex.dry += 1
    cmpv = None
    try:
        for inst in hdr.insts[:-1]:
            if inst.op in ('call', 'invoke'):
                res = ex.do_call(fn, inst, e2, s2)
                if len(res) != 1 or res[0][0] != 'ret': return None
                if inst.res: e2[inst.res] = res[0][1]
                s2 = res[0][2]; continue
            if inst.op == 'select': return None
            if inst.op == 'icmp' and inst.res == cv:
                a = ex.val(s2, e2, *inst.ops[0]); b = ex.val(s2, e2, *inst.ops[1])
                cmpv = (inst.x, a, b)
            if ex.step(fn, inst, e2, s2) is False: return None
    except Unsupported:
        return None
    finally:
        ex.dry -= 1
    if cmpv is None: 
        # maybe xor/not of an icmp computed by a called function (operator!= of iterators)
        c = e2.get(cv)
        cmpv = decompose(c)
        if cmpv is None: return None
    pred, a, b = cmpv
    from exec import PI
    if isinstance(a, PI): a = a.p
    if isinstance(b, PI): b = b.p
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.isnull or b.isnull or a.rid != b.rid: return None
        a, b = a.off, b.off
    if not isinstance(a, P) or not isinstance(b, P): return None
    if not ins[0]:   # true edge leaves: negate
        pred = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[pred]
    if pred == 'eq': return None
    p = pred.lstrip('su') if pred not in ('ne',) else 'ne'
    # continue condition as  D > 0  /  D >= 0 / D != 0
    if p == 'lt': D, strict = b - a, True
    elif p == 'le': D, strict = b - a, False
    elif p == 'gt': D, strict = a - b, True
    elif p == 'ge': D, strict = a - b, False
    else: D, strict = b - a, None
    lin = D.linear_in(Nat)
    if lin is None: return None
    c0, c1 = lin
    if any(x > Nat for x in c0.atoms() | c1.atoms()): return None
    k = c1.const
    if strict is None:
        if k is None or k == 0: return None
        q = c0.divexact(-k) if k else None
        if q is None: 
            return None
        return q, 'ne'
    if k is None or k >= 0: return None
    k = -k
    if strict is False: c0 = c0 + 1       # D>=0 <=> D+1>0
    # continue iff c0 - k*N > 0 iff N < c0/k ;  T = ceil(c0/k)
    if k == 1: return c0, 'lt'
    q = c0.divexact(k)
    if q is not None: return q, 'lt'
    return P.of((c0 + (k - 1)).z3() / z3.IntVal(k)), 'lt'

def decompose(c):
    neg = False
    if not isinstance(c, z3.BoolRef): return None
    while z3.is_not(c):
        neg = not neg; c = c.arg(0)
    k = c.decl().kind()
    m = {z3.Z3_OP_EQ: 'eq', z3.Z3_OP_DISTINCT: 'ne', z3.Z3_OP_LT: 'slt', z3.Z3_OP_LE: 'sle', z3.Z3_OP_GT: 'sgt', z3.Z3_OP_GE: 'sge'}.get(k)
    if m is None or not z3.is_int(c.arg(0)): return None
    if neg: m = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[m]
    return m, pz(c.arg(0)), pz(c.arg(1))

def ptr_stride(st, v):
    r = st.mem.get(v.rid)
    if r is None: return v.hint or 8
    return r.stride or v.hint or 8

def fresh_like(v, nm, st=None):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef): return fresh_bool(nm)
    if isinstance(v, P):
        return fresh_int(nm)
    if isinstance(v, R): return fresh_real(nm)
    if isinstance(v, Ptr):
        if v.isnull or v.rid == 'undef': return v
        if st is not None: return Ptr(v.rid, v.off + fresh_int(nm + '_k') * ptr_stride(st, v), v.nullc, v.hint, v.idx)
        return Ptr(v.rid, fresh_int(nm + '_off'), v.nullc, v.hint, v.idx)
    if isinstance(v, list): return [fresh_like(x, nm) for x in v]
    return v

def check_stride(st, h, b):
    from exec import Unsupported
    if isinstance(h, Ptr) and isinstance(b, Ptr) and not h.isnull and h.rid != 'undef':
        if b.rid != h.rid: raise Unsupported('pointer changes object inside a loop')
        if (b.off - h.off).divexact(ptr_stride(st, h)) is None: raise Unsupported('pointer moves by a fraction of an element')

def back_diff(h, b, wm):
    """step polynomial when b == h + step with step free of atoms younger than wm"""
    if isinstance(h, P) and isinstance(b, P):
        d = b - h
        if d.max_atom() < wm: return d
    if isinstance(h, Ptr) and isinstance(b, Ptr) and h.rid == b.rid and (h.idx is b.idx or h.idx is not None and b.idx is not None and h.idx[0].same(b.idx[0]) and h.idx[1].same(b.idx[1])):
        d = b.off - h.off
        if d.max_atom() < wm: return d
    return None

def same_val(a, b):
    if a is b: return True
    if isinstance(a, P) and isinstance(b, P): return a.same(b)
    if isinstance(a, R) and isinstance(b, R):
        if a.const is not None or b.const is not None: return a.const == b.const
        return a.z3().get_id() == b.z3().get_id()
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.rid == b.rid and a.off.same(b.off) and (a.idx is b.idx or (a.idx is not None and b.idx is not None and a.idx[0].same(b.idx[0]) and a.idx[1].same(b.idx[1])))
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef): return a.get_id() == b.get_id()
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    return False

def mem_diff(h, b):
    """keys modified between states h and b (regions existing in h)"""
    from exec import Unsupported
    out = set()
    for rid, r in h.mem.items():
        r2 = b.mem.get(rid)
        if r2 is r or r2 is None: continue
        if r2.alive != r.alive: out.add((rid, 'alive'))
        if r2.kind != r.kind and r.kind not in ('untyped',):
            out.add((rid, 'kind'))
        for o, c in r2.cells.items():
            c0 = r.cells.get(o)
            if c0 is None:
                if r.owner in ('stack', 'alloc') or r.lazy is None: out.add((rid, 'cell', o, c[0]))
                else: out.add((rid, 'cell', o, c[0]))
            elif c0[0] != c[0] or not same_val(c0[1], c[1]): out.add((rid, 'cell', o, c[0]))
        for col, c in r2.cols.items():
            c0 = r.cols.get(col)
            if c0 is None:
                out.add((rid, 'newcol', col, c[0], c[1], r2.stride))
            elif c0[2].get_id() != c[2].get_id(): out.add((rid, 'col', col))
        if r.size is not None and r2.size is not r.size and (r2.size is None or not r2.size.same(r.size)): out.add((rid, 'size'))
    return out

def invariant_mode(ex, fn, L, prev, env, st):
    depth = len(ex.loopstack)
    try: return invariant_mode_(ex, fn, L, prev, env, st)
    finally: del ex.loopstack[depth:]

def invariant_mode_(ex, fn, L, prev, env, st):
    from exec import Unsupported
    if ex.verbose and not ex.dry: print('  ' * len(ex.callstack), 'loop', fn.name, L.header, 'line', ex.mod.line(fn.blocks[L.header].insts[-1].dbg), flush=True)
    entry_phis = header_entry_phis(ex, fn, L, prev, env, st)
    wm = atom_watermark()
    Nz = z3.Int(fresh_name('N'))
    Nat = atom_index(Nz)
    N = P.of(Nz)
    outer_depth = len(ex.loopstack)
    mods = {}          # key -> step or None
    newcols = {}       # (rid,col) -> (size,kind,stride)
    phi_step = {ph: None for ph in entry_phis}
    iv_known = False
    stopf = lambda b, p: 'back' if b == L.header else ('exit' if b not in L.blocks else None)
    # prepare: type regions that the loop will type
    base = st
    def header_state(Nval, extra_pc=()):
        s = base.fork()
        e = dict(env)
        phis = {}
        for ph, v0 in entry_phis.items():
            stp = phi_step[ph]
            if stp is None: phis[ph] = fresh_like(v0, ph[1:], s)
            elif isinstance(v0, Ptr): phis[ph] = Ptr(v0.rid, v0.off + stp * Nval, v0.nullc, v0.hint, v0.idx)
            elif isinstance(v0, (R, bool, z3.BoolRef, list)) or not isinstance(v0, P): phis[ph] = v0   # unchanged
            else: phis[ph] = v0 + stp * Nval
        e.update(phis)
        for (rid, col), (sz, kk, stride) in newcols.items():
            r = s.w(rid)
            if r.kind == 'untyped':
                r.kind, r.stride = 'arr', stride
            if col not in r.cols:
                r.cols[col] = (sz, kk, entry_newcol[(rid, col)])
        for key, stp in mods.items():
            rid = key[0]
            r = s.w(rid)
            if key[1] == 'cell':
                o = key[2]
                c0 = r.cells.get(o)
                if c0 is None:
                    # value not defined before the loop: havoc by kind of the body's value
                    tmpl = cell_tmpl[key]
                    if r.zero and o not in r.cells: c0 = (key[3], P.of(0) if isinstance(tmpl, P) else R.of(0) if isinstance(tmpl, R) else NULL)
                    else:
                        r.cells.pop(o, None)
                        if r.lazy: r.cells[o] = (key[3], fresh_like(tmpl, 'cell'))
                        elif ex.dry or True:
                            r.cells[o] = (key[3], fresh_like(tmpl, 'cell'))
                        continue
                v0 = c0[1]
                if stp is None: r.cells[o] = (key[3], fresh_like(v0, 'cell', s))
                elif isinstance(v0, Ptr): r.cells[o] = (key[3], Ptr(v0.rid, v0.off + stp * Nval, v0.nullc, v0.hint, v0.idx))
                else: r.cells[o] = (key[3], v0 + stp * Nval)
            elif key[1] == 'size': r.size = None
            elif key[1] == 'col':
                sz, kk, a = r.cols[key[2]]
                r.cols[key[2]] = (sz, kk, fresh_array(r.name, kk))
        for key in mods:
            # a vector is as long as its end pointer says (kept by every vector operation; checked at the back edges)
            if key[1] == 'size':
                l = size_link(key[0])
                if l is not None: s.mem[key[0]].size = s.mem[l[0]].cells[l[2]][1].off
        return s, e, phis
    def size_link(rid):
        z = base.mem[rid].size
        for k in sorted((k for k in mods if k[1] == 'cell'), key=lambda k: (k[0], k[2])):
            x = base.mem[k[0]].cells.get(k[2])
            if x is not None and isinstance(x[1], Ptr) and not x[1].isnull and x[1].rid == rid and z is not None and x[1].off.same(z): return k
        return None
    entry_newcol, cell_tmpl = {}, {}

    # ---- phase A: modified set and induction variables (no proof obligations)
    ex.dry += 1
    ex.loopstack.append(N)
    saved_writes = ex.writes
    try:
        for it in range(12):
            hst, henv, hphis = header_state(N)
            hst.assume(N >= 0)
            # cheap trip knowledge helps inner feasibility
            ex.writes = []
            outs = ex.run(fn, L.header, None, henv, hst.fork(), stopf, first=True)
            backs = [o for o in outs if o[0] == 'back']
            changed = False
            for o in backs:
                d = mem_diff(hst, o[3])
                for key in d:
                    if key[1] == 'newcol':
                        k2 = (key[0], key[2])
                        if k2 not in newcols:
                            r = hst.mem[key[0]]
                            newcols[k2] = (key[3], key[4], key[5])
                            entry_newcol[k2] = z3.K(z3.IntSort(), z3.RealVal(0) if key[4] == 'real' else z3.IntVal(0)) if r.zero else fresh_array(r.name, key[4])
                            changed = True
                        ck = (key[0], 'col', key[2])
                        if ck not in mods: mods[ck] = None; changed = True
                    elif key[1] == 'alive': raise Unsupported('memory freed inside a loop')
                    elif key[1] == 'kind': 
                        raise Unsupported('region %s retyped inside a loop' % hst.mem[key[0]].name)
                    elif key[1] == 'size':
                        if hst.mem[key[0]].name != 'vec': raise Unsupported('region resized inside a loop')
                        if key not in mods: mods[key] = None; changed = True
                    else:
                        if key not in mods:
                            mods[key] = None; changed = True
                            if key[1] == 'cell':
                                cell_tmpl[key] = o[3].mem[key[0]].cells[key[2]][1]
            if not changed:
                # induction steps
                ch2 = False
                if not iv_known:
                    for ph in entry_phis:
                        bvals = [phi_back(ex, fn, L, o, ph) for o in backs]
                        h = hphis[ph]
                        steps = [back_diff(h, b, wm) for b in bvals]
                        if bvals and all(same_val(h, b) for b in bvals):
                            phi_step[ph] = P.of(0); ch2 = True
                        elif steps and all(s is not None for s in steps) and all(s.same(steps[0]) for s in steps):
                            phi_step[ph] = steps[0]; ch2 = True
                        elif isinstance(h, Ptr) and any(isinstance(b, Ptr) and b.rid != h.rid for b in bvals):
                            raise Unsupported('pointer changes object inside a loop')
                    for key in list(mods):
                        if key[1] == 'cell':
                            h = hst.mem[key[0]].cells.get(key[2])
                            v0 = base.mem[key[0]].cells.get(key[2])
                            if h is None or v0 is None: continue
                            bv = [o[3].mem[key[0]].cells[key[2]][1] for o in backs]
                            steps = [back_diff(h[1], b, wm) for b in bv]
                            if steps and all(s is not None for s in steps) and all(s.same(steps[0]) for s in steps) and isinstance(v0[1], (P, Ptr)):
                                mods[key] = steps[0]; ch2 = True
                            elif isinstance(h[1], Ptr) and any(isinstance(b, Ptr) and b.rid != h[1].rid for b in bv):
                                raise Unsupported('stored pointer changes object inside a loop')
                    iv_known = True
                if not ch2: break
        else:
            raise Unsupported('modified set does not stabilise')
        # re-validate induction steps found (they were computed with other values havoc'd: sound
        # because the step holds for arbitrary header values; re-check once more)
        for ph in entry_phis:
            if phi_step[ph] is not None:
                for o in backs:
                    b, h = phi_back(ex, fn, L, o, ph), hphis[ph]
                    if phi_step[ph].const == 0 and same_val(h, b): continue
                    d = back_diff(h, b, wm)
                    want = phi_step[ph]
                    if d is None or not d.same(want):
                        phi_step[ph] = None; break
        writes = ex.writes
    finally:
        ex.dry -= 1
        ex.writes = saved_writes
    if saved_writes is not None:
        for w in writes: 
            if w[0] in st.mem: saved_writes.append((w[0], w[1], w[2] if w[2] is not None and w[2].max_atom() < wm else None))
    ivs = {ph for ph in entry_phis if phi_step[ph] is not None}

    # ---- trip count
    hst0, henv0, hphis0 = header_state(N)
    hst0.assume(N >= 0)
    trip = solve_trip(ex, fn, L, hst0, henv0, Nat, N)
    if ex.dry:
        # optimistic: used only to discover modified sets and steps of enclosing loops
        if trip is not None:
            sT, eT, _ = header_state(trip[0])
            outs = ex.run(fn, L.header, None, eT, sT, stopf, first=True)
            ex_outs = [o for o in outs if o[0] == 'exit' and o[2] == L.header]
            hs, he, _ = header_state(N); hs.assume(N >= 0)
            outs2 = ex.run(fn, L.header, None, he, hs, stopf, first=True)
            ex_outs += [o for o in outs2 if (o[0] in ('ret', 'throw')) or (o[0] == 'exit' and o[2] != L.header)]
            return ex_outs
        hs, he, _ = header_state(N); hs.assume(N >= 0)
        return [o for o in ex.run(fn, L.header, None, he, hs, stopf, first=True) if o[0] != 'back']

    exits = []
    T = None
    if trip is not None:
        T, kind = trip
        pos = ex.proves(st, T >= 0)
        if not pos:
            if kind == 'ne':
                ex.oblige(st, 'loop bound reached (iteration count non-negative)', T >= 0, fn.blocks[L.header].insts[-1])
                base = st
            else:
                # zero-trip path when T < 0
                s0 = st.fork(); s0.assume(T < 0)
                if ex.feasible(s0):
                    e0 = dict(env); e0.update(entry_phis)
                    for o in ex.run(fn, L.header, None, e0, s0, stopf, first=True):
                        if o[0] != 'back': exits.append(o)
                base = st.fork(); base.assume(T >= 0)
                if not ex.feasible(base): return exits
                st = base

    # ---- candidates
    spec, ctx = ex.spec, ex.ctx
    entry_st = st
    if newcols:
        entry_st = st.fork()
        for (rid, col), (sz, kk, stride) in newcols.items():
            r = entry_st.w(rid)
            if r.kind == 'untyped': r.kind, r.stride = 'arr', stride
            if col not in r.cols: r.cols[col] = (sz, kk, entry_newcol[(rid, col)])
        base = entry_st
    def view(Nv, phis, s):
        del ex.loopstack[outer_depth:]
        v = View_(Nv, phis, s)
        ex.loopstack.append(N)
        return v
    def View_(Nv, phis, s):
        return View(ex, fn, L, Nv, phis, s, entry_phis, entry_st, ivs, mods)
    user = set()
    def cands(v):
        out = [(n, f) for n, f in auto_cands(ex, v, T, writes, wm, phi_step) if getattr(spec, 'frames', True) or not n.startswith(('frame', 'unchanged'))]
        if spec is not None and hasattr(spec, 'inv'):
            with ctx.at(v.st, v):
                u = list(enumerate_named(spec.inv(ctx, v)))
            user.update(n for n, _ in u)
            out += u
        return out
    # (concrete loop counters of unrolled enclosing loops tell their rounds apart)
    rnd = tuple(sorted((k, v.const) for k, v in env.items() if isinstance(v, P) and v.const is not None and isinstance(k, str)))
    memo_key = (tuple(ex.callstack), tuple(ex.sites), fn.name, L.header, rnd)
    v0 = view(0, entry_phis, entry_st)
    alive = []
    prior = ex.houdini_memo.get(memo_key)
    c0 = cands(v0)
    pre0 = par_prove(ex, entry_st, [(n, f) for n, f in c0 if n in user and (prior is None or n in prior)], 1500)
    for name, f in c0:
        if prior is not None and name not in prior: continue
        if f is True or pre0.get(name) or ex.proves(entry_st, f, 1500, 'cand') or (name in user and getattr(spec, 'fresh', False) and ex.proves_fresh(entry_st, f)) or (name in user and getattr(spec, 'reseed', False) and ex.proves_seeds(entry_st, f)): alive.append(name)
        elif ex.dump and name.startswith(ex.dump[0]): ex.dump[1].append((name, list(entry_st.pc), f))
    if ex.verbose: print('  ' * len(ex.callstack), ' init', len(alive), 'of', len(c0), flush=True)
    snap = (len(ex.obls), ex.trivial)
    # entry-derived definitional facts may have been pushed on entry_st by the spec
    rounds = 0
    while True:
        rounds += 1
        del ex.obls[snap[0]:]; ex.trivial = snap[1]
        hst, henv, hphis = header_state(N)
        hst.assume(N >= 0)
        if T is not None: hst.assume(N < T)
        hv = view(N, hphis, hst)
        al = set(alive)
        hc = [(n, f) for n, f in cands(hv) if n in al]
        for n, f in hc: hst.assume(f)
        outs = ex.run(fn, L.header, None, henv, hst.fork(), stopf, first=True)
        backs = [o for o in outs if o[0] == 'back']
        dropped = set()
        for o in backs:
            bphis = {ph: phi_back(ex, fn, L, o, ph) for ph in entry_phis}
            bs = o[3].fork()
            bv = view(N + 1, bphis, bs)
            cb = [(n, f) for n, f in cands(bv) if n in al and n not in dropped]
            pre = par_prove(ex, bs, [(n, f) for n, f in cb if n in user], 2500)
            for n, f in cb:
                if f is True or pre.get(n): continue
                if n in pre: ok_ = False
                else: ok_ = None
                if ok_ is False or not ex.proves(bs, f, 2500, 'cand') and not (n in user and getattr(spec, 'fresh', False) and ex.proves_fresh(bs, f)) and not (n in user and getattr(spec, 'reseed', False) and ex.proves_seeds(bs, f)):
                    dropped.add(n)
                    if ex.dump and n.startswith(ex.dump[0]): ex.dump[1].append((n, list(bs.pc), f))
                    if ex.verbose: print('  ' * len(ex.callstack), ' drop', n, flush=True)
        # steps/mods sanity with the full context
        for o in backs:
            for ph in entry_phis:
                if phi_step[ph] is None: check_stride(hst, entry_phis[ph], phi_back(ex, fn, L, o, ph))
            for key, stp in mods.items():
                if key[1] == 'cell' and stp is None and isinstance(hst.mem[key[0]].cells[key[2]][1], Ptr):
                    check_stride(hst, hst.mem[key[0]].cells[key[2]][1], o[3].mem[key[0]].cells[key[2]][1])
            for key in mods:
                if key[1] == 'size' and hst.mem[key[0]].size is not None:
                    l = size_link(key[0]); z, x = o[3].mem[key[0]].size, o[3].mem[l[0]].cells[l[2]][1]
                    if z is None or not isinstance(x, Ptr) or x.rid != key[0] or not x.off.same(z): raise Unsupported('vector size not that of its end pointer')
            for key in mem_diff(hst, o[3]):
                if key[1] in ('cell', 'col') and (key if key[1] == 'col' else key) not in mods:
                    raise Unsupported('modified set incomplete: %r' % (key,))
                if key[1] in ('newcol', 'alive', 'kind') or key[1] == 'size' and key not in mods:
                    raise Unsupported('modified set incomplete: %r' % (key,))
            for key, stp in mods.items():
                if key[1] == 'cell' and stp is not None:
                    h = hst.mem[key[0]].cells[key[2]][1]; b = o[3].mem[key[0]].cells[key[2]][1]
                    d = back_diff(h, b, 1 << 60)
                    if d is None or not d.same(stp): raise Unsupported('unstable induction step')
            for ph in entry_phis:
                if phi_step[ph] is not None:
                    h, b = hphis[ph], phi_back(ex, fn, L, o, ph)
                    if phi_step[ph].const == 0 and same_val(h, b): continue
                    d = back_diff(h, b, 1 << 60)
                    if d is None or not d.same(phi_step[ph]): raise Unsupported('unstable induction step')
            if not ex.dry:
                for rid, r in o[3].mem.items():
                    if rid not in hst.mem and r.owner == 'alloc' and r.alive and r.heap:
                        pass
        if not dropped: break
        alive = [n for n in alive if n not in dropped]
        ex.houdini_memo[memo_key] = set(alive)
    ex.houdini_memo[memo_key] = set(alive)
    ex.loop_log.append((fn.name, ex.mod.line(fn.blocks[L.header].insts[-1].dbg), tuple(alive), rounds))
    if ex.verbose: print('  ' * len(ex.callstack), ' kept', alive, flush=True)
    for o in outs:
        if o[0] in ('ret', 'throw'): exits.append(o)
        elif o[0] == 'exit' and not (T is not None and o[2] == L.header): exits.append(o)
    if T is not None:
        sT, eT, phT = header_state(T)
        vT = view(T, phT, sT)
        for n, f in cands(vT):
            if n in al: sT.assume(f)
        for o in ex.run(fn, L.header, None, eT, sT, stopf, first=True):
            if o[0] == 'exit' and o[2] == L.header: exits.append(o)
            elif o[0] == 'back' or o[0] == 'exit' :
                # the exit test was not decided: keep soundness by keeping the outcome feasible
                if o[0] == 'back':
                    if ex.feasible(o[3]): raise Unsupported('trip count not exact')
    return exits

def par_prove(ex, st, items, timeout):
    """check candidates in parallel children (specifications with par=True); -> name -> proved"""
    if not getattr(ex.spec, 'par', False) or ex.dump or len(items) < 3: return {}
    items = [(n, f) for n, f in items if f is not True]
    import verify
    def one(it):
        f = it[1]
        t = [time.time()]
        r = None
        fr = getattr(ex.spec, 'fresh', False)
        for k, g in (('quick', lambda: ex.proves(st, f, 300, 'cand')), ('all', lambda: fr and ex.proves_fresh(st, f, order=1)), ('inc', lambda: ex.proves(st, f, timeout, 'cand')), ('fresh', lambda: fr and ex.proves_fresh(st, f, order=0)), ('seeds', lambda: getattr(ex.spec, 'reseed', False) and ex.proves_seeds(st, f))):
            if g(): r = k; t.append(time.time()); break
            t.append(time.time())
        if ex.verbose: print('   ', it[0], r, ['%.1f' % (b - a) for a, b in zip(t, t[1:])], flush=True)
        return r is not None
    res = verify.fork_map(one, items, 6, 60 * ex.tscale)
    return {n: bool(r) for (n, f), r in zip(items, res)}

def enumerate_named(it):
    """candidates with distinct names"""
    seen = {}
    for n, f in it:
        k = seen[n] = seen.get(n, 0) + 1
        yield (n if k == 1 else '%s#%d' % (n, k)), f

def phi_back(ex, fn, L, o, ph):
    _, env, prev, s = o
    for p in fn.blocks[L.header].phis:
        if p.res == ph:
            for v, b in p.x:
                if b == prev: return ex.val(s, env, p.ty, v)
    raise KeyError(ph)

def auto_cands(ex, v, T, writes, wm, phi_step):
    """engine-supplied candidates: frames of written arrays, sign of integers"""
    N = v.N
    # integers that only grow from a non-negative start
    for n, x in v.named_ints:
        yield ('nonneg:' + n, x >= 0)
        e0 = v.entry_phis[n]
        yield ('ge-entry:' + n, x >= e0)
    for key in v.mods:
        if key[1] == 'cell' and v.mods[key] is None:
            c = v.st.mem[key[0]].cells.get(key[2])
            if c is not None and isinstance(c[1], P):
                yield ('cell-nonneg:%s' % (key,), c[1] >= 0)
    wk = {}
    for rid, col, idx in writes:
        wk.setdefault((rid, col), []).append(idx)
    ivvals = [(n, x, v.entry_phis[n]) for n, x in v.phis.items() if isinstance(x, P) and (n not in v.ivs or phi_step[n].const != 0)]
    for key in v.mods:
        if key[1] != 'col': continue
        rid, col = key[0], key[2]
        r, r0 = v.st.mem[rid], v.entry_st.mem[rid]
        if col not in r.cols or col not in r0.cols: continue
        kk = r.cols[col][1]
        a, a0 = r.cols[col][2], r0.cols[col][2]
        q = z3.Int('q!frame')
        eq = z3.Select(a, q) == z3.Select(a0, q)
        if z3.eq(a, a0):
            # at the entry every frame holds
            for n, x, x0 in ivvals:
                yield ('frame>=%s:%s' % (n, key), True)
                yield ('frame<%s:%s' % (n, key), True)
            for j, lab in enumerate(('frameN>=', 'frameN<')): yield ('%s:%s' % (lab, key), True)
            for j in range(len(wk.get((rid, col), []))): yield ('framew%d:%s' % (j, key), True)
            yield ('unchanged:%s' % (key,), True)
            yield ('framefix:%s' % (key,), True)
            continue
        yield ('unchanged:%s' % (key,), terms.mkforall([q], eq, [(z3.Select(a, q),)]))
        for n, x, x0 in ivvals:
            stp = phi_step.get(n)
            yield ('frame>=%s:%s' % (n, key), terms.mkforall([q], z3.Implies(q >= x.z3(), eq), [(z3.Select(a, q),)]))
            yield ('frame<%s:%s' % (n, key), terms.mkforall([q], z3.Implies(q < x0.z3(), eq), [(z3.Select(a, q),)]))
        ws = wk.get((rid, col), [])
        if ws and all(i is not None and i.max_atom() < wm for i in ws):
            ds = {i.key(): i for i in ws}
            yield ('framefix:%s' % (key,), terms.mkforall([q], z3.Implies(z3.And([q != i.z3() for i in ds.values()]), eq), [(z3.Select(a, q),)]))
        yield ('frameN>=:%s' % (key,), terms.mkforall([q], z3.Implies(q >= N.z3(), eq), [(z3.Select(a, q),)]))
        yield ('frameN<:%s' % (key,), terms.mkforall([q], z3.Implies(q < 0, eq), [(z3.Select(a, q),)]))
