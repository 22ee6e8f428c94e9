"""Models of C library functions and compiler intrinsics (trusted; listed in the evidence)."""
import re
import z3
from terms import *

_tab = {}
def model(*names):
    def deco(f):
        for n in names: _tab[n] = f
        return f
    return deco

_rx = []
def rxmodel(pat):
    def deco(f):
        _rx.append((re.compile(pat), f)); return f
    return deco

_cache = {}
def lookup(ex, name):
    f = _tab.get(name)
    if f is None:
        if name.startswith('llvm.'): f = intrinsic(name)
        elif name.startswith(('_Z', '__cxa_')):
            import cxxmodels
            f = cxxmodels.lookup(ex, name)
    if f is not None: 
        if not name.startswith('llvm.'): ex.used_models.add(name if not name.startswith(('_Z', '__cxa')) else 'c++: ' + cx_name(name))
    return f

def cx_name(n):
    import cxxmodels
    return re.sub(r'\(.*', '', cxxmodels.demangle(n))[:100]

def ret(st, v=None): return [('ret', v, st)]

def intrinsic(name):
    if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stackrestore', 'llvm.va_')):
        return lambda ex, st, a, inst: ret(st)
    if name.startswith('llvm.stacksave'): return lambda ex, st, a, inst: ret(st, NULL)
    if name.startswith(('llvm.memcpy', 'llvm.memmove')):
        def f(ex, st, a, inst):
            ex.memcpy(st, a[0], a[1], a[2], inst); return ret(st)
        return f
    if name.startswith('llvm.memset'):
        def f(ex, st, a, inst):
            ex.memset(st, a[0], a[1], a[2], inst); return ret(st)
        return f
    if name.startswith('llvm.fabs'): return m_fabs
    if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma'):
        return lambda ex, st, a, inst: ret(st, a[0] * a[1] + a[2])
    if name.startswith('llvm.umax') or name.startswith('llvm.smax'):
        return lambda ex, st, a, inst: ret(st, Ite(a[0] >= a[1], a[0], a[1]))
    if name.startswith('llvm.umin') or name.startswith('llvm.smin'):
        return lambda ex, st, a, inst: ret(st, Ite(a[0] <= a[1], a[0], a[1]))
    if name.startswith('llvm.abs'):
        return lambda ex, st, a, inst: ret(st, Ite(a[0] >= 0, a[0], -a[0]))
    if name.startswith('llvm.eh.typeid'): return lambda ex, st, a, inst: ret(st, P.of(1))
    if name.startswith('llvm.trap'): 
        def f(ex, st, a, inst):
            ex.oblige(st, 'trap', False, inst); return []
        return f
    if name.startswith('llvm.expect'): return lambda ex, st, a, inst: ret(st, a[0])
    if name.startswith('llvm.floor'): return m_floor
    if name.startswith('llvm.is.constant'): return lambda ex, st, a, inst: ret(st, False)
    if name.startswith('llvm.sqrt'): return m_sqrt
    if name.startswith('llvm.umul.with.overflow'):
        return lambda ex, st, a, inst: ret(st, [a[0] * a[1], False])
    return None

@model('__assert_fail', 'abort', '_ZSt9terminatev', '__clang_call_terminate')
def m_assert(ex, st, a, inst):
    ex.oblige(st, 'assertion holds' , False, inst)
    return []
@model('exit')
def m_exit(ex, st, a, inst):
    return [('exit', None, st)] if False else []

@model('malloc')
def m_malloc(ex, st, a, inst):
    return ret(st, ex.malloc(st, a[0], 'heap%s' % (ex.mod.line(inst.dbg) if inst is not None else '')))
@model('calloc')
def m_calloc(ex, st, a, inst):
    return ret(st, ex.malloc(st, ex.as_P(a[0]) * ex.as_P(a[1]), 'heap%s' % ex.mod.line(inst.dbg), zero=True))
@model('free')
def m_free(ex, st, a, inst):
    ex.free(st, a[0], inst); return ret(st)

@model('realloc')
def m_realloc(ex, st, a, inst):
    p, size = a[0], ex.as_P(a[1])
    if p.isnull: return ret(st, ex.malloc(st, size, 'realloc'))
    reg = st.mem[p.rid]
    if p.nullc is not False:
        # fork on the nullness of the argument
        out = []
        s0 = st.fork(); s0.assume(p.nullc)
        if ex.feasible(s0): out += ret(s0, ex.malloc(s0, size, 'realloc'))
        st.assume(Not(p.nullc))
        if not ex.feasible(st): return out
        p = Ptr(p.rid, p.off, False, p.hint, p.idx)
        return out + m_realloc(ex, st, [p, size], inst)
    if not reg.alive: ex.oblige(st, 'realloc of freed memory', False, inst); return []
    if not reg.heap: ex.oblige(st, 'realloc of non-heap memory', False, inst); return []
    ex.oblige(st, 'realloc of interior pointer', p.off == 0, inst)
    out = []
    if ex.oom:
        s0 = st.fork(); fb = fresh_bool('oom_realloc'); s0.assume(fb)
        st.assume(Not(fb))
        out += ret(s0, NULL)
    q = ex.malloc(st, size, reg.name, nullable=False)
    nr = st.w(q.rid)
    old = st.mem[p.rid]
    if old.kind == 'arr':
        nr.kind, nr.stride = 'arr', old.stride
        oldn, newn = old.length(), size.divexact(old.stride)
        for c, (sz, k, arr) in old.cols.items():
            na = fresh_array(reg.name, k)
            qv = z3.Int(fresh_name('k'))
            lim = [qv >= 0]
            if oldn is not None: lim.append(qv < oldn.z3())
            if newn is not None: lim.append(qv < newn.z3())
            st.assume(z3.ForAll([qv], z3.Implies(z3.And(lim), z3.Select(na, qv) == z3.Select(arr, qv)), patterns=[z3.Select(na, qv)]))
            nr.cols[c] = (sz, k, na)
        if old.tgt: nr.tgt = dict(old.tgt)
    elif old.kind == 'cells':
        nr.kind = 'cells'; nr.cells = dict(old.cells); nr.lazy = old.lazy
    o = st.w(p.rid); o.alive = False
    return out + ret(st, q)

@model('strlen')
def m_strlen(ex, st, a, inst):
    t = getattr(ex, 'texts', {}).get(a[0].rid)
    if t is None: raise Unsupported('length of an unspecified string')
    ex.oblige(st, 'length of a null string', Not(a[0].nullc), inst)
    return ret(st, t - a[0].off)
@model('strcpy')
def m_strcpy(ex, st, a, inst):
    t = getattr(ex, 'texts', {}).get(a[1].rid)
    if t is None: raise Unsupported('copy of an unspecified string')
    ex.memcpy(st, a[0], a[1], t - a[1].off + 1, inst); return ret(st, a[0])

@model('memcpy', 'memmove')
def m_memcpy(ex, st, a, inst):
    ex.memcpy(st, a[0], a[1], a[2], inst); return ret(st, a[0])
@model('memset')
def m_memset(ex, st, a, inst):
    ex.memset(st, a[0], a[1], a[2], inst); return ret(st, a[0])

@model('fabs', 'abs_double')
def m_fabs(ex, st, a, inst):
    x = a[0]
    if x.const is not None: return ret(st, R(abs(x.const)))
    return ret(st, Ite(x >= 0, x, -x))
@model('abs', 'labs')
def m_abs(ex, st, a, inst): return ret(st, Ite(a[0] >= 0, a[0], -a[0]))
@model('floor')
def m_floor(ex, st, a, inst):
    x = a[0]
    if x.const is not None:
        import math; return ret(st, R.of(math.floor(x.const)))
    return ret(st, R.of(P.of(z3.ToInt(x.z3()))))
@model('sqrt')
def m_sqrt(ex, st, a, inst):
    x = a[0]
    f = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
    r = R(f(som(x.z3())))
    st.assume(Implies(x >= 0, And(r >= 0, r * r == x)))
    return ret(st, r)
def som(t):
    """sum-of-monomials normal form, so that equal polynomials are the same argument"""
    return z3.simplify(t, som=True, sort_sums=True)
for _n in ('exp', 'log', 'log10', 'sin', 'cos', 'tan'):
    def _mk(n):
        def f(ex, st, a, inst):
            g = z3.Function(n, z3.RealSort(), z3.RealSort())
            r = R(g(a[0].z3()))
            if n == 'exp': st.assume(r > 0)
            return ret(st, r)
        return f
    _tab[_n] = _mk(_n)
@model('pow')
def m_pow(ex, st, a, inst):
    c = a[1].const
    if c is not None and c.denominator == 1 and 0 <= c <= 6: return ret(st, a[0] ** int(c))
    g = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
    return ret(st, R(g(a[0].z3(), a[1].z3())))
@model('fmax')
def m_fmax(ex, st, a, inst): return ret(st, Ite(a[0] >= a[1], a[0], a[1]))
@model('fmin')
def m_fmin(ex, st, a, inst): return ret(st, Ite(a[0] <= a[1], a[0], a[1]))
@model('isnan', '__isnan', 'isinf', '__isinf')
def m_isnan(ex, st, a, inst): return ret(st, P.of(0))
@model('printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fflush', 'fputc', 'perror', 'vfprintf')
def m_printf(ex, st, a, inst): return ret(st, fresh_int('io'))
@model('strlen')
def m_strlen2(ex, st, a, inst):
    if a[0].rid in getattr(ex, 'texts', {}): return m_strlen(ex, st, a, inst)
    n = fresh_int('strlen'); st.assume(n >= 0)
    return ret(st, n)

@model('dgemv_')
def m_dgemv(ex, st, a, inst):
    """y := alpha*op(A)*x + beta*y for constant sizes and unit increments"""
    from exec import Unsupported
    ld = lambda p, i, k, sz: ex.load(st, k, Ptr(p.rid, p.off + P.of(i) * sz, p.nullc, p.hint, p.idx), inst)
    from ir import IntTy, DOUBLE as D
    I = IntTy(32)
    tr, pm, pn, al, A, lda, x, incx, be, y, incy = a[:11]
    m, n, la, ix, iy = [ex.as_P(ld(p, 0, I, 4)).const for p in (pm, pn, lda, incx, incy)]
    if None in (m, n, la, ix, iy) or ix != 1 or iy != 1: raise Unsupported('dgemv with symbolic sizes')
    t = ld(tr, 0, IntTy(8), 1) if not isinstance(tr, str) else None
    tc = ex.as_P(t).const
    if tc is None or chr(tc).upper() not in 'NT': raise Unsupported('dgemv with unknown transpose flag')
    alpha, beta = ld(al, 0, D, 8), ld(be, 0, D, 8)
    rows, cols = (m, n) if chr(tc).upper() == 'N' else (n, m)
    out = []
    for i in range(rows):
        acc = R.of(0)
        for j in range(cols):
            e = ld(A, j * la + i if chr(tc).upper() == 'N' else i * la + j, D, 8)
            acc = acc + e * ld(x, j, D, 8)
        acc = alpha * acc
        if beta.const != 0: acc = acc + beta * ld(y, i, D, 8)
        out.append(acc)
    for i, v in enumerate(out): ex.store(st, D, v, Ptr(y.rid, y.off + 8 * i, y.nullc, y.hint, y.idx), inst)
    return ret(st)

def cmp_eval(ex, st, f, pa, pb):
    """value of the comparison function on two elements, as one term"""
    from exec import Unsupported
    s = st.fork(); n0 = len(s.pc)
    outs = ex.call_named(f.name, [pa, pb], s, None) if f.name not in ex.mod.funcs or f.name in ex.handlers else ex.call_fn(f.name, [pa, pb], s)
    outs = [o for o in outs if o[0] == 'ret']
    if not outs: raise Unsupported('comparison function does not return')
    v = ex.as_P(outs[-1][1])
    for o in outs[:-1]: v = Ite(And(*o[2].pc[n0:]), ex.as_P(o[1]), v)
    return v

def sort_args(ex, st, base, n, size, inst, what):
    from exec import Unsupported
    n, size = ex.as_P(n), ex.as_P(size)
    ex.oblige(st, 'element count of %s is not negative' % what, n >= 0, inst)
    if n.const == 0 or base.isnull: return None
    reg = st.mem[base.rid]
    if not reg.alive: ex.oblige(st, 'use after free', n <= 0, inst)
    if reg.size is not None:
        ex.oblige(st, 'out of bounds %s of %s' % (what, reg.name), Or(n <= 0, And(base.off >= 0, base.off + n * size <= reg.size)), inst)
    if reg.kind != 'arr' or size.const != reg.stride: raise Unsupported(what + ' of this object')
    lo = base.off.divexact(reg.stride)
    if lo is None: raise Unsupported(what + ' alignment')
    return n, size.const, lo, reg

def elm(base, S, i): return Ptr(base.rid, P.of(i) * S, False, base.hint, base.idx)

@model('bsearch')
def m_bsearch(ex, st, a, inst):
    key, base, n, size, f = a
    r = sort_args(ex, st, base, n, size, inst, 'bsearch')
    if r is None: return ret(st, NULL)
    n, S, lo, reg = r
    i, j = fresh_int('bs_i'), fresh_int('bs_j')
    s = st.fork(); s.assume(And(lo <= i, i < lo + n))
    e = cmp_eval(ex, s, f, key, elm(base, S, i))
    at = lambda k: P.of(z3.substitute(e.z3(), (i.z3(), P.of(k).z3())))
    s.assume(And(i <= j, j < lo + n))
    ex.oblige(s, 'bsearch: elements are sorted', And(Not(And(e < 0, at(j) >= 0)), Not(And(e == 0, at(j) > 0))), inst)
    out = []
    s0 = st.fork()
    q = z3.Int(fresh_name('q')); qp = P.of(q)
    pats = [(sel(arr, qp, k),) for c, (sz, k, arr) in reg.cols.items()][:1]
    s0.assume(mkforall([q], z3.Implies(z3.And(q >= lo.z3(), q < (lo + n).z3()), at(qp).z3() != 0), pats))
    out += ret(s0, NULL)
    k = fresh_int('found')
    st.assume(And(lo <= k, k < lo + n, at(k) == 0))
    return out + ret(st, elm(base, S, k))

@model('qsort')
def m_qsort(ex, st, a, inst):
    base, n, size, f = a
    r = sort_args(ex, st, base, n, size, inst, 'qsort')
    if r is None: return ret(st)
    n, S, lo, reg = r
    i, j, k = fresh_int('qs_i'), fresh_int('qs_j'), fresh_int('qs_k')
    s = st.fork()
    for x in (i, j, k): s.assume(And(lo <= x, x < lo + n))
    c_ = {}
    for nm, x, y in (('ij', i, j), ('ji', j, i), ('jk', j, k), ('ik', i, k), ('ii', i, i)):
        c_[nm] = cmp_eval(ex, s, f, elm(base, S, x), elm(base, S, y))
    ex.oblige(s, 'qsort: comparison is reflexive', c_['ii'] == 0, inst)
    ex.oblige(s, 'qsort: comparison is antisymmetric', And(Iff(c_['ij'] < 0, c_['ji'] > 0), Iff(c_['ij'] == 0, c_['ji'] == 0)), inst)
    ex.oblige(s, 'qsort: comparison is transitive', Implies(And(c_['ij'] <= 0, c_['jk'] <= 0), c_['ik'] <= 0), inst)
    pi, ip = [z3.Function(fresh_name(x), z3.IntSort(), z3.IntSort()) for x in ('perm', 'iperm')]
    q = z3.Int(fresh_name('q'))
    L, H = lo.z3(), (lo + n).z3()
    inr = lambda x: z3.And(L <= x, x < H)
    reg = st.w(base.rid)
    for c, (sz, kk, arr) in list(reg.cols.items()):
        na = fresh_array(reg.name, kk)
        st.assume(mkforall([q], z3.And(z3.Implies(inr(q), z3.Select(na, q) == z3.Select(arr, pi(q))), z3.Implies(z3.Not(inr(q)), z3.Select(na, q) == z3.Select(arr, q))), [(z3.Select(na, q),)]))
        st.assume(mkforall([q], z3.Implies(z3.Not(inr(q)), z3.Select(na, q) == z3.Select(arr, q)), [(z3.Select(arr, q),)]))
        st.assume(mkforall([q], z3.Implies(inr(q), z3.Select(na, ip(q)) == z3.Select(arr, q)), [(z3.Select(arr, q),), (ip(q),)]))
        reg.cols[c] = (sz, kk, na)
        if ex.writes is not None: ex.writes.append((base.rid, c, None))
    st.assume(mkforall([q], z3.Implies(inr(q), z3.And(inr(pi(q)), ip(pi(q)) == q)), [(pi(q),)]))
    st.assume(mkforall([q], z3.Implies(inr(q), z3.And(inr(ip(q)), pi(ip(q)) == q)), [(ip(q),)]))
    s = st.fork()
    s.assume(And(lo <= i, i <= j, j < lo + n))
    d = ex.dry; no = len(ex.obls)
    e = cmp_eval(ex, s, f, elm(base, S, i), elm(base, S, j))
    x, y = z3.Int(fresh_name('q')), z3.Int(fresh_name('q'))
    b = z3.substitute(e.z3(), (i.z3(), x), (j.z3(), y)) <= 0
    (sz, kk, na), = list(reg.cols.values())[:1]
    st.assume(mkforall([x, y], z3.Implies(z3.And(L <= x, x <= y, y < H), b), [(sel(na, P.of(x), kk), sel(na, P.of(y), kk))]))
    return ret(st)

# ------------------------------------------------------------------ stdio: a file is a sequence of numbers with a cursor
@model('fopen')
def m_fopen(ex, st, a, inst):
    from exec import Reg, Unsupported
    F = getattr(ex.ctx, 'files', {}).get(a[0].rid)
    if F is None: raise Unsupported('fopen of an unknown file')
    reg = Reg('FILE', 'cells', P.of(16), heap=True, owner='alloc')
    reg.cells[0] = (8, P.of(0)); reg.cells[8] = (8, P.of(0))
    b = fresh_bool('fopen_fails')
    reg.nullc = b
    rid = ex.region(st, reg)
    ex.ctx.files[rid] = F
    return ret(st, Ptr(rid, P.of(0), b))
def _stream(ex, st, p, inst):
    from exec import Unsupported
    if p.isnull or p.rid not in getattr(ex.ctx, 'files', {}): raise Unsupported('unknown stream')
    if p.nullc is not False: ex.oblige(st, 'null stream', Not(p.nullc), inst)
    if not st.mem[p.rid].alive: ex.oblige(st, 'stream used after fclose', False, inst)
    return ex.ctx.files[p.rid]
@model('fclose')
def m_fclose(ex, st, a, inst):
    _stream(ex, st, a[0], inst)
    st.w(a[0].rid).alive = False
    return ret(st, fresh_int('fclose'))
@model('feof', 'ferror')
def m_feof(ex, st, a, inst):
    _stream(ex, st, a[0], inst); return ret(st, fresh_int('feof'))
@model('clearerr')
def m_clearerr(ex, st, a, inst):
    _stream(ex, st, a[0], inst); return ret(st)
@model('strerror')
def m_strerror(ex, st, a, inst):
    from exec import Reg
    return ret(st, Ptr(ex.region(st, Reg('message', 'opaque', None))))
@model('__errno_location')
def m_errno(ex, st, a, inst):
    from exec import Reg
    rid = ex.globals_rid.get('errno')
    if rid is None: rid = ex.globals_rid['errno'] = ex.new_rid()
    if rid not in st.mem: st.mem[rid] = Reg('errno', 'cells', P.of(4), lazy='havoc', owner='global')
    return ret(st, Ptr(rid))
def cstring(ex, st, p):
    from exec import Unsupported
    r = st.mem[p.rid]
    o = p.off.const
    if r.kind != 'cells' or o is None: raise Unsupported('format string')
    s = ''
    while True:
        v = r.cells.get(o)
        if v is None or v[1].const is None: raise Unsupported('format string')
        if v[1].const == 0: return s
        s += chr(v[1].const); o += 1
@model('__isoc99_fscanf', 'fscanf', '__isoc23_fscanf')
def m_fscanf(ex, st, a, inst):
    from exec import Unsupported
    from ir import IntTy, DOUBLE as D
    F = _stream(ex, st, a[0], inst)
    convs = re.sub(r'\s', '', cstring(ex, st, a[1]))
    cs = re.findall(r'%(lu|lf|d)', convs)
    if ''.join('%' + x for x in cs) != convs or len(cs) != len(a) - 2: raise Unsupported('scanf format ' + convs)
    reg = st.mem[a[0].rid]
    cur = reg.cells[0][1]
    known = getattr(F, 'known', {})
    if cur.const is not None and cur.const <= max([-1] + list(known)):
        # the header: one path per outcome, so that the known numbers stay constants
        s1 = st.fork(); s1.assume(cur + len(cs) <= F.n)
        for j, cv in enumerate(cs):
            t = F.tok(cur + j)
            if cv == 'lf': v = F.real(cur + j)
            elif cur.const + j in known: v = P.of(known[cur.const + j]); s1.assume(t == v)
            else:
                v = t
                s1.assume(And(v >= 0, v < (1 << 64)) if cv == 'lu' else And(v >= -(1 << 31), v < (1 << 31)))
            if ex.store(s1, {'lf': D, 'lu': IntTy(64), 'd': IntTy(32)}[cv], v, a[2 + j], inst) is False: return []
        s1.w(a[0].rid).cells[0] = (8, cur + len(cs))
        for j, cv in enumerate(cs[:-1]):
            if ex.store(st, {'lf': D, 'lu': IntTy(64), 'd': IntTy(32)}[cv], fresh_real('scan') if cv == 'lf' else fresh_int('scan'), a[2 + j], inst) is False: return []
        k = fresh_int('scanned'); st.assume(And(k >= -1, k < len(cs)))
        nc = fresh_int('cursor'); st.assume(And(nc >= cur, nc <= cur + len(cs)))
        st.w(a[0].rid).cells[0] = (8, nc)
        return ret(s1, P.of(len(cs))) + ret(st, k)
    ok = fresh_bool('scan_ok'); st.assume(Implies(ok, cur + len(cs) <= F.n))
    k = fresh_int('scanned'); st.assume(And(k >= -1, k < len(cs)))
    for j, cv in enumerate(cs):
        if cv == 'lf':
            v = fresh_real('scan'); st.assume(Implies(ok, v == F.real(cur + j))); ty = D
        else:
            v = fresh_int('scan'); st.assume(Implies(ok, v == F.tok(cur + j))); ty = IntTy(64 if cv == 'lu' else 32)
            st.assume(And(v >= 0, v < (1 << 64)) if cv == 'lu' else And(v >= -(1 << 31), v < (1 << 31)))
        if ex.store(st, ty, v, a[2 + j], inst) is False: return []
    w = st.w(a[0].rid)
    nc = fresh_int('cursor'); st.assume(And(nc >= cur, nc <= cur + len(cs)))
    w.cells[0] = (8, Ite(ok, cur + len(cs), nc))
    return ret(st, Ite(ok, P.of(len(cs)), k))
