"""Models of the C++ standard library (trusted; listed in the evidence).  std::vector is
modelled by its abstract value (a sequence); iterators and data() are pointers into it."""
import ctypes, re
import z3
from terms import *
from ir import Ty

_lib = ctypes.CDLL('libstdc++.so.6')
_d = _lib.__cxa_demangle; _d.restype = ctypes.c_void_p
_dc = {}
def demangle(n):
    r = _dc.get(n)
    if r is None:
        st = ctypes.c_int()
        p = _d(n.encode(), None, None, ctypes.byref(st))
        r = _dc[n] = ctypes.string_at(p).decode() if p else n
    return r

def targs(s, i):
    """s[i] == '<': -> (list of template arguments, index after '>')"""
    depth, out, cur, j = 0, [], '', i
    while j < len(s):
        c = s[j]
        if c in '<(':
            depth += 1
            if depth > 1: cur += c
        elif c in '>)':
            depth -= 1
            if depth == 0 and c == '>':
                if cur.strip(): out.append(cur.strip())
                return out, j + 1
            cur += c
        elif c == ',' and depth == 1: out.append(cur.strip()); cur = ''
        else: cur += c
        j += 1
    return out, j

SC = {'double': ('double', 8, 'real'), 'float': ('float', 4, 'real'), 'int': ('int32', 4, 'int'), 'unsigned int': ('int32', 4, 'int'), 'long': ('int64', 8, 'int'),
      'unsigned long': ('int64', 8, 'int'), 'char': ('int8', 1, 'int'), 'signed char': ('int8', 1, 'int'), 'unsigned char': ('int8', 1, 'int'), 'short': ('int16', 2, 'int')}
def ity(t):
    n, sz, k = SC[t]
    return Ty('double') if n == 'double' else Ty('float') if n == 'float' else Ty('int', None, int(n[3:]))

def elem(ex, t):
    """-> (size, [(off, size, kind, Ty)])"""
    from exec import Unsupported
    if t in SC:
        return SC[t][1], [(0, SC[t][1], SC[t][2], ity(t))]
    if t == 'bool': raise Unsupported('std::vector<bool>')
    nm = re.sub(r'^(class|struct) ', '', t)
    for pre in ('struct.', 'class.'):
        ty = ex.mod.types.get(pre + nm)
        if ty is None: 
            for k in ex.mod.types:
                if k.startswith(pre + nm + '.') or k == pre + nm.replace(' >', '>'): ty = ex.mod.types[k]
        if ty is not None: break
    else:
        if 'enum' in t or True:
            # enumerations are stored as 32-bit integers
            if re.match(r'^[\w:]+$', t) and ex.mod.is_enum(t): return 4, [(0, 4, 'int', Ty('int', None, 32))]
        raise Unsupported('element type %s' % t)
    out = []
    def walk(ty, off):
        rt = ex.mod.resolve(ty)
        if rt.k == 'struct':
            for j, a in enumerate(rt.a): walk(a, off + ex.mod.field_off(rt, j))
        elif rt.k == 'arr':
            es = ex.mod.size(rt.a)
            for j in range(rt.n): walk(rt.a, off + j * es)
        else:
            k, sz = ex.kind_of(rt)
            if k == 'ptr': raise Unsupported('vector of structs with pointers (%s)' % t)
            out.append((off, sz, k, rt))
    walk(ty, 0)
    return ex.mod.size(ty), out

PTR = Ty('ptr')
def rdp(ex, st, p, off, inst):
    return ex.load(st, PTR, p.add(off), inst)
def setvec(ex, st, p, rid, n, sz, inst, what=(0, 1, 2)):
    e = Ptr(rid, P.of(n) * sz)
    for j, v in ((0, Ptr(rid)), (1, e), (2, e)):
        if j in what: ex.store(st, PTR, v, p.add(8 * j), inst)
def newvec(ex, st, name, t, n, vals=None, zero=False):
    from exec import Reg
    sz, cols = elem(ex, t)
    n = P.of(n)
    r = Reg(name, 'untyped', n * sz, heap=True, owner='alloc', zero=zero)
    if vals is not None and not zero:
        r.kind, r.stride = 'arr', sz
        for (o, s, k, ty), v in zip(cols, vals): r.cols[o] = (s, k, z3.K(z3.IntSort(), v.z3()))
    return ex.region(st, r)
def getvec(ex, st, p, inst):
    """-> (rid, count) ; the vector object at p"""
    from exec import Unsupported
    b, e = rdp(ex, st, p, 0, inst), rdp(ex, st, p, 8, inst)
    if b is None or e is None: return None, None
    if b.isnull: return None, P.of(0)
    if not (isinstance(b, Ptr) and isinstance(e, Ptr)) or b.rid != e.rid: raise Unsupported('vector state')
    return b.rid, e.off
def count(off, sz):
    q = off.divexact(sz)
    return q if q is not None else P.of(off.z3() / z3.IntVal(sz))
def readvals(ex, st, cols, p, inst):
    return [ex.load(st, ty, p.add(o), inst) for o, s, k, ty in cols]
def typed(ex, st, rid, sz, cols):
    """make the region an array of the element type"""
    r = st.mem[rid]
    if r.kind == 'cells':
        if not r.cells or r.zero and not r.cells:
            r = st.w(rid); r.kind = 'untyped'; r.cells = {}
        else: r = ex.cells_to_arr(st, rid, cols[0][1], cols[0][2], sz)
    r = st.w(rid)
    if r.kind == 'untyped': r.kind, r.stride = 'arr', sz
    for o, s, k, ty in cols:
        if o not in r.cols:
            r.cols[o] = (s, k, z3.K(z3.IntSort(), z3.RealVal(0) if k == 'real' else z3.IntVal(0)) if r.zero else fresh_array(r.name, k))
    return r
def splice(ex, st, rid, cols, sz, lo, hi, src):
    """cells [lo,hi) of every column become src(col, q) (a z3 term of the index q); others keep"""
    r = typed(ex, st, rid, sz, cols)
    lo, hi = P.of(lo), P.of(hi)
    n = (hi - lo).const
    for o, s, k, ty in cols:
        a = r.cols[o][2]
        if n is not None and n <= 8:
            na = a
            for j in range(n): na = z3.Store(na, (lo + j).z3(), src(o, (lo + j).z3()))
        else:
            na = fresh_array(r.name, k)
            q = z3.Int(fresh_name('k'))
            st.assume(z3.ForAll([q], z3.Select(na, q) == z3.If(z3.And(lo.z3() <= q, q < hi.z3()), src(o, q), z3.Select(a, q)), patterns=[z3.Select(na, q)]))
        r.cols[o] = (s, k, na)
        if ex.writes is not None: ex.writes.append((rid, o, None if n is None or n > 1 else lo))
def default(k): return z3.RealVal(0) if k == 'real' else z3.IntVal(0)

def ensure(ex, st, p, inst, t):
    rid, e = getvec(ex, st, p, inst)
    if rid is None:
        sz, cols = elem(ex, t)
        rid = newvec(ex, st, 'vec', t, 0)
        setvec(ex, st, p, rid, 0, sz, inst); e = P.of(0)
    return rid, e
def setsize(ex, st, p, rid, n, sz, inst):
    r = st.w(rid)
    if r.size is not None or True: r.size = P.of(n) * sz if r.size is not None else None
    setvec(ex, st, p, rid, n, sz, inst, (1, 2))

def ret(st, v=None): return [('ret', v, st)]

# ---- std::vector members; every handler gets (ex, st, args, inst, T, rest)
def v_ctor0(ex, st, a, inst, T):
    sz, cols = elem(ex, T)
    setvec(ex, st, a[0], newvec(ex, st, 'vec', T, 0), 0, sz, inst); return ret(st)
def size_ok(ex, st, n, inst):
    ex.oblige(st, 'vector size not negative', P.of(n) >= 0, inst)
def v_ctor_n(ex, st, a, inst, T):
    sz, cols = elem(ex, T); n = ex.as_P(a[1]); size_ok(ex, st, n, inst)
    setvec(ex, st, a[0], newvec(ex, st, 'vec', T, n, zero=True), n, sz, inst); return ret(st)
def v_ctor_nv(ex, st, a, inst, T):
    sz, cols = elem(ex, T); n = ex.as_P(a[1]); size_ok(ex, st, n, inst)
    vals = readvals(ex, st, cols, a[2], inst)
    if any(v is None for v in vals): return []
    zero = all(getattr(v, 'const', None) == 0 for v in vals)
    setvec(ex, st, a[0], newvec(ex, st, 'vec', T, n, vals, zero=zero), n, sz, inst); return ret(st)
def copy_into(ex, st, p, T, src, n, inst, fresh):
    """vector at p := n elements starting at pointer src"""
    sz, cols = elem(ex, T)
    if fresh: rid = newvec(ex, st, 'vec', T, n)
    else:
        rid, _ = ensure(ex, st, p, inst, T)
        if src.rid == rid and n is not None:
            # self-overlapping assign is not used
            pass
        r = st.w(rid); r.kind, r.cols, r.cells, r.zero, r.stride = 'untyped', {}, {}, False, None
        if r.size is not None: r.size = P.of(n) * sz
    setvec(ex, st, p, rid, n, sz, inst)
    if P.of(n).const != 0: ex.memcpy(st, Ptr(rid), src, P.of(n) * sz, inst)
    if not fresh:
        r = st.mem[rid]
        if ex.writes is not None and r.kind == 'arr':
            for o in r.cols: ex.writes.append((rid, o, None))
    return ret(st)
def v_ctor_copy(ex, st, a, inst, T):
    sz, cols = elem(ex, T)
    rid, e = getvec(ex, st, a[1], inst)
    if rid is None: return v_ctor0(ex, st, a, inst, T)
    return copy_into(ex, st, a[0], T, Ptr(rid), count(e, sz), inst, True)
def v_ctor_move(ex, st, a, inst, T):
    sz, cols = elem(ex, T)
    rid, e = ensure(ex, st, a[1], inst, T)
    setvec(ex, st, a[0], rid, count(e, sz), sz, inst)
    setvec(ex, st, a[1], newvec(ex, st, 'vec', T, 0), 0, sz, inst)
    return ret(st)
def span(ex, st, f, l, sz, inst):
    from exec import Unsupported
    if f.isnull and l.isnull: return P.of(0)
    if f.rid != l.rid: raise Unsupported('iterator range over two objects')
    n = count(l.off - f.off, sz)
    ex.oblige(st, 'iterator range well formed', n >= 0, inst)
    return n
def v_ctor_range(ex, st, a, inst, T):
    sz, cols = elem(ex, T)
    return copy_into(ex, st, a[0], T, a[1], span(ex, st, a[1], a[2], sz, inst), inst, True)
def v_dtor(ex, st, a, inst, T):
    if inst is not None:
        rid, e = getvec(ex, st, a[0], inst)
        if rid is not None:
            r = st.w(rid); r.alive = False
    return ret(st)
def v_assign_copy(ex, st, a, inst, T):
    sz, cols = elem(ex, T)
    rid, e = ensure(ex, st, a[1], inst, T)
    copy_into(ex, st, a[0], T, Ptr(rid), count(e, sz), inst, False)
    return ret(st, a[0])
def v_assign_move(ex, st, a, inst, T):
    v_assign_copy(ex, st, a, inst, T); return ret(st, a[0])
def v_assign_range(ex, st, a, inst, T):
    sz, cols = elem(ex, T)
    return copy_into(ex, st, a[0], T, a[1], span(ex, st, a[1], a[2], sz, inst), inst, False)
def v_assign_nv(ex, st, a, inst, T):
    sz, cols = elem(ex, T); n = ex.as_P(a[1]); size_ok(ex, st, n, inst)
    vals = readvals(ex, st, cols, a[2], inst)
    rid, e = ensure(ex, st, a[0], inst, T)
    setsize(ex, st, a[0], rid, n, sz, inst)
    r = typed(ex, st, rid, sz, cols)
    for (o, s, k, ty), v in zip(cols, vals):
        r.cols[o] = (s, k, z3.K(z3.IntSort(), v.z3()))
        if ex.writes is not None: ex.writes.append((rid, o, None))
    return ret(st)
def v_resize(ex, st, a, inst, T):
    sz, cols = elem(ex, T); n = ex.as_P(a[1]); size_ok(ex, st, n, inst)
    if len(a) > 2:
        vals = readvals(ex, st, cols, a[2], inst)
        if any(v is None for v in vals): return []
    else: vals = [R.of(0) if k == 'real' else P.of(0) for o, s, k, ty in cols]
    rid, e = ensure(ex, st, a[0], inst, T)
    old = count(e, sz)
    if old.same(n): return ret(st)
    vmap = {c[0]: v.z3() for c, v in zip(cols, vals)}
    if old.const == 0 and (st.mem[rid].kind == 'untyped' or not st.mem[rid].cells):
        r = st.w(rid); r.kind, r.cols, r.cells, r.stride = 'untyped', {}, {}, None
        r.zero = all(v.const == 0 for v in vals)
        if not r.zero:
            r.kind, r.stride = 'arr', sz
            for (o, s, k, ty), v in zip(cols, vals): r.cols[o] = (s, k, z3.K(z3.IntSort(), v.z3()))
        if ex.writes is not None:
            for o, s, k, ty in cols: ex.writes.append((rid, o, None))
    else:
        if not (n.const is not None and old.const is not None and n.const <= old.const):
            splice(ex, st, rid, cols, sz, old, n, lambda o, q: vmap[o])
    setsize(ex, st, a[0], rid, n, sz, inst)
    return ret(st)
def v_push(ex, st, a, inst, T):
    sz, cols = elem(ex, T)
    vals = readvals(ex, st, cols, a[1], inst)
    if any(v is None for v in vals): return []
    rid, e = ensure(ex, st, a[0], inst, T)
    n = count(e, sz)
    r = typed(ex, st, rid, sz, cols)
    for (o, s, k, ty), v in zip(cols, vals):
        vz = R.of(v).z3() if k == 'real' else ex.as_P(v).z3()
        r.cols[o] = (s, k, z3.Store(r.cols[o][2], n.z3(), vz))
        if ex.writes is not None: ex.writes.append((rid, o, n))
    setsize(ex, st, a[0], rid, n + 1, sz, inst)
    return ret(st, Ptr(rid, n * sz))
def v_emplace(ex, st, a, inst, T):
    return v_push(ex, st, a, inst, T)
def v_pop(ex, st, a, inst, T):
    sz, cols = elem(ex, T)
    rid, e = ensure(ex, st, a[0], inst, T)
    n = count(e, sz)
    ex.oblige(st, 'pop_back of a non-empty vector', n >= 1, inst)
    setsize(ex, st, a[0], rid, n - 1, sz, inst); return ret(st)
def v_clear(ex, st, a, inst, T):
    sz, cols = elem(ex, T)
    rid, e = ensure(ex, st, a[0], inst, T)
    setsize(ex, st, a[0], rid, 0, sz, inst); return ret(st)
def v_swap(ex, st, a, inst, T):
    for j in (0, 8, 16):
        x, y = rdp(ex, st, a[0], j, inst), rdp(ex, st, a[1], j, inst)
        ex.store(st, PTR, y, a[0].add(j), inst); ex.store(st, PTR, x, a[1].add(j), inst)
    return ret(st)
def v_size(ex, st, a, inst, T):
    sz, cols = elem(ex, T)
    rid, e = getvec(ex, st, a[0], inst)
    return ret(st, P.of(0) if rid is None else count(e, sz))
def v_empty(ex, st, a, inst, T):
    sz, cols = elem(ex, T)
    rid, e = getvec(ex, st, a[0], inst)
    return ret(st, True if rid is None else (count(e, sz) == 0))
def v_index(ex, st, a, inst, T):
    sz, cols = elem(ex, T)
    rid, e = getvec(ex, st, a[0], inst)
    i = ex.as_P(a[1])
    if rid is None:
        if not ex.feasible(st): return []
        # &v[0] of an empty vector: pointer that must not be dereferenced
        ex.oblige(st, 'vector index in range', i == 0, inst)
        return ret(st, NULL)
    # forming &v[size] is tolerated (the access itself is checked); anything else is an error
    ex.oblige(st, 'vector index in range', And(i >= 0, i <= count(e, sz)), inst)
    return ret(st, Ptr(rid, i * sz, False, sz if len(cols) > 1 else None))
def v_at(ex, st, a, inst, T):
    sz, cols = elem(ex, T)
    rid, e = ensure(ex, st, a[0], inst, T)
    i = ex.as_P(a[1]); n = count(e, sz)
    s2 = st.fork(); ok = And(i >= 0, i < n)
    s2.assume(Not(ok)); out = []
    if ex.feasible(s2): out.append(('throw', None, s2))
    st.assume(ok)
    if ex.feasible(st): out += ret(st, Ptr(rid, i * sz))
    return out
def v_begin(ex, st, a, inst, T):
    rid, e = getvec(ex, st, a[0], inst)
    return ret(st, NULL if rid is None else Ptr(rid))
def v_end(ex, st, a, inst, T):
    rid, e = getvec(ex, st, a[0], inst)
    return ret(st, NULL if rid is None else Ptr(rid, e))
def v_front(ex, st, a, inst, T):
    rid, e = ensure(ex, st, a[0], inst, T)
    ex.oblige(st, 'front of a non-empty vector', e >= 1, inst)
    return ret(st, Ptr(rid))
def v_back(ex, st, a, inst, T):
    sz, cols = elem(ex, T)
    rid, e = ensure(ex, st, a[0], inst, T)
    ex.oblige(st, 'back of a non-empty vector', e >= sz, inst)
    return ret(st, Ptr(rid, e - sz))
def v_insert_range(ex, st, a, inst, T):
    from exec import Unsupported
    sz, cols = elem(ex, T)
    rid, e = ensure(ex, st, a[0], inst, T)
    pos = a[1]
    if not (pos.isnull or pos.rid == rid and pos.off.same(e)): raise Unsupported('vector insert not at the end')
    n, m = count(e, sz), span(ex, st, a[2], a[3], sz, inst)
    if m.const == 0: return ret(st, Ptr(rid, e))
    typed(ex, st, rid, sz, cols)
    setsize(ex, st, a[0], rid, n + m, sz, inst)
    ex.memcpy(st, Ptr(rid, e), a[2], m * sz, inst)
    return ret(st, Ptr(rid, e))
def v_noop(ex, st, a, inst, T): return ret(st)

def noret(dn):
    """drop the return type a demangled template function starts with"""
    d, i, cut = 0, 0, 0
    while i < len(dn):
        c = dn[i]
        if dn.startswith('operator', i) and (i == 0 or dn[i - 1] in ': '):
            return dn[cut:]
        if c in '<': d += 1
        elif c == '>': d -= 1
        elif c == '(' and d == 0: break
        elif c == ' ' and d == 0: cut = i + 1
        i += 1
    return dn[cut:]
def vec_lookup(ex, dn):
    dn = noret(dn)
    m = re.match(r'std::vector<', dn)
    if not m: return None
    ta, j = targs(dn, len('std::vector'))
    rest = dn[j:]
    if not rest.startswith('::'): return None
    rest = rest[2:]
    T = ta[0]
    VT = dn[:j]
    const = rest.endswith(' const')
    meth = rest
    # method name and template arguments
    mm = re.match(r'(operator\[\]|operator=(?!=)|~?[\w]+)', rest)
    if not mm: return None
    name = mm.group(1)
    k = mm.end()
    tmpl = ''
    if k < len(rest) and rest[k] == '<':
        ta2, k2 = targs(rest, k); tmpl = rest[k:k2]; k = k2
    params = rest[k:]
    # drop constness
    if params.endswith(' const'): params = params[:-6]
    params = params.strip()
    h = None
    AL = ta[1] if len(ta) > 1 else ''
    if name == 'vector':
        p = params[1:-1]
        p = re.sub(r',? ?%s const&$' % re.escape(AL), '', p)
        if p in ('', AL + ' const&'): h = v_ctor0
        elif tmpl: h = v_ctor_range
        elif p == 'unsigned long': h = v_ctor_n
        elif re.match(r'unsigned long, .*&', p): h = v_ctor_nv
        elif p == VT + ' const&': h = v_ctor_copy
        elif p == VT + '&&': h = v_ctor_move
    elif name == '~vector': h = v_dtor
    elif name == 'operator=':
        if 'const&' in params and 'initializer_list' not in params: h = v_assign_copy
        elif '&&' in params: h = v_assign_move
    elif name == 'assign': h = v_assign_range if tmpl else (v_assign_nv if params.startswith('(unsigned long') else None)
    elif name == 'resize': h = v_resize
    elif name == 'push_back': h = v_push
    elif name == 'emplace_back': h = v_emplace
    elif name == 'pop_back': h = v_pop
    elif name == 'clear': h = v_clear
    elif name == 'swap': h = v_swap
    elif name == 'size': h = v_size
    elif name == 'empty': h = v_empty
    elif name == 'operator[]': h = v_index
    elif name == 'at': h = v_at
    elif name in ('begin', 'cbegin', 'data'): h = v_begin
    elif name in ('end', 'cend'): h = v_end
    elif name == 'front': h = v_front
    elif name == 'back': h = v_back
    elif name == 'reserve': h = v_noop
    elif name == 'insert' and tmpl: h = v_insert_range
    if h is None: return None
    return lambda ex, st, a, inst: h(ex, st, a, inst, T)

# ---- algorithms over pointer-like iterators
def deref_type(it):
    it = it.strip()
    if it.endswith('*'): return re.sub(r'\bconst\b', '', it[:-1]).strip()
    m = re.match(r'__gnu_cxx::__normal_iterator<', it)
    if m:
        ta, _ = targs(it, len('__gnu_cxx::__normal_iterator'))
        return deref_type(ta[0])
    return None

def alg_fill(T):
    def f(ex, st, a, inst):
        sz, cols = elem(ex, T)
        vals = readvals(ex, st, cols, a[2], inst)
        n = span(ex, st, a[0], a[1], sz, inst)
        return fill_at(ex, st, a[0], n, sz, cols, vals, inst)
    return f
def alg_fill_n(T):
    def f(ex, st, a, inst):
        sz, cols = elem(ex, T)
        vals = readvals(ex, st, cols, a[2], inst)
        fill_at(ex, st, a[0], ex.as_P(a[1]), sz, cols, vals, inst)
        return ret(st, a[0].add(ex.as_P(a[1]) * sz))
    return f
def fill_at(ex, st, p, n, sz, cols, vals, inst):
    from exec import Unsupported
    if n.const == 0: return ret(st)
    if p.isnull or p.rid == 'undef': ex.oblige(st, 'null dereference', n <= 0, inst); return ret(st)
    if n.const is not None and n.const <= 16:
        for j in range(n.const):
            for (o, s, k, ty), v in zip(cols, vals):
                if not ex.store(st, ty, v, p.add(P.of(j * sz + o)), inst): return []
        return ret(st)
    r = st.mem[p.rid]
    if p.nullc is not False: ex.oblige(st, 'null dereference', Or(Not(p.nullc), n <= 0), inst)
    if not r.alive: ex.oblige(st, 'use after free', n <= 0, inst)
    if r.size is not None: ex.oblige(st, 'out of bounds fill of %s' % r.name, Or(n <= 0, And(p.off >= 0, p.off + n * sz <= r.size)), inst)
    typed(ex, st, p.rid, sz, cols)
    d = p.off.divexact(sz)
    if d is None: raise Unsupported('fill alignment')
    vm = {c[0]: (R.of(v) if c[2] == 'real' else ex.as_P(v)).z3() for c, v in zip(cols, vals)}
    splice(ex, st, p.rid, cols, sz, d, d + n, lambda o, q: vm[o])
    return ret(st)
def alg_copy(T):
    def f(ex, st, a, inst):
        sz, cols = elem(ex, T)
        n = span(ex, st, a[0], a[1], sz, inst)
        if n.const != 0: ex.memcpy(st, a[2], a[0], n * sz, inst)
        return ret(st, a[2].add(n * sz) if not a[2].isnull else a[2])
    return f
def arr_of(ex, st, p, sz, cols, n, inst):
    from exec import Unsupported
    if p.isnull: return None
    r = st.mem[p.rid]
    if r.size is not None: ex.oblige(st, 'out of bounds range of %s' % r.name, And(p.off >= 0, Or(n <= 0, p.off + n * sz <= r.size)), inst)
    r = typed(ex, st, p.rid, sz, cols)
    d = p.off.divexact(sz)
    if d is None: raise Unsupported('alignment')
    return r.cols[cols[0][0]][2], d, cols[0][2]
def alg_bound(T, upper):
    def f(ex, st, a, inst):
        sz, cols = elem(ex, T)
        n = span(ex, st, a[0], a[1], sz, inst)
        v = readvals(ex, st, cols, a[2], inst)[0]
        x = arr_of(ex, st, a[0], sz, cols, n, inst)
        if x is None: return ret(st, a[0])
        arr, d, k = x
        i = fresh_int('bound'); st.assume(And(i >= 0, i <= n))
        q = z3.Int(fresh_name('q'))
        e = z3.Select(arr, q)
        vz = v.z3()
        below = (e <= vz) if upper else (e < vz)
        above = (e > vz) if upper else (e >= vz)
        # binary search over a partitioned range; that it is partitioned is an obligation
        q2 = z3.Int(fresh_name('q'))
        ex.oblige(st, 'binary search over a sorted range', z3.ForAll([q, q2], z3.Implies(z3.And(d.z3() <= q, q <= q2, q2 < (d + n).z3()), z3.Select(arr, q) <= z3.Select(arr, q2))), inst)
        st.assume(z3.ForAll([q], z3.Implies(z3.And(d.z3() <= q, q < (d + i).z3()), below), patterns=[e]))
        st.assume(z3.ForAll([q], z3.Implies(z3.And((d + i).z3() <= q, q < (d + n).z3()), above), patterns=[e]))
        # instances at the boundary
        st.assume(Implies(i >= 1, z3.substitute(below, (q, (d + i - 1).z3()))))
        st.assume(Implies(i < n, z3.substitute(above, (q, (d + i).z3()))))
        return ret(st, Ptr(a[0].rid, (d + i) * sz))
    return f
def alg_reverse(T):
    def f(ex, st, a, inst):
        sz, cols = elem(ex, T)
        n = span(ex, st, a[0], a[1], sz, inst)
        if n.const == 0: return ret(st)
        x = arr_of(ex, st, a[0], sz, cols, n, inst)
        if x is None: return ret(st)
        d = x[1]; r = st.mem[a[0].rid]
        old = {c[0]: r.cols[c[0]][2] for c in cols}
        splice(ex, st, a[0].rid, cols, sz, d, d + n, lambda o, q: z3.Select(old[o], (d + d + n - 1).z3() - q))
        return ret(st)
    return f
def alg_extreme(T, mx):
    def f(ex, st, a, inst):
        sz, cols = elem(ex, T)
        n = span(ex, st, a[0], a[1], sz, inst)
        x = arr_of(ex, st, a[0], sz, cols, n, inst)
        if x is None: return ret(st, a[0])
        arr, d, k = x
        i = fresh_int('ext'); st.assume(Implies(n > 0, And(i >= 0, i < n))); st.assume(Implies(n <= 0, i == 0))
        q = z3.Int(fresh_name('q')); e = z3.Select(arr, q); b = z3.Select(arr, (d + i).z3())
        st.assume(z3.ForAll([q], z3.Implies(z3.And(d.z3() <= q, q < (d + n).z3()), (b >= e) if mx else (b <= e)), patterns=[e]))
        return ret(st, Ptr(a[0].rid, (d + i) * sz))
    return f

def ghost_sum(ex, st, p, arr, lo, n):
    from exec import Unsupported
    for rid, a, S in ex.sums:
        if rid == p.rid and (a is None or a.eq(arr)): return S
    # a copy: the same elements at the same positions
    for rid, a, S in ex.sums:
        if a is None or a.sort() != arr.sort(): continue
        q = z3.Int(fresh_name('q'))
        if ex.proves(st, z3.ForAll([q], z3.Implies(z3.And(lo.z3() <= q, q < (lo + n).z3()), a[q] == arr[q])), 1500): return S
    raise Unsupported('sum over an array without a ghost sum')
def alg_accumulate(T):
    def f(ex, st, a, inst):
        sz, cols = elem(ex, T)
        n = span(ex, st, a[0], a[1], sz, inst)
        init = R.of(a[2]) if isinstance(a[2], R) else ex.as_P(a[2])
        x = arr_of(ex, st, a[0], sz, cols, n, inst)
        if x is None or n.const == 0: return ret(st, init)
        if (x[0].sort().range() == z3.RealSort()) != isinstance(init, R):
            from exec import Unsupported
            raise Unsupported('sum in a narrower type')
        if n.const is not None and 0 < n.const <= 64 and x[1].const is not None:
            for i in range(int(n.const)):
                e = z3.Select(x[0], (x[1] + i).z3())
                init = init + (R(e) if isinstance(init, R) else P.of(e))
            return ret(st, init)
        S = ghost_sum(ex, st, a[0], x[0], x[1], n)
        return ret(st, init + (S(x[1] + n) - S(x[1])))
    return f
def alg_partial_sum(T):
    def f(ex, st, a, inst):
        from exec import Unsupported
        sz, cols = elem(ex, T)
        n = span(ex, st, a[0], a[1], sz, inst)
        x = arr_of(ex, st, a[0], sz, cols, n, inst)
        if x is None: return ret(st, a[2])
        S = ghost_sum(ex, st, a[0], x[0], x[1], n)
        r = st.mem[a[2].rid]
        if r.size is not None: ex.oblige(st, 'out of bounds partial_sum into %s' % r.name, Or(n <= 0, And(a[2].off >= 0, a[2].off + n * sz <= r.size)), inst)
        typed(ex, st, a[2].rid, sz, cols)
        d = a[2].off.divexact(sz)
        if d is None: raise Unsupported('alignment')
        splice(ex, st, a[2].rid, cols, sz, d, d + n, lambda o, q: (S(P.of(q) - d + x[1] + 1) - S(x[1])).z3())
        return ret(st, a[2].add(n * sz))
    return f
def alg_equal(T):
    def f(ex, st, a, inst):
        sz, cols = elem(ex, T)
        n = span(ex, st, a[0], a[1], sz, inst)
        if n.const == 0: return ret(st, True)
        x = arr_of(ex, st, a[0], sz, cols, n, inst); y = arr_of(ex, st, a[2], sz, cols, n, inst)
        if x is None or y is None: return ret(st, True)
        b = fresh_bool('equal'); i = fresh_int('diff'); q = z3.Int(fresh_name('q'))
        e1, e2 = z3.Select(x[0], x[1].z3() + q), z3.Select(y[0], y[1].z3() + q)
        st.assume(Implies(b, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n.z3()), e1 == e2))))
        st.assume(Implies(Not(b), And(i >= 0, i < n, z3.Select(x[0], (x[1] + i).z3()) != z3.Select(y[0], (y[1] + i).z3()))))
        return ret(st, b)
    return f
ALG = [('accumulate', 3, alg_accumulate), ('partial_sum', 3, alg_partial_sum), ('equal', 3, alg_equal), ('reverse', 2, alg_reverse), ('fill', 3, alg_fill), ('fill_n', 3, alg_fill_n), ('copy', 3, alg_copy), ('lower_bound', 3, lambda T: alg_bound(T, False)), ('upper_bound', 3, lambda T: alg_bound(T, True)),
       ('max_element', 2, lambda T: alg_extreme(T, True)), ('min_element', 2, lambda T: alg_extreme(T, False))]
def alg_lookup(ex, dn):
    dn = noret(dn)
    m = re.match(r'std::(\w+)<', dn)
    if not m: return None
    if not re.match(r'^[\w:<>,*& ()]*$', dn): return None
    for nm, np, mk in ALG:
        if m.group(1) != nm: continue
        i = m.start(1) + len(nm)
        ta, j = targs(dn, i)
        if j >= len(dn) or dn[j] != '(': return None
        # parameters
        ps, _ = targs('<' + dn[j + 1:dn.rindex(')')] + '>', 0)
        if len(ps) != np: return None
        T = deref_type(ta[0])
        if nm == 'copy' and deref_type(ta[1]) != T: return None
        if T is None: return None
        return mk(T)
    return None

# ---- the rest
def noop_ret(ex, st, a, inst):
    t = inst.ty
    if t is None or t.k == 'void': return ret(st)
    if t.k == 'ptr':
        return ret(st, a[0] if a and isinstance(a[0], Ptr) else opaque(ex, st))
    return ret(st, ex.fresh(t, 'lib'))
def opaque(ex, st):
    from exec import Reg
    return Ptr(ex.region(st, Reg('opaque', 'opaque', None)))
def m_throw(ex, st, a, inst): return [('throw', None, st)]
def m_new(ex, st, a, inst): return ret(st, ex.malloc(st, a[0], 'new', nullable=False))
def m_delete(ex, st, a, inst):
    ex.free(st, a[0], inst); return ret(st)
def m_excalloc(ex, st, a, inst):
    from exec import Reg
    return ret(st, Ptr(ex.region(st, Reg('exc', 'cells', P.of(256), owner='alloc', lazy='havoc'))))

def m_swap_scalar(T):
    def f(ex, st, a, inst):
        sz, cols = elem(ex, T)
        x, y = readvals(ex, st, cols, a[0], inst), readvals(ex, st, cols, a[1], inst)
        for (o, s, k, ty), u, w in zip(cols, x, y):
            ex.store(st, ty, w, a[0].add(o), inst); ex.store(st, ty, u, a[1].add(o), inst)
        return ret(st)
    return f

# ---- std::string: an object holds a pointer to the (constant) characters it was made from
STR = r'std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
def str_chars(ex, st, p):
    r = st.mem.get(p.rid) if isinstance(p, Ptr) else None
    if r is None or r.kind != 'cells' or p.off.const is None: return None
    c = r.cells.get(p.off.const)
    return c[1] if c is not None and isinstance(c[1], Ptr) and not c[1].isnull else None
def str_ctor(ex, st, a, inst):
    from ir import Ty
    ex.store(st, Ty('ptr'), a[1], a[0], inst)
    return ret(st)
def str_copy(ex, st, a, inst):
    q = str_chars(ex, st, a[1])
    if q is None:
        r = st.w(a[0].rid)
        if r.kind == 'cells' and a[0].off.const is not None: r.cells.pop(a[0].off.const, None)
        return ret(st)
    return str_ctor(ex, st, [a[0], q], inst)
def str_data(ex, st, a, inst):
    q = str_chars(ex, st, a[0])
    return ret(st, q if q is not None else opaque(ex, st))
def str_eq(ex, st, a, inst):
    import models
    q = str_chars(ex, st, a[0])
    if q is None: return noop_ret(ex, st, a, inst)
    return ret(st, models.cstring(ex, st, q) == models.cstring(ex, st, a[1]))
def str_lookup(dn):
    dn = re.sub(r'\[abi:cxx11\]', '', dn)
    m = re.match('^' + STR + r'::(\w+)(<[^()]*>)?\((.*)\)( const)?$', dn)
    if m:
        if m.group(2) == 'basic_string':
            if m.group(4).startswith('char const*, std::allocator'): return str_ctor
            if re.match(STR + r'( const)?&&?$', m.group(4)): return str_copy
        if m.group(2) in ('c_str', 'data') and not m.group(4): return str_data
    if re.match(r'^bool std::operator==<.*\(' + STR + r' const&, char const\*\)$', dn): return str_eq
    return None
_tab = {'__cxa_allocate_exception': m_excalloc, '__cxa_throw': m_throw, '__cxa_rethrow': m_throw, '_Znwm': m_new, '_Znam': m_new, '_ZdlPv': m_delete, '_ZdaPv': m_delete, '_ZdlPvm': m_delete, '_ZdaPvm': m_delete,
        '__cxa_free_exception': noop_ret, '__cxa_begin_catch': noop_ret, '__cxa_end_catch': noop_ret, '__cxa_atexit': noop_ret}
NOOP = re.compile(r'(std::(basic_)?(i|o|io|if|of)?stream|std::basic_(o|i)stream|std::operator<<|std::endl|std::ios|std::basic_ios|std::__cxx11::basic_|std::exception|std::runtime_error|std::logic_error|std::invalid_argument|std::allocator|std::__new_allocator|std::basic_string|std::ios_base|std::setprecision|std::setw)')
def lookup(ex, name):
    key = name
    c = ex.mod.__dict__.setdefault('_cxx', {})
    if key in c: return c[key]
    h = _tab.get(name)
    if h is None:
        dn = demangle(name)
        h = vec_lookup(ex, dn)
        if h is None: h = alg_lookup(ex, dn)
        if h is None: h = str_lookup(dn)
        if h is None and re.match(r'std::__throw_', dn): h = m_throw
        if h is None:
            head = re.sub(r'^[\w:<>,*& ]*? (?=std::(operator<<|endl))', '', dn)
            if NOOP.match(head) or NOOP.match(dn): h = noop_ret
        if h is None and re.match(r'.*std::basic_ostream<char, std::char_traits<char> >& std::(operator<<|endl)', dn): h = noop_ret
        if h is None:
            m = re.search(r'std::swap<(\w[\w ]*)>\(', dn)
            if m and m.group(1) in SC: h = m_swap_scalar(m.group(1))
    c[key] = h
    return h
