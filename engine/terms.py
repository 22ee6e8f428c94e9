"""Term layer: integer polynomials, reals and booleans over z3, with constant folding.

P  - integer polynomial in canonical form (so that index and size arithmetic is decided
     syntactically), R - real term, booleans are python bools or z3 BoolRefs.
"""
import z3
from fractions import Fraction

_atoms = []            # index -> z3 Int expr
_atom_ix = {}          # z3 ast id -> index

def atom_index(e):
    i = _atom_ix.get(e.get_id())
    if i is None:
        i = len(_atoms)
        _atoms.append(e)
        _atom_ix[e.get_id()] = i
    return i

def atom_watermark():
    return len(_atoms)

class P:
    __slots__ = ('t', '_z', '_h')
    def __init__(self, t):
        self.t = t; self._z = None; self._h = None

    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, P): return x
        if isinstance(x, bool): return P({(): 1} if x else {})
        if isinstance(x, int): return P({(): x} if x else {})
        if isinstance(x, z3.ExprRef):
            if z3.is_int_value(x): return P.of(x.as_long())
            if z3.is_bool(x): return P.of(z3.If(x, z3.IntVal(1), z3.IntVal(0)))
            if OPAQUE_MUL and z3.is_app(x) and x.decl().eq(IMUL): return P.of(x.arg(0)) * P.of(x.arg(1))
            return P({(atom_index(x),): 1})
        raise TypeError('P.of %r' % (x,))

    @property
    def const(self):
        """python int when constant, else None"""
        if not self.t: return 0
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None

    def __bool__(self):
        raise TypeError('symbolic int used as python bool')

    def __index__(self):
        c = self.const
        if c is None: raise TypeError('symbolic index')
        return c

    def z3(self):
        if self._z is None:
            terms = []
            for m, k in sorted(self.t.items()):
                if not m: terms.append(z3.IntVal(k)); continue
                e = _atoms[m[0]]
                if OPAQUE_MUL and len(m) > 1:
                    for a in m[1:]: e = IMUL(e, _atoms[a])     # oldest factors innermost
                else:
                    for a in m[1:]: e = e * _atoms[a]
                terms.append(e if k == 1 else z3.IntVal(k) * e)
            if not terms: self._z = z3.IntVal(0)
            elif len(terms) == 1: self._z = terms[0]
            else: self._z = z3.Sum(terms)
        return self._z

    def key(self):
        if self._h is None: self._h = tuple(sorted(self.t.items()))
        return self._h
    def same(self, o):
        return self.t == P.of(o).t

    def _bin(self, o, s):
        o = P.of(o)
        if not o.t: return self
        r = dict(self.t)
        for m, k in o.t.items():
            v = r.get(m, 0) + s * k
            if v: r[m] = v
            else: r.pop(m, None)
        return P(r)
    def __add__(self, o):
        if isinstance(o, (R, float)): return R.of(self) + o
        return self._bin(o, 1)
    def __radd__(self, o): return self.__add__(o)
    def __sub__(self, o):
        if isinstance(o, (R, float)): return R.of(self) - o
        return self._bin(o, -1)
    def __rsub__(self, o):
        if isinstance(o, (R, float)): return R.of(o) - self
        return P.of(o) - self
    def __neg__(self): return P({m: -k for m, k in self.t.items()})
    def __mul__(self, o):
        if isinstance(o, (R, float)): return R.of(self) * o
        o = P.of(o)
        r = {}
        for m, k in self.t.items():
            for n, j in o.t.items():
                mm = tuple(sorted(m + n))
                v = r.get(mm, 0) + k * j
                if v: r[mm] = v
                else: r.pop(mm, None)
        return P(r)
    def __rmul__(self, o): return self.__mul__(o)
    def __truediv__(self, o): return R.of(self) / o
    def __rtruediv__(self, o): return R.of(o) / self
    def divexact(self, c):
        """self / c when every coefficient is divisible, else None"""
        if any(k % c for k in self.t.values()): return None
        return P({m: k // c for m, k in self.t.items()})
    def __floordiv__(self, o):      # mathematical use in specs (nonneg / pos)
        return idiv(self, P.of(o))
    def __mod__(self, o): return imod(self, P.of(o))

    def _cmp(self, o, op):
        if isinstance(o, (R, float)): return getattr(R.of(self), op)(o)
        o = P.of(o)
        d = self - o
        c = d.const
        if c is not None:
            return {'__lt__': c < 0, '__le__': c <= 0, '__gt__': c > 0, '__ge__': c >= 0}[op]
        a, b = self.z3(), o.z3()
        return {'__lt__': lambda: a < b, '__le__': lambda: a <= b, '__gt__': lambda: a > b, '__ge__': lambda: a >= b}[op]()
    def __lt__(self, o): return self._cmp(o, '__lt__')
    def __le__(self, o): return self._cmp(o, '__le__')
    def __gt__(self, o): return self._cmp(o, '__gt__')
    def __ge__(self, o): return self._cmp(o, '__ge__')
    def __eq__(self, o):
        if isinstance(o, (R, float)): return R.of(self) == o
        if isinstance(o, Ptr) or o is None: return False
        o = P.of(o)
        d = self - o
        c = d.const
        if c is not None: return c == 0
        return self.z3() == o.z3()
    def __ne__(self, o): return Not(self == o)
    __hash__ = None
    def __repr__(self): return 'P(%s)' % self.z3()

    def linear_in(self, aidx):
        """(c0, c1) with self == c0 + c1*atom, atom not in c0,c1; or None"""
        c0, c1 = {}, {}
        for m, k in self.t.items():
            n = m.count(aidx)
            if n == 0: c0[m] = k
            elif n == 1:
                mm = list(m); mm.remove(aidx); c1[tuple(mm)] = k
            else: return None
        return P(c0), P(c1)
    def max_atom(self):
        return max((a for m in self.t for a in m), default=-1)
    def atoms(self):
        return {a for m in self.t for a in m}


def polydiv(a, b):
    """q with a == q*b as polynomials, or None (b != 0 is checked by the caller)"""
    if b.const is not None or not a.t: return None
    if len(b.t) == 1:
        (bm, bk), = b.t.items()
        out = {}
        for m, k in a.t.items():
            if k % bk: return None
            mm = list(m)
            for x in bm:
                if x not in mm: return None
                mm.remove(x)
            out[tuple(mm)] = k // bk
        return P(out)
    # constant multiple
    m0 = next(iter(b.t))
    if m0 in a.t and a.t[m0] % b.t[m0] == 0:
        k = a.t[m0] // b.t[m0]
        if not (a - b * k).t: return P.of(k)
    return None

# products of integer unknowns as an uninterpreted function (with MUL_FACTS); polynomials are multiplied out first
OPAQUE_MUL = False
IMUL = z3.Function('imul!', z3.IntSort(), z3.IntSort(), z3.IntSort())
_x, _y, _w = z3.Ints('x!mul y!mul w!mul')
MUL_FACTS = [z3.ForAll([_x, _y], z3.Implies(z3.And(_x >= 0, _y >= 0), IMUL(_x, _y) >= 0), patterns=[IMUL(_x, _y)]),
             z3.ForAll([_x, _y], z3.Implies(_x == 0, IMUL(_x, _y) == 0), patterns=[IMUL(_x, _y)]),
             z3.ForAll([_x, _y], z3.Implies(_x == 1, IMUL(_x, _y) == _y), patterns=[IMUL(_x, _y)]),
             z3.ForAll([_x, _y], z3.Implies(_y == 0, IMUL(_x, _y) == 0), patterns=[IMUL(_x, _y)]),
             z3.ForAll([_x, _y], z3.Implies(_y == 1, IMUL(_x, _y) == _x), patterns=[IMUL(_x, _y)]),
             z3.ForAll([_x, _y, _w], z3.Implies(z3.And(_x >= 0, _y < _w), IMUL(_x, _y) + _x <= IMUL(_x, _w)), patterns=[z3.MultiPattern(IMUL(_x, _y), IMUL(_x, _w))])]

MUL_COMM = z3.ForAll([_x, _y], IMUL(_x, _y) == IMUL(_y, _x), patterns=[IMUL(_x, _y)])

# machine division by a non-constant as an uninterpreted function (with DIV_FACTS) instead of nonlinear arithmetic
OPAQUE_DIV = False
_I = z3.IntSort()
IDIV, IMOD = z3.Function('cdiv!', _I, _I, _I), z3.Function('cmod!', _I, _I, _I)
_a, _b = z3.Ints('a!div b!div')
DIV_FACTS = [z3.ForAll([_a, _b], z3.Implies(z3.And(_a >= 0, _b > 0), z3.And(IDIV(_a, _b) >= 0, IDIV(_a, _b) <= _a, z3.Implies(_a < _b, IDIV(_a, _b) == 0))), patterns=[IDIV(_a, _b)]),
             z3.ForAll([_a, _b], z3.Implies(z3.And(_a >= 0, _b > 0), z3.And(IMOD(_a, _b) >= 0, IMOD(_a, _b) < _b, IMOD(_a, _b) <= _a, z3.Implies(_a < _b, IMOD(_a, _b) == _a))), patterns=[IMOD(_a, _b)])]

def div_facts(a, b):
    """what C division means for a and b > 0: quotient and remainder (a product with the quotient)"""
    a, b = P.of(a), P.of(b)
    q, r = cdiv(a, b), cmod(a, b)
    return Implies(b > 0, And(b * q + r == a, Implies(a >= 0, And(q >= 0, r >= 0, r < b)), Implies(a < 0, And(q <= 0, r <= 0, -r < b))))

def idiv(a, b):
    """C division, given a >= 0 and b > 0 (or constants)"""
    a, b = P.of(a), P.of(b)
    q = polydiv(a, b)
    if q is not None: return q
    if b.const is not None and b.const != 0:
        d = a.divexact(b.const)
        if d is not None: return d
        if a.const is not None:
            q = abs(a.const) // abs(b.const)
            return P.of(q if (a.const >= 0) == (b.const > 0) else -q)
    if OPAQUE_DIV and b.const is None: return P.of(IDIV(a.z3(), b.z3()))
    return P.of(a.z3() / b.z3())

def imod(a, b):
    a, b = P.of(a), P.of(b)
    if polydiv(a, b) is not None: return P.of(0)
    if b.const is not None and b.const != 0:
        if a.divexact(b.const) is not None: return P.of(0)
        if a.const is not None:
            r = abs(a.const) % abs(b.const)
            return P.of(r if a.const >= 0 else -r)
    if OPAQUE_DIV and b.const is None: return P.of(IMOD(a.z3(), b.z3()))
    return P.of(a.z3() % b.z3())

def cdiv(a, b, nonneg=False):
    a, b = P.of(a), P.of(b)
    if nonneg or (OPAQUE_DIV and b.const is None) or (a.const is not None and b.const is not None) or (b.const and a.divexact(b.const) is not None) or polydiv(a, b) is not None:
        return idiv(a, b)
    az, bz = a.z3(), b.z3()
    return P.of(z3.If(az >= 0, az / bz, -((-az) / bz)))

def cmod(a, b, nonneg=False):
    a, b = P.of(a), P.of(b)
    if nonneg or (OPAQUE_DIV and b.const is None) or (a.const is not None and b.const is not None) or (b.const and a.divexact(b.const) is not None) or polydiv(a, b) is not None:
        return imod(a, b)
    az, bz = a.z3(), b.z3()
    absb = z3.If(bz >= 0, bz, -bz)
    return P.of(z3.If(az >= 0, az % absb, -((-az) % absb)))


class R:
    __slots__ = ('v', '_z')
    def __init__(self, v):
        self.v = v      # Fraction or z3 real expr
        self._z = None
    @staticmethod
    def of(x):
        if isinstance(x, R): return x
        if isinstance(x, P):
            c = x.const
            return R(Fraction(c)) if c is not None else R(z3.ToReal(x.z3()))
        if isinstance(x, bool): return R(Fraction(int(x)))
        if isinstance(x, int): return R(Fraction(x))
        if isinstance(x, float): return R(Fraction(x))
        if isinstance(x, Fraction): return R(x)
        if isinstance(x, z3.ExprRef):
            if z3.is_int(x): return R.of(P.of(x))
            if z3.is_rational_value(x): return R(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            return R(x)
        raise TypeError('R.of %r' % (x,))
    @property
    def const(self): return self.v if isinstance(self.v, Fraction) else None
    def z3(self):
        if isinstance(self.v, Fraction):
            if self._z is None: self._z = z3.RealVal(str(self.v.numerator) if self.v.denominator == 1 else '%d/%d' % (self.v.numerator, self.v.denominator))
            return self._z
        return self.v
    def __add__(self, o):
        o = R.of(o)
        if self.const == 0: return o
        if o.const == 0: return self
        if self.const is not None and o.const is not None: return R(self.v + o.v)
        return R(self.z3() + o.z3())
    def __radd__(self, o): return R.of(o) + self
    def __sub__(self, o):
        o = R.of(o)
        if o.const == 0: return self
        if self.const is not None and o.const is not None: return R(self.v - o.v)
        if self.const == 0: return -o
        return R(self.z3() - o.z3())
    def __rsub__(self, o): return R.of(o) - self
    def __neg__(self):
        if self.const is not None: return R(-self.v)
        return R(-self.z3())
    def __mul__(self, o):
        o = R.of(o)
        if self.const is not None and o.const is not None: return R(self.v * o.v)
        if self.const == 0 or o.const == 0: return R(Fraction(0))
        if self.const == 1: return o
        if o.const == 1: return self
        return R(self.z3() * o.z3())
    def __rmul__(self, o): return R.of(o) * self
    def __truediv__(self, o):
        o = R.of(o)
        if o.const is not None and o.const != 0:
            if self.const is not None: return R(self.v / o.v)
            if o.const == 1: return self
            return R(self.z3() * R(1 / o.v).z3())
        if self.const == 0 and False: return self
        return R(self.z3() / o.z3())
    def __rtruediv__(self, o): return R.of(o) / self
    def __pow__(self, n):
        r = R.of(1)
        for _ in range(n): r = r * self
        return r
    def _cmp(self, o, f, g):
        o = R.of(o)
        if self.const is not None and o.const is not None: return f(self.v, o.v)
        if not isinstance(self.v, Fraction) and not isinstance(o.v, Fraction) and self.v.get_id() == o.v.get_id():
            return f(0, 0)
        return g(self.z3(), o.z3())
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)
    def __eq__(self, o):
        if o is None: return False
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
    def __ne__(self, o): return Not(self == o)
    __hash__ = None
    def __bool__(self): raise TypeError('symbolic real used as python bool')
    def __repr__(self): return 'R(%s)' % (self.v,)


class Ptr:
    """pointer = region id + byte offset polynomial; null when rid is None.
    nullc: condition under which the value is actually the null pointer."""
    __slots__ = ('rid', 'off', 'nullc', 'hint', 'idx')
    def __init__(self, rid, off=None, nullc=False, hint=None, idx=None):
        self.rid, self.off, self.nullc, self.hint = rid, (off if off is not None else P.of(0)), nullc, hint
        self.idx = idx          # for region families: the member id
    def add(self, d, hint=None):
        return Ptr(self.rid, self.off + d, self.nullc, hint or self.hint, self.idx)
    @property
    def isnull(self): return self.rid is None
    def __repr__(self): return 'Ptr(%s,%s%s)' % (self.rid, self.off, '' if self.idx is None else ',#%s' % self.idx)

NULL = Ptr(None)

class FnPtr:
    def __init__(self, name): self.name = name

# ---------------------------------------------------------------- booleans
def bz(b):
    if isinstance(b, bool): return z3.BoolVal(b)
    return b

def And(*xs):
    out = []
    for x in flat(xs):
        if x is True: continue
        if x is False: return False
        if z3.is_true(x): continue
        if z3.is_false(x): return False
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)

def Or(*xs):
    out = []
    for x in flat(xs):
        if x is False: continue
        if x is True: return True
        if z3.is_false(x): continue
        if z3.is_true(x): return True
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)

def flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from flat(x)
        else: yield x

def Not(a):
    if isinstance(a, bool): return not a
    if z3.is_true(a): return False
    if z3.is_false(a): return True
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)

def Implies(a, b):
    if a is True: return b
    if a is False: return True
    if b is True: return True
    if b is False: return Not(a)
    return z3.Implies(a, b)

def Iff(a, b):
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    return a == b

def Ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, z3.BoolRef)):
        return Or(And(c, a), And(Not(c), b))
    if isinstance(a, (P, int)) and isinstance(b, (P, int)) and not isinstance(a, bool):
        a, b = P.of(a), P.of(b)
        if a.same(b): return a
        return P.of(z3.If(c, a.z3(), b.z3()))
    a, b = R.of(a), R.of(b)
    if a.v is b.v: return a
    return R(z3.If(c, a.z3(), b.z3()))

_fresh = [0]
def fresh_name(s):
    _fresh[0] += 1
    return '%s!%d' % (s, _fresh[0])
def fresh_int(s='i'): return P.of(z3.Int(fresh_name(s)))
def fresh_real(s='r'): return R(z3.Real(fresh_name(s)))
def fresh_bool(s='b'): return z3.Bool(fresh_name(s))

def SORT(kind):
    return z3.RealSort() if kind == 'real' else z3.IntSort()
def fresh_array(s, kind):
    return z3.Array(fresh_name(s), z3.IntSort(), SORT(kind))
def sel(arr, i, kind):
    e = z3.Select(arr, P.of(i).z3())
    # read over write with syntactically decided indices
    a = arr
    iP = P.of(i)
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        j = pz(a.arg(1))
        d = (iP - j).const
        if d is None: break
        if d == 0:
            v = a.arg(2)
            return R.of(v) if kind == 'real' else P.of(_repoly(v))
        a = a.arg(0)
    else:
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            v = a.arg(0)
            return R.of(v) if kind == 'real' else P.of(_repoly(v))
    if a is not arr: e = z3.Select(a, iP.z3())
    return R(e) if kind == 'real' else P.of(e)

_pz = {}
def pz(e):
    """z3 int term -> P (structure of + - * numerals recovered)"""
    r = _pz.get(e.get_id())
    if r is not None: return r[1]
    if z3.is_int_value(e): p = P.of(e.as_long())
    elif z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            p = P.of(0)
            for c in e.children(): p = p + pz(c)
        elif k == z3.Z3_OP_SUB:
            cs = e.children(); p = pz(cs[0])
            for c in cs[1:]: p = p - pz(c)
        elif k == z3.Z3_OP_UMINUS: p = -pz(e.arg(0))
        elif k == z3.Z3_OP_MUL:
            p = P.of(1)
            for c in e.children(): p = p * pz(c)
        else: p = P({(atom_index(e),): 1})
    else: p = P({(atom_index(e),): 1})
    _pz[e.get_id()] = (e, p)
    return p
def _repoly(e): return pz(e)

def has_ite(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or (z3.is_bool(x) and not (z3.is_app(x) and x.decl().name().startswith('trig_'))) or (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_ARRAY_MAP)): return True
        todo += x.children()
    return False
def mkforall(qs, b, pats):
    """quantified fact; trigger terms the solver cannot use (conditionals) are left out"""
    ok = []
    for pp in pats:
        zs = [x if z3.is_expr(x) else x.z3() for x in pp]
        if not any(has_ite(z) for z in zs): ok.append(z3.MultiPattern(*zs))
    try: return z3.ForAll(qs, b, patterns=ok) if ok else z3.ForAll(qs, b)
    except z3.Z3Exception: return z3.ForAll(qs, b)
