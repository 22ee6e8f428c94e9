"""Sound abstraction of nonlinear real arithmetic: products and quotients of non-constants become
uninterpreted functions over a polynomial normal form, plus ground instances of true facts.
unsat after abstraction implies unsat before."""
import z3
from fractions import Fraction
RS = z3.RealSort()
RMUL = z3.Function('rmul!', RS, RS, RS)
RDIV = z3.Function('rdiv!', RS, RS, RS)
_x, _y, _t = z3.Reals('x!nl y!nl t!nl')
AXIOMS = [
    z3.ForAll([_x, _y], RMUL(_x, _y) == RMUL(_y, _x), patterns=[RMUL(_x, _y)]),
    z3.ForAll([_x, _y], z3.Implies(z3.And(_x >= 0, _y >= 0), RMUL(_x, _y) >= 0), patterns=[RMUL(_x, _y)]),
    z3.ForAll([_x, _y], z3.Implies(z3.And(_x > 0, _y > 0), RMUL(_x, _y) > 0), patterns=[RMUL(_x, _y)]),
    z3.ForAll([_x, _y], z3.Implies(z3.And(_x <= 0, _y >= 0), RMUL(_x, _y) <= 0), patterns=[RMUL(_x, _y)]),
    z3.ForAll([_x, _y], z3.Implies(z3.And(_x <= 0, _y <= 0), RMUL(_x, _y) >= 0), patterns=[RMUL(_x, _y)]),
    z3.ForAll([_x, _y], z3.Implies(_x == 0, RMUL(_x, _y) == 0), patterns=[RMUL(_x, _y)]),
    z3.ForAll([_x, _y], z3.Implies(_x == 1, RMUL(_x, _y) == _y), patterns=[RMUL(_x, _y)]),
    z3.ForAll([_x, _t], z3.Implies(z3.And(_t != 0, _x == _t), RDIV(_x, _t) == 1), patterns=[RDIV(_x, _t)]),
    z3.ForAll([_x, _t], z3.Implies(z3.And(_t != 0, _x == 0), RDIV(_x, _t) == 0), patterns=[RDIV(_x, _t)]),
    z3.ForAll([_x, _t], z3.Implies(z3.And(_t > 0, _x >= 0), RDIV(_x, _t) >= 0), patterns=[RDIV(_x, _t)]),
    z3.ForAll([_x, _t], z3.Implies(z3.And(_t > 0, _x > 0), RDIV(_x, _t) > 0), patterns=[RDIV(_x, _t)]),
    z3.ForAll([_x, _t], z3.Implies(z3.And(_t > 0, _x <= 0), RDIV(_x, _t) <= 0), patterns=[RDIV(_x, _t)]),
    z3.ForAll([_x, _t], z3.Implies(z3.And(_t > 0, _x <= _t), RDIV(_x, _t) <= 1), patterns=[RDIV(_x, _t)]),
]

FLAT_AXIOMS = AXIOMS + [
    z3.ForAll([_x, _t], RDIV(-_x, _t) == -RDIV(_x, _t), patterns=[RDIV(_x, _t)]),
]

def cmul(c, e):
    f = c.as_fraction()
    return z3.RealVal(0) if not f else (e if f == 1 else c * e)

def headname(e):
    n = ''
    while z3.is_app(e) and e.num_args():
        d = e.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED: return d.name()
        n = d.name(); e = e.arg(0)
    return e.decl().name() if z3.is_app(e) and not z3.is_rational_value(e) else n

class AbsNL:
    def __init__(self, flat=False):
        # flat: products are kept as written (over linear factors) instead of being multiplied out
        self.flat = flat
        self.memo = {}       # id -> (ast, abstracted)
        self.refs = []
        self.atoms = {}      # id -> ast
        self.divs = {}
        self.ites = {}
        self.okey = {}       # atom id -> factor order: by array name, so that equal terms are nested alike
        self.nl = {}         # id -> bool
    def nonlinear(self, e):
        """does e contain a nonlinear real product or quotient?"""
        st = [e]
        seen = []
        i = e.get_id()
        if i in self.nl: return self.nl[i]
        r = self._nl(e)
        return r
    def _nl(self, e):
        i = e.get_id()
        if i in self.nl: return self.nl[i]
        r = False
        if z3.is_quantifier(e): r = self._nl(e.body())
        elif z3.is_app(e):
            if e.sort_kind() == z3.Z3_REAL_SORT:
                k = e.decl().kind()
                if k == z3.Z3_OP_MUL and sum(1 for c in e.children() if not z3.is_rational_value(c)) > 1: r = True
                elif k == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)): r = True
                elif k == z3.Z3_OP_POWER: r = True
            if not r: r = any(self._nl(c) for c in e.children())
        self.nl[i] = r
        self.refs.append(e)
        return r
    # polynomial: dict tuple(sorted atom ids) -> Fraction
    def isconst(self, p): return not p or (len(p) == 1 and () in p)
    def atom(self, e):
        if e.get_id() not in self.atoms:
            self.atoms[e.get_id()] = e
            self.okey[e.get_id()] = (headname(e), e.get_id())
        return {(e.get_id(),): Fraction(1)}
    def mulp(self, a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n, key=self.okey.get))
                r[k] = r.get(k, 0) + c * d
        return {k: c for k, c in r.items() if c}
    def addp(self, a, b, s=1):
        r = dict(a)
        for k, c in b.items():
            r[k] = r.get(k, 0) + s * c
        return {k: c for k, c in r.items() if c}
    def mon(self, m):
        if not m: return z3.RealVal(1)
        e = self.atoms[m[-1]]
        for i in reversed(m[:-1]): e = RMUL(self.atoms[i], e)
        return e
    def toz(self, p):
        if not p: return z3.RealVal(0)
        ts = []
        for m in sorted(p):
            c = p[m]
            if not m: ts.append(z3.RealVal(str(c)))
            elif c == 1: ts.append(self.mon(m))
            else: ts.append(z3.RealVal(str(c)) * self.mon(m))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
    def poly(self, e, facts, bound):
        if z3.is_rational_value(e): 
            f = e.as_fraction()
            return {(): f} if f else {}
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch: r = self.addp(r, self.poly(c, facts, bound))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.poly(ch[0], facts, bound)
            for c in ch[1:]: r = self.addp(r, self.poly(c, facts, bound), -1)
            return r
        if k == z3.Z3_OP_UMINUS: return self.addp({}, self.poly(ch[0], facts, bound), -1)
        if k == z3.Z3_OP_MUL:
            r = self.poly(ch[0], facts, bound)
            for c in ch[1:]: r = self.mulq(r, self.poly(c, facts, bound), facts, bound)
            return r
        if k == z3.Z3_OP_DIV:
            d = self.poly(ch[1], facts, bound)
            n = self.poly(ch[0], facts, bound)
            return self.divq(n, d, facts, bound)
        if k == z3.Z3_OP_ITE:
            a, b = self.poly(ch[1], facts, bound), self.poly(ch[2], facts, bound)
            return self.ite(self.rw(ch[0], facts, bound), a, b)
        if k == z3.Z3_OP_TO_REAL and ch[0].decl().kind() == z3.Z3_OP_ITE:
            i = ch[0]
            if all(z3.is_int_value(x) for x in i.children()[1:]):
                f = lambda x: {(): Fraction(x.as_long())} if x.as_long() else {}
                return self.ite(self.rw(i.arg(0), facts, bound), f(i.arg(1)), f(i.arg(2)))
        return self.atom(self.rw(e, facts, bound, args_only=True))
    def ite(self, c, a, b):
        e = z3.If(c, self.toz(a), self.toz(b))
        self.ites[e.get_id()] = (c, a, b)
        return self.atom(e)
    def fnorm(self, p):
        """-> (coefficient, normalised factor): p = coefficient * factor"""
        m = min(p, key=lambda m: [self.okey[i] for i in m])
        c = p[m]
        return c, {k: v / c for k, v in p.items()}
    def linif(self, p):
        """p = k*If(c, A, B) + const -> (c, p with A, p with B)"""
        A = B = None
        cond = None
        for m, k in p.items():
            if len(m) == 1 and m[0] in self.ites:
                c, a, b = self.ites[m[0]]
                if cond is None: cond, A, B = c, {}, {}
                elif cond.get_id() != c.get_id(): return None
                A, B = self.addp(A, a, k), self.addp(B, b, k)
            elif m != (): return None
        if cond is None: return None
        if () in p: A, B = self.addp(A, {(): p[()]}), self.addp(B, {(): p[()]})
        return cond, A, B
    def mulq(self, r, p, facts, bound):
        for x, y in ((r, p), (p, r)):
            l = None if self.isconst(y) else self.linif(x)
            if l and (self.isconst(l[1]) and self.isconst(l[2])) :
                # a choice between constants: case distinction instead of a product
                return self.ite(l[0], self.mulp(l[1], y), self.mulp(l[2], y))
            if l and not self.linif(y):
                return self.ite(l[0], self.mulq(l[1], y, facts, bound), self.mulq(l[2], y, facts, bound))
        if self.flat and not self.isconst(r) and not self.isconst(p):
            (a, r), (b, p) = self.fnorm(r), self.fnorm(p)
            x, y = sorted((r, p), key=lambda q: sorted([self.okey[i] for i in m] for m in q))
            return {m: c * a * b for m, c in self.atom(RMUL(self.toz(x), self.toz(y))).items()}
        x = self.mulp(r, p)
        if len(x) > 60: raise OverflowError
        if (len(r) > 1 or len(p) > 1) and not self.isconst(r) and not self.isconst(p):
            # the product as written, for congruence, and its expansion
            facts.append(RMUL(self.toz(r), self.toz(p)) == self.toz(x))
        return x
    def divq(self, n, d, facts, bound):
        if len(d) == 1 and () in d:
            return {m: c / d[()] for m, c in n.items()}
        l = self.linif(n)
        if l: return self.ite(l[0], self.divq(l[1], d, facts, bound), self.divq(l[2], d, facts, bound))
        if self.flat and n and d:
            (a, n), (b, d) = self.fnorm(n), self.fnorm(d)
            f = a / b
            D = self.toz(d); q = RDIV(self.toz(n), D)
            r = self.atom(q)
            facts.append(z3.Implies(D != 0, RMUL(q, D) == self.toz(n)))
            return {m: c * f for m, c in r.items()}
        D = self.toz(d)
        q = RDIV(self.toz(n), D)
        a = self.atom(q)
        if not d: return a
        if len(n) > 1 or any(c != 1 for c in n.values()):
            s = {}
            for m, c in n.items():
                b = self.atom(RDIV(self.mon(m), D))
                if not bound: self.divs[next(iter(b))[0]] = (d, D)
                s = self.addp(s, {next(iter(b)): c})
            facts.append(z3.Implies(D != 0, q == self.toz(s)))
        if not bound: self.divs[next(iter(a))[0]] = (d, D)
        if len(d) <= 4 and len(n) <= 6: facts.append(z3.Implies(D != 0, self.toz(self.mulp(a, d)) == self.toz(n)))
        if d:
            s = {}
            for m, c in d.items(): s = self.addp(s, {next(iter(self.atom(RDIV(self.mon(m), D)))): c})
            facts.append(z3.Implies(D != 0, self.toz(s) == 1))
        return a
    def shares(self, p, facts):
        """x * (m/D) with D = m + ...: the shares of x add up to x"""
        done = set()
        for m in p:
            if len(m) < 2: continue
            for j, a in enumerate(m):
                if a not in self.divs: continue
                d, D = self.divs[a]
                rest = m[:j] + m[j + 1:]
                key = (rest, D.get_id())
                if key in done: continue
                done.add(key)
                s = {}
                for mm, c in d.items():
                    s = self.addp(s, {tuple(sorted(rest + (next(iter(self.atom(RDIV(self.mon(mm), D))))[0],), key=self.okey.get)): c})
                facts.append(z3.Implies(D != 0, self.toz(s) == self.mon(rest)))
    def rw(self, e, facts, bound, args_only=False):
        """rewritten e; ground facts are appended"""
        if not z3.is_app(e):
            if z3.is_quantifier(e): return self.quant(e, facts)
            return e
        if not self._nl(e): return e
        if e.sort_kind() == z3.Z3_REAL_SORT and not args_only and e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_ITE):
            p = self.poly(e, facts, bound)
            if not bound: self.shares(p, facts)
            return self.toz(p)
        ch = [self.rw(c, facts, bound) for c in e.children()]
        if all(a.get_id() == b.get_id() for a, b in zip(ch, e.children())): return e
        k = e.decl().kind()
        if k == z3.Z3_OP_AND: return z3.And(*ch)
        if k == z3.Z3_OP_OR: return z3.Or(*ch)
        if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*ch)
        if k == z3.Z3_OP_ADD: return z3.Sum(ch)
        if k == z3.Z3_OP_MUL: return z3.Product(ch)
        return e.decl()(*ch)
    def quant(self, q, facts):
        if not self._nl(q): return q
        n = q.num_vars()
        cs = [z3.Const('%s!b%d_%d' % (q.var_name(i), q.get_id(), i), q.var_sort(i)) for i in range(n)]
        body = z3.substitute_vars(q.body(), *reversed(cs))
        pats = []
        for i in range(q.num_patterns()):
            p = q.pattern(i)
            ts = [z3.substitute_vars(p.arg(j), *reversed(cs)) for j in range(p.num_args())]
            if any(self._nl(t) for t in ts): continue
            pats.append(z3.MultiPattern(*ts))
        fs = []
        b = self.rw(body, fs, True)
        cids = {x.get_id() for x in cs}
        memo = {}
        def has(e):
            i = e.get_id()
            if i not in memo: memo[i] = i in cids or (z3.is_quantifier(e) and has(e.body())) or any(has(x) for x in e.children())
            return memo[i]
        facts += [x for x in fs if not has(x)]
        fs = [x for x in fs if has(x)]
        if fs: facts.append(z3.ForAll(cs, z3.And(*fs), patterns=pats))
        return z3.ForAll(cs, b, patterns=pats) if q.is_forall() else z3.Exists(cs, b)
    def __call__(self, e):
        """-> abstracted formula including its ground facts"""
        i = e.get_id()
        if i in self.memo: return self.memo[i][1]
        if not self._nl(e): r = e
        else:
            facts = []
            try: r = self.rw(e, facts, False)
            except OverflowError: r = e
            if facts: r = z3.And(r, *facts)
        self.memo[i] = (e, r)
        return r
    def goal(self, g):
        """negated goal"""
        return self(z3.Not(g))
