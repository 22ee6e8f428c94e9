"""Contract of the parameter reader (assumed): a parameter has the value given, or the default"""
from terms import Ite
FREE = object()
class Params:
    """params: (name, kind, generator, fixed): fixed is FREE (any value, given or not), None (not given), or the value;
    kind is 'int', 'real' or a list of strings (never FREE)"""
    def __init__(p, c, params):
        params = [tuple(q) + (FREE,) * (4 - len(q)) for q in params]
        p.c, p.names = c, [q[0] for q in params]
        p.kinds, p.fixed = [q[1] for q in params], [q[3] for q in params]
        num = lambda i, x: float(p.kinds[i].index(x)) if isinstance(p.kinds[i], (list, tuple)) else float(x)
        p.has = c.arr('has', 'int', len(params), gen=lambda r, n: [r.randrange(2) if f is FREE else int(f is not None) for f in p.fixed])
        p.val = c.arr('val', 'double', len(params), gen=lambda r, n: [float(g(r)) if f is FREE else 0.0 if f is None else num(i, f) for i, (_, _, g, f) in enumerate(params)])
        p.ints = {}
        for i, (n, k, g, f) in enumerate(params):
            if k == 'int' and f is FREE:
                x = c.int('int_' + n, gen=lambda r, i=i: int(p.val[i]))
                if not c.native: c.assume(c.R(x) == p.val[i])
                p.ints[i] = x
    def get(p, name, default):
        i = p.names.index(name)
        if p.fixed[i] is None: return default
        if p.fixed[i] is not FREE: return p.fixed[i]
        return p.c.Ite(p.has[i] != 0, p.ints[i] if p.kinds[i] == 'int' else p.val[i], default)
    def args(p): return [p.has, p.val]
def handlers(spec):
    """models of vp_param, vp_param_int, vp_param_str; the values are those of spec.params"""
    import models
    def h(ex, st, a, inst):
        from terms import P, R
        p = spec.params
        name = models.cstring(ex, st, a[0])
        if name not in p.names: ex.oblige(st, 'a documented parameter', False, where=inst.loc); return []
        i = p.names.index(name); f = p.fixed[i]
        if f is None: return models.ret(st, a[1])
        if isinstance(p.kinds[i], (list, tuple)): return models.ret(st, literal(ex, st, f))
        if f is not FREE: return models.ret(st, P.of(f) if p.kinds[i] == 'int' else R.of(f))
        has = p.has.at(st, i) != 0
        return models.ret(st, Ite(has, p.ints[i] if p.kinds[i] == 'int' else p.val.at(st, i), a[1]))
    return {'vp_param': h, 'vp_param_int': h, 'vp_param_str': h}
def literal(ex, st, s):
    from exec import Reg
    from terms import P, Ptr
    from ir import Ty
    rid = ex.region(st, Reg('literal', 'cells', P.of(len(s) + 1), owner='global'))
    for i, ch in enumerate(s + '\0'): ex.store(st, Ty('int', None, 8), P.of(ord(ch)), Ptr(rid, P.of(i)), None)
    return Ptr(rid)
