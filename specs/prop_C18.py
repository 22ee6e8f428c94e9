"""C18: units and averages"""
from dsl import Spec
TU = 'harness/units.cpp'
from fractions import Fraction as F
cm = F(1, 100); inch = F(254, 10000); lb = F(45359237, 10 ** 8); g = F(980665, 10 ** 5); atm = F(101325)
UNITS = [('micro', F(1, 10 ** 6)), ('milli', F(1, 1000)), ('centi', F(1, 100)), ('deci', F(1, 10)), ('kilo', F(1000)), ('mega', F(10 ** 6)), ('giga', F(10 ** 9)),
         ('meter', F(1)), ('inch', inch), ('feet', 12 * inch), ('second', F(1)), ('minute', F(60)), ('hour', F(3600)), ('day', F(86400)), ('year', F(365 * 86400)),
         ('gallon', 231 * inch ** 3), ('stb', 42 * 231 * inch ** 3), ('liter', F(1, 1000)), ('kilogram', F(1)), ('pound', lb), ('gravity', g), ('Newton', F(1)),
         ('lbf', lb * g), ('Pascal', F(1)), ('barsa', F(10 ** 5)), ('atm', atm), ('psia', lb * g / inch ** 2), ('Pas', F(1)), ('Poise', F(1, 10)),
         ('darcy', cm ** 3 / cm ** 2 * (F(1, 1000)) / (atm / cm)),
         # the conversion factors of namespace units are stated to about six digits
         ('MILLIDARCY', F(1, 1000) * cm * F(1, 1000) * cm / atm), ('VISCOSITY_UNIT', F(1, 1000)), ('DAYS2SECONDS', F(86400)), ('FEET', 12 * inch), ('WELL_INDEX_UNIT', F(1, 1000) / (86400 * 10 ** 5))]
ROUGH = {'MILLIDARCY': F(1, 10 ** 6), 'FEET': F(1, 10 ** 8)}

class Units(Spec):
    tu, fn, ret, init = TU, 'h_units', 'int', True
    def setup(self, c): c.v.out = c.arr('out', 'double', len(UNITS)); return [c.v.out]
    def post(self, c, r):
        c.check(r == len(UNITS), 'number of units')
        for i, (n, x) in enumerate(UNITS):
            tol = abs(x) * ROUGH.get(n, F(1, 10 ** 13))
            lo, hi = x - tol, x + tol
            o = c.v.out[i]
            if c.native: c.check(lo <= F(float(o)) <= hi, 'definition of ' + n)
            else: c.check(c.And(lo.denominator * o >= lo.numerator, hi.denominator * o <= hi.numerator), 'definition of ' + n)
class Conv(Spec):
    tu, ret, samples = TU, 'double', 200
    def __init__(self, fn, nm): self.fn, self.name = fn, nm
    def setup(self, c):
        v = c.v
        v.q = c.real('q'); v.u = c.real('u', gen=lambda r: r.choice([1e-13, 1e5, 86400.0, .3048, 2.0, -3.0, 1e-3]) * r.choice([1, 1, .7]))
        c.assume(c.Not(v.u == 0))
        return [('double', v.q), ('double', v.u)]
    def post(self, c, r):
        v = c.v
        want = {'h_from': v.q * v.u, 'h_to': v.q / v.u, 'h_round': v.q, 'h_round2': v.q}[self.fn]
        c.check(c.near(r, want), self.name)
class Power(Spec):
    tu, ret = TU, 'double'
    def __init__(self, fn, k): self.fn, self.k = fn, k
    name = property(lambda s: s.fn)
    def setup(self, c): c.v.q = c.real('q'); return [('double', c.v.q)]
    def post(self, c, r): q = c.v.q; c.check(c.near(r, q * q if self.k == 2 else q * q * q), 'power')
class Avg(Spec):
    tu, ret, samples = TU, 'double', 200
    def __init__(self, fn): self.fn = fn
    name = property(lambda s: s.fn)
    def setup(self, c):
        v = c.v; pos = self.fn != 'h_arith'
        gen = (lambda r: r.choice([1, 2, 3, 7, .5, 1e-3, 100.0]) * r.choice([1, 1.5])) if pos else None
        v.a, v.b = c.real('a', gen=gen), c.real('b', gen=gen)
        if pos: c.assume(c.And(v.a > 0, v.b > 0))
        return [('double', v.a), ('double', v.b)]
    def post(self, c, r):
        v = c.v; a, b = v.a, v.b
        c.check(c.And(c.le(c.min(a, b), r), c.le(r, c.max(a, b))), 'between the inputs')
        if self.fn == 'h_arith': c.check(c.near(r + r, a + b), 'arithmetic average')
        elif self.fn == 'h_geom': c.check(c.And(r >= 0, c.near(r * r, a * b)), 'geometric average')
        else: c.check(c.near(r * (a + b), 2 * a * b), 'harmonic average')

SPECS = [Units()] + [Conv(f, n) for f, n in (('h_from', 'to SI'), ('h_to', 'from SI'), ('h_round', 'round trip'), ('h_round2', 'round trip from SI'))] + [Power('h_square', 2), Power('h_cubic', 3)] + [Avg(f) for f in ('h_arith', 'h_geom', 'h_harm')]
