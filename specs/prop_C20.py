"""C20: simulation timer, initial states"""
from dsl import Spec, NS
import params
TU = ['harness/timer.cpp', 'opm/core/simulator/SimulatorTimer.cpp']
FLAGS = ('-Iharness/stubs',)

class Timer(Spec):
    tu, samples, throws, flags, budget = TU, 300, True, FLAGS, 100
    done0 = True         # may the timer be done?
    def timer(self, c):
        v = c.v
        v.n = c.size('n', 0)
        v.dt = c.arr('dt', 'double', v.n)
        v.S = c.array_sum(v.dt, v.n)
        v.cur = c.int('cur', 0, gen=lambda r: r.randrange(int(v.n) + 1)); c.assume(v.cur <= v.n)
        v.time = c.real('time', gen=lambda r: v.S(v.cur)); c.assume(c.near(v.time, v.S(v.cur)))
        v.total = c.real('total')
        return [v.dt, v.n, v.cur, ('double', v.time), ('double', v.total)]
    def out(self, c):
        v = c.v; v.q, v.x = c.arr('q', 'int', 3), c.arr('x', 'double', 3)
        return [v.q, v.x]
    def look(self, c, n, cur, S, total, dt):
        """the observers agree with the step list"""
        v = c.v
        c.check(v.q[0] == n, 'number of steps'); c.check(v.q[1] == cur, 'current step number')
        c.check(c.Iff(v.q[2] != 0, cur == n), 'done exactly after the last step')
        c.check(c.near(v.x[0], S(cur)), 'current time is the sum of the steps before')
        c.check(c.near(v.x[1], total), 'total time')
        c.check(c.Implies(cur < n, v.x[2] == dt(cur)), 'current step length')
    def on_throw(self, c): c.check(False, 'nothing to reject')
class Look(Timer):
    fn = 'h_look'
    def setup(self, c): return self.timer(c) + self.out(c)
    def post(self, c, r): v = c.v; self.look(c, v.n, v.cur, v.S, v.total, lambda i: v.dt[i])
class Length(Timer):
    fn, ret = 'h_length', 'double'
    def setup(self, c): return self.timer(c)
    def post(self, c, r): v = c.v; c.check(v.cur < v.n, 'a finished timer has no step length'); c.check(r == v.dt[v.cur], 'current step length')
    def on_throw(self, c): c.check(c.v.cur == c.v.n, 'only a finished timer has no step length')
class Next(Timer):
    fn = 'h_next'
    def setup(self, c): return self.timer(c) + self.out(c)
    def post(self, c, r):
        v = c.v; c.check(v.cur < v.n, 'a finished timer cannot advance')
        v.S.unfold(v.cur)
        self.look(c, v.n, v.cur + 1, v.S, v.total, lambda i: v.dt[i])
    def on_throw(self, c): c.check(c.v.cur == c.v.n, 'only a finished timer cannot advance')
class Set(Timer):
    fn = 'h_set'
    def setup(self, c):
        a = self.timer(c); v = c.v
        v.step = c.int('step', gen=lambda r: r.randrange(-1, int(v.n) + 2))
        return a + [v.step] + self.out(c)
    def post(self, c, r):
        v = c.v; c.check(c.And(0 <= v.step, v.step <= v.n), 'step numbers outside the schedule are rejected')
        self.look(c, v.n, v.step, v.S, v.total, lambda i: v.dt[i])
    def on_throw(self, c): v = c.v; c.check(c.Or(v.step < 0, v.step > v.n), 'only step numbers outside the schedule are rejected')
class Total(Timer):
    fn = 'h_total'
    def setup(self, c):
        a = self.timer(c); v = c.v
        v.t2 = c.real('total2')
        return a + [('double', v.t2)] + self.out(c)
    def post(self, c, r): v = c.v; self.look(c, v.n, v.cur, v.S, v.t2, lambda i: v.dt[i])
class Init(Timer):
    fn = 'h_init'
    def handlers(self): return params.handlers(self)
    def setup(self, c):
        a = self.timer(c); v = c.v
        self.params = v.P = params.Params(c, [('num_psteps', 'int', lambda r: r.randrange(0, 5)), ('stepsize_days', 'real', lambda r: r.randrange(1, 9) / 4)])
        v.m = v.P.get('num_psteps', c.I(1)); v.d = v.P.get('stepsize_days', c.R(1)) * 86400
        c.assume(v.m >= 0)
        v.k = c.int('k', 0, gen=lambda r: r.randrange(max(1, int(v.m)))); c.assume(v.k < v.m)
        v.step = c.arr('step', 'double', 1)
        return a + v.P.args() + [v.k] + self.out(c) + [v.step]
    def post(self, c, r):
        v = c.v
        self.look(c, v.m, c.I(0), lambda i: c.R(0), c.R(v.m) * v.d, lambda i: v.d)
        c.check(v.step[0] == v.d, 'every step has the length asked for')
class InitDeck(Timer):
    fn = 'h_init_deck'
    def setup(self, c):
        a = self.timer(c); v = c.v
        v.m = c.size('m', 0); v.e = c.arr('e', 'double', v.m); v.T = c.array_sum(v.e, v.m)
        v.k = c.int('k', 0, gen=lambda r: r.randrange(max(1, int(v.m)))); c.assume(v.k < v.m)
        v.step = c.arr('step', 'double', 1)
        return a + [v.e, v.m, v.k] + self.out(c) + [v.step]
    def post(self, c, r):
        v = c.v
        self.look(c, v.m, c.I(0), v.T, v.T(v.m), lambda i: v.e[i])
        c.check(v.step[0] == v.e[v.k], 'the steps of the schedule')
class New(Timer):
    fn, throws = 'h_new', True
    def setup(self, c): return self.out(c)
    def post(self, c, r):
        v = c.v
        c.check(c.And(v.q[0] == 0, v.q[1] == 0, v.q[2] != 0, v.x[0] == 0), 'a new timer has no steps')

# ---- initial states
from lib import *
from prop_C12 import wells_table
class State(Spec):
    tu, structs, samples = 'harness/states.cpp', ('UnstructuredGrid', 'Wells', 'WellControls'), 200
class Init2(State):
    """a fresh state: sizes, zero pressures and fluxes, only the second phase present"""
    fn = 'h_init2'
    def setup(self, c):
        v = c.v
        v.nc, v.nf = c.size('nc', 0), c.size('nf', 0)
        v.g = c.struct('g', 'UnstructuredGrid', number_of_cells=v.nc, number_of_faces=v.nf)
        v.q = c.arr('q', 'int', 5)
        v.p, v.f, v.u, v.s = c.arr('p', 'double', v.nc), c.arr('f', 'double', v.nf), c.arr('u', 'double', v.nf), c.arr('s', 'double', self.np * v.nc)
        return [v.g, self.np, v.q, v.p, v.f, v.u, v.s]
    def val(self, c, k): return c.Ite(c.mod(k, self.np) == 1, c.R(1), c.R(0))
    def inv(self, c, L):
        np = self.np
        for a in L.real_arrays():
            for p in range(np): yield 'sat %s %d' % (a.name, p), c.forall(0, L.N, lambda i, p=p: a[np * i + p] == float(p == 1), pat=lambda i, p=p: a[np * i + p])
            yield 'rest %s' % a.name, c.forall(np * L.N, np * c.v.nc, lambda k: a[k] == 0, pat=lambda k: a[k])
    def post(self, c, r):
        v, np = c.v, self.np
        c.check(c.And(v.q[0] == np, v.q[1] == v.nc, v.q[2] == v.nf, v.q[3] == v.nf, v.q[4] == np * v.nc), 'sizes')
        c.check_all(0, v.nc, lambda i: v.p[i] == 0, 'cell pressures')
        c.check_all(0, v.nf, lambda i: c.And(v.f[i] == 0, v.u[i] == 0), 'face pressures and fluxes')
        c.check_all(0, v.nc, lambda i: sum((v.s[np * i + p] for p in range(1, np)), v.s[np * i]) == 1, 'saturations add up to one')
        c.check_all(0, v.nc, lambda i: c.And(*[v.s[np * i + p] == float(p == 1) for p in range(np)]), 'only the second phase is present')
class InitB(Init2):
    fn = 'h_initb'
class First2(State):
    """setFirstSat: the chosen cells get the extremal saturation and its complement, the others keep theirs"""
    fn = 'h_first2'
    def setup(self, c):
        v, np = c.v, self.np
        v.nc, v.n = c.size('nc', 1), c.size('n', 1)
        v.s0 = c.arr('s0', 'double', np * v.nc); v.cells = c.arr('cells', 'int', v.n, lo=0, hi=v.nc)
        v.lo, v.hi = c.arr('lo', 'double', np * v.nc), c.arr('hi', 'double', np * v.nc)
        v.which = c.int('which', 0, 1, gen=lambda r: r.randrange(2)); v.s = c.arr('s', 'double', np * v.nc)
        # chosen[i]: i is one of the cells (a witness position), or -1
        v.at = c.arr('at', 'int', v.nc, gen=lambda r, n: [max([k for k in range(int(v.n)) if v.cells[k] == i] or [-1]) for i in range(n)])
        c.assume(c.forall(0, v.nc, lambda i: c.And(v.at[i] < v.n, c.Implies(v.at[i] >= 0, v.cells[v.at[i]] == i)), pat=lambda i: v.at[i]))
        c.assume(c.forall(0, v.n, lambda k: c.And(v.at[v.cells[k]] >= k), pat=lambda k: v.cells[k]))
        return [v.nc, np, v.s0, v.cells, v.n, v.lo, v.hi, v.which, v.s]
    def inv(self, c, L):
        v, np = c.v, self.np
        for a in L.real_arrays():
            for p in range(np):
                yield 'lo %s %d' % (a.name, p), c.forall(0, L.N, lambda i: a[np * i + p] == v.lo[v.cells[i] * np + p], pat=lambda i: a[np * i + p])
                yield 'hi %s %d' % (a.name, p), c.forall(0, L.N, lambda i: a[np * i + p] == v.hi[v.cells[i] * np + p], pat=lambda i: a[np * i + p])
            yield 'keep %s' % a.name, c.forall(0, v.nc, lambda i: c.Implies(v.at[i] < 0, c.And(*[a[np * i + p] == v.s0[np * i + p] for p in range(np)])), pat=lambda i: v.at[i])
            for p in range(2, np): yield 'other %s' % a.name, c.forall(0, v.nc, lambda i: a[np * i + p] == v.s0[np * i + p], pat=lambda i: [a[np * i + p]])
            yield 'set %s' % a.name, c.forall(0, L.N, lambda k: self.done(c, a, v.cells[k]), pat=lambda k: v.cells[k])
    def done(self, c, a, i):
        v, np = c.v, self.np
        x = c.Ite(v.which == 0, v.lo[np * i], v.hi[np * i])
        return c.And(a[np * i] == x, c.near(a[np * i + 1], 1 - x))
    def post(self, c, r):
        v, np = c.v, self.np
        c.check_all(0, v.n, lambda k: self.done(c, v.s, v.cells[k]), 'chosen cells have the extremal saturation')
        c.check_all(0, v.n, lambda k: c.near(v.s[np * v.cells[k]] + v.s[np * v.cells[k] + 1], 1), 'the first two saturations of a chosen cell add up to one')
        c.check_all(0, v.nc, lambda i: c.Implies(v.at[i] < 0, c.And(*[v.s[np * i + p] == v.s0[np * i + p] for p in range(np)])), 'other cells keep their saturations')
        c.check_all(0, v.nc, lambda i: c.And(*[v.s[np * i + p] == v.s0[np * i + p] for p in range(2, np)]), 'other phases keep their saturations')
class FirstB(First2):
    fn = 'h_firstb'
class Well2(State):
    """WellState::init: bottom hole pressures from the current control, else from the first perforated cell"""
    fn = 'h_well2'
    def setup(self, c):
        v = c.v
        G = NS(); G.nc = v.nc = c.size('nc', 1)
        v.w = w = wells_table(c, G)
        v.p = c.arr('p', 'double', v.nc); v.q = c.arr('q', 'int', 3)
        v.bhp, v.rate, v.press = c.arr('bhp', 'double', w.n), c.arr('rate', 'double', w.np), c.arr('press', 'double', w.np)
        c.assume(c.forall(0, w.n, lambda i: c.Or(self.given(c, i), w.pos[i] < w.pos[i + 1]), pat=lambda i: w.pos[i]))
        return [w.W, v.p, v.nc, w.n, w.np, v.q, v.bhp, v.rate, v.press]
    def given(self, c, i):
        w = c.v.w
        if c.native: return w.cur[i] >= 0 and w.ctype[w.cpos[i] + w.cur[i]] == 0
        return c.And(w.cur[i] >= 0, w.ctype[w.cpos[i] + w.cur[i]] == 0)
    def val(self, c, i):
        v, w = c.v, c.v.w
        if c.native: return w.target[w.cpos[i] + w.cur[i]] if self.given(c, i) else v.p[w.cells[w.pos[i]]]
        return c.Ite(self.given(c, i), w.target[w.cpos[i] + w.cur[i]], v.p[w.cells[w.pos[i]]])
    def inv(self, c, L):
        for a in L.real_arrays(): yield 'bhp %s' % a.name, c.forall(0, L.N, lambda i: a[i] == self.val(c, i), pat=lambda i: a[i])
    def post(self, c, r):
        v, w = c.v, c.v.w
        c.check(c.And(v.q[0] == w.n, v.q[1] == w.np, v.q[2] == w.np), 'sizes')
        c.check_all(0, w.n, lambda i: v.bhp[i] == self.val(c, i), 'bottom hole pressures')
        c.check_all(0, w.np, lambda k: c.And(v.rate[k] == 0, v.press[k] == -1e100), 'perforation rates and pressures')
class WellB(Well2):
    fn = 'h_wellb'
SPECS = [Look(), Length(), Next(), Set(), Total(), Init(), InitDeck(), New()] + each_np(Init2, (2, 3)) + each_np(InitB, (2, 3)) + each_np(First2, (2, 3)) + each_np(FirstB, (2, 3)) + [Well2(), WellB()]
