"""Verifies one contract: VC generation, discharge, counterexample search and native replay."""
import os, sys, time, json, re, subprocess, tempfile, traceback, multiprocessing as mp, signal, random
import z3
import terms, build, dsl
from terms import *
from ir import Module
from exec import Ex, State, Unsupported, Obl
_modcache = {}

def get_module(spec):
    srcs = spec.tu if isinstance(spec.tu, (list, tuple)) else [spec.tu]
    key = (tuple(srcs), tuple(getattr(spec, 'flags', ())))
    if key not in _modcache:
        _modcache[key] = Module(build.ir_text(list(srcs), extra=list(getattr(spec, 'flags', ())), passes=getattr(spec, 'passes', build.PASSES)))
    return _modcache[key]

def prepare(spec, mode, bounded=None, verbose=False, budget=None, tscale=1):
    mod = get_module(spec)
    ex = Ex(mod, spec, mode=mode, handlers=spec.handlers(), verbose=verbose)
    ex.oom = spec.oom
    ex.tscale = tscale
    ex.overflow = getattr(spec, 'overflow', False)
    ex.unroll_limit = getattr(spec, 'unroll_limit', 64)
    ex.path_limit = getattr(spec, 'path_limit', 6000)
    if budget: ex.deadline = time.time() + budget
    c = dsl.SymCtx(ex, bounded)
    ex.ctx = c
    st = State()
    c.st = st
    return mod, ex, c, st

def conv_arg(a):
    if isinstance(a, (dsl.SymArr, dsl.SymStruct)): return a.p
    if isinstance(a, tuple): a = a[1]
    if isinstance(a, bool): return a
    if isinstance(a, int): return P.of(a)
    if isinstance(a, float): return R.of(a)
    return a

def coerce(mod, fname, args):
    fn = mod.funcs.get(fname)
    if fn is None or fn.declared_only: raise Unsupported('function %s not found in the sources' % fname)
    out = []
    for (ty, _), a in zip(fn.params, args):
        if ty.k in ('double', 'float') and not isinstance(a, R): a = R.of(a)
        if ty.k == 'int' and ty.n == 1 and isinstance(a, P): a = a != 0
        out.append(a)
    if len(fn.params) != len(args): raise Unsupported('signature of %s changed' % fname)
    return out

def generate(spec, mode='proof', bounded=None, verbose=False, budget=None, tscale=1):
    """-> (ex, ctx, pre_state)"""
    terms.OPAQUE_DIV = mode == 'proof' and getattr(spec, 'opaque_div', False)
    terms.OPAQUE_MUL = mode == 'proof' and getattr(spec, 'opaque_mul', False)
    mod, ex, c, st = prepare(spec, mode, bounded, verbose, budget, tscale)
    if terms.OPAQUE_MUL:
        for f in terms.MUL_FACTS: st.assume(f)
        if spec.opaque_mul == 'comm': st.assume(terms.MUL_COMM)
    if terms.OPAQUE_DIV:
        for f in terms.DIV_FACTS: st.assume(f)
    spec_args = spec.setup(c)
    args = coerce(mod, spec.fn, [conv_arg(a) for a in spec_args])
    pre = st.fork()
    c.st0 = st.fork()
    npre = len(ex.obls)
    if getattr(spec, 'init', False):        # dynamic initialisation of the namespace-scope constants
        for nm in [f for f in mod.funcs if f.startswith('_GLOBAL__sub_I_')]:
            o = ex.call_fn(nm, [], st)
            if len(o) != 1: raise Unsupported('static initialisation forks')
            st = o[0][2]
    outs = ex.call_fn(spec.fn, args, st)
    reached = 0
    ex.outcomes = []
    for kind, val, s in outs:
        if not ex.feasible(s): continue
        reached += 1
        c.st = s
        ex.callstack, ex.sites = [], []
        c._where = '%s (%s)' % (spec.fn, spec.name or type(spec).__name__)
        if kind == 'throw':
            if hasattr(spec, 'on_throw'): spec.on_throw(c)
            elif not spec.throws: ex.oblige(s, 'no exception', False, where=c._where)
            continue
        spec.post(c, val)
    ex.reached = reached
    return ex, c, pre

# ------------------------------------------------------------------ discharge
def smt_check(pc, goal, timeout, opts):
    s = z3.Solver() if opts.get('tactic') is None else z3.Tactic(opts['tactic']).solver()
    s.set('timeout', int(timeout * 1000))
    if not opts.get('mbqi', True):
        s.set('auto_config', False); s.set('smt.mbqi', False)
    if 'seed' in opts: s.set('smt.random_seed', opts['seed'])
    if 'arith' in opts: s.set('smt.arith.solver', opts['arith'])
    for c in pc: s.add(c)
    if goal is not False: s.add(bz(Not(goal)))
    r = s.check()
    m = None
    if r == z3.sat:
        try: m = s.model()
        except z3.Z3Exception: m = None
    return str(r), m, s

def run_cvc5(smt2, timeout):
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write('(set-logic ALL)\n' + smt2); f.close()
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--nl-ext-tplanes', f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout + 5)
        o = r.stdout.decode().strip().split('\n')[0]
    except Exception:
        o = 'unknown'
    finally:
        os.unlink(f.name)
    return o

def quants(pc):
    return any(z3.is_quantifier(c) or 'forall' in c.sexpr()[:0] for c in pc)

def discharge_one(o, stage, T):
    """returns (status, solver, time, model?)"""
    t0 = time.time()
    if stage == 0:
        r, m, _ = smt_check(o.pc, o.goal, T, {'mbqi': False})
        if r == 'unsat': return 'unsat', 'z3', time.time() - t0, None
        if r == 'sat': return 'sat', 'z3', time.time() - t0, m
        return 'unknown', 'z3', time.time() - t0, None
    res = 'unknown'
    qf = not any(z3.is_quantifier(c) for c in o.pc)
    tries = []
    if qf:
        tries += [('z3-nlsat', {'tactic': 'qfnra-nlsat'}), ('z3', {'mbqi': True})]
    else:
        tries += [('z3-mbqi', {'mbqi': True}), ('z3-arith2', {'mbqi': False, 'arith': 2})]
    for nm, op in tries:
        try: r, m, s = smt_check(o.pc, o.goal, T, op)
        except z3.Z3Exception: continue
        if r == 'unsat': return r, nm, time.time() - t0, None
        if r == 'sat': return r, nm, time.time() - t0, m
    s = z3.Solver()
    for c in o.pc: s.add(c)
    if o.goal is not False: s.add(bz(Not(o.goal)))
    r = run_cvc5(s.to_smt2(), T)
    if r == 'unsat': return r, 'cvc5', time.time() - t0, None
    return 'unknown', 'cvc5', time.time() - t0, None

def fork_map(fn, items, nproc, timeout):
    """run fn(item) for each item in forked children; returns list of results (None on timeout/crash)"""
    results = [None] * len(items)
    running = {}
    nxt = 0
    while nxt < len(items) or running:
        while nxt < len(items) and len(running) < nproc:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    import pickle
                    out = fn(items[nxt])
                    with os.fdopen(w, 'wb') as f: f.write(pickle.dumps(out))
                except BaseException:
                    pass
                os._exit(0)
            os.close(w)
            running[r] = (nxt, pid, time.time())
            nxt += 1
        import select
        rd, _, _ = select.select(list(running), [], [], 0.2)
        now = time.time()
        for r in list(running):
            i, pid, t0 = running[r]
            if r in rd:
                data = b''
                while True:
                    b = os.read(r, 1 << 16)
                    if not b: break
                    data += b
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                if data:
                    import pickle
                    try: results[i] = pickle.loads(data)
                    except Exception: pass
            elif now - t0 > timeout:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
                os.close(r); del running[r]
    return results

def discharge(ex, c, budget=60, nproc=4, quick_t=4.0):
    """discharge all obligations of ex; returns stats"""
    stats = {'z3': 0}
    hard = []
    t0 = time.time()
    seen = {}
    for i, o in enumerate(ex.obls):
        left = budget - (time.time() - t0)
        if left <= 0: hard.append(i); continue
        key = (tuple(x.get_id() for x in o.pc), o.goal if isinstance(o.goal, bool) else o.goal.get_id())
        if key in seen: o.status, o.solver = seen[key]; o.status = o.status; continue
        # incremental solver first
        if ex.refutes(o.pc, None if o.goal is False else bz(Not(o.goal)), 1500):
            o.status, o.solver = 'unsat', 'z3'
            stats['z3'] += 1
            seen[key] = ('unsat', 'z3')
            continue
        hard.append(i)
    if hard:
        def work(i):
            o = ex.obls[i]
            r = discharge_one(o, 0, quick_t)
            if r[0] == 'unknown': 
                r2 = discharge_one(o, 1, max(5, quick_t * 2)); r = r2
            vals = None
            if r[0] == 'sat' and r[3] is not None:
                try: vals = extract(r[3], c)
                except Exception: vals = None
            return r[0], r[1], r[2], vals
        # too many failures: a sample suffices
        todo = hard[:24]
        res = fork_map(work, todo, nproc, quick_t * 8 + 30)
        for i, r in zip(todo, res):
            o = ex.obls[i]
            if r is None: o.status, o.solver = 'unknown', 'timeout'; continue
            o.status, o.solver, o.time = r[0], r[1], r[2]; o.extra = r[3]
            if r[0] == 'unsat': stats[r[1]] = stats.get(r[1], 0) + 1
        nf = sum(1 for i in todo if ex.obls[i].status != 'unsat')
        rest = hard[24:]
        if rest and nf == 0:
            res = fork_map(work, rest, nproc, quick_t * 8 + 30)
            for i, r in zip(rest, res):
                o = ex.obls[i]
                if r is None: o.status, o.solver = 'unknown', 'timeout'; continue
                o.status, o.solver, o.time = r[0], r[1], r[2]; o.extra = r[3]
                if r[0] == 'unsat': stats[r[1]] = stats.get(r[1], 0) + 1
        else:
            for i in rest: ex.obls[i].status, ex.obls[i].solver = 'unknown', 'skipped'
    return stats

def num(v):
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return float(v.numerator_as_long()) / float(v.denominator_as_long())
    if z3.is_algebraic_value(v): return float(v.approx(20).numerator_as_long()) / float(v.approx(20).denominator_as_long())
    return None

def extract(m, c, maxn=400):
    out = []
    for inp in c.inputs:
        if inp[1] == 'int':
            out.append((inp[0], num(m.eval(inp[2].z3(), model_completion=True))))
        elif inp[1] == 'real':
            out.append((inp[0], num(m.eval(inp[2].z3(), model_completion=True))))
        else:
            A, a = inp[2], inp[3]
            n = num(m.eval(A.n.z3(), model_completion=True))
            if n is None or n > maxn or n < 0: return None
            vals = [num(m.eval(z3.Select(a, z3.IntVal(i)), model_completion=True)) for i in range(n)]
            out.append((inp[0], [0 if v is None else v for v in vals]))
    return out

# ------------------------------------------------------------------ native side
def consts_of(ex_mod, names):
    cs = set()
    for n in names:
        f = ex_mod.funcs.get(n)
        if f is None or f.declared_only: continue
        try:
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op in ('icmp', 'add', 'srem', 'urem', 'sdiv', 'sub', 'mul', 'and'):
                        for ty, v in i.ops:
                            if isinstance(v, int) and abs(v) < 100000: cs.add(v)
                    if i.op == 'switch':
                        for cv, _ in i.x[1]: cs.add(cv)
        except Exception: pass
    return sorted(cs)

class Native:
    def __init__(self, spec, index, module, consts=()):
        self.spec, self.index, self.module, self.consts = spec, index, module, list(consts)
        self.lib = None
    def build(self):
        s = self.spec
        srcs = getattr(s, 'native_tu', None) or s.tu
        srcs = srcs if isinstance(srcs, (list, tuple)) else [srcs]
        self.lib = build.native_lib(list(srcs), extra=list(getattr(s, 'flags', ())), glob=[s.fn] if getattr(s, 'static', False) else [])
    def structs(self):
        mod = get_module(self.spec)
        out = {}
        for n in getattr(self.spec, 'structs', ()):
            f = mod.struct_fields(n)
            if f is None: continue
            d = {k: list(v) for k, v in f.items()}
            for pre in ('struct.', 'class.'):
                t = mod.types.get(pre + n)
                if t is not None: d['__size__'] = [0, mod.size(t), '']
            out[n] = d
        return out
    def run(self, start, count, tmax, values=None, fail_at=None, scale=None):
        """-> dict(ok, rej, distinct, failures:[...])"""
        if self.lib is None: self.build()
        d = build.tmpdir()
        tag = '%d_%d' % (os.getpid(), random.randrange(1 << 30))
        out, prog, jobf = [os.path.join(d, 'n_%s.%s' % (tag, x)) for x in ('out', 'prog', 'job')]
        job = dict(module=self.module, cls=type(self.spec).__name__, index=self.index, lib=self.lib, structs=self.structs(), consts=self.consts,
                   start=start, count=count, time=tmax, out=out, progress=prog, scale=scale)
        if values is not None: job['values'] = values
        job['fail_at'] = fail_at
        res = {'ok': 0, 'rej': 0, 'distinct': 0, 'failures': [], 'sample': None}
        t0 = time.time()
        crashes = 0
        while True:
            json.dump(job, open(jobf, 'w'))
            open(out, 'w').close()
            env = dict(os.environ, VP_SCRATCH=d, LD_PRELOAD=build.asan_lib(), ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_container_overflow=0:print_summary=1:malloc_context_size=4', OMP_NUM_THREADS='1')
            try:
                p = subprocess.run([sys.executable, os.path.join(build.VERIF, 'engine', 'native_runner.py'), jobf], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmax + 30)
                rc, err = p.returncode, p.stderr.decode(errors='replace')
            except subprocess.TimeoutExpired as e:
                rc, err = -999, 'timeout: the call did not return'
            done = False
            for l in open(out):
                r = json.loads(l)
                if 'fail' in r: res['failures'].append({'msg': r['fail'], 'values': r['values'], 'seed': r['seed'], 'fail_at': r['fail_at']})
                if r.get('done'):
                    done = True
                    res['ok'] += r['ok']; res['rej'] += r['rej']; res['distinct'] += r['distinct']
                    if r.get('sample'): res['sample'] = r['sample']
            if done: break
            # crashed
            m = re.search(r'(VP-ERROR:.*|ERROR: AddressSanitizer.*|Assertion.*failed.*|terminate called.*|Floating point exception.*)', err)
            try: pr = json.load(open(prog))
            except Exception:
                res['error'] = (err or '')[-1500:]; break
            if m is None and 'Traceback' in err:
                res['error'] = err[-1500:]; break
            msg = m.group(1)[:200] if m else ('crash rc=%s %s' % (rc, err[-200:]))
            msg = re.sub(r'0x[0-9a-f]+', '0x..', msg)
            res['failures'].append({'msg': 'runtime error: ' + msg, 'values': pr['values'], 'seed': pr['seed'], 'fail_at': pr['fail_at'], 'log': err[-2500:]})
            break
        for f in (out, prog, jobf):
            try: os.unlink(f)
            except OSError: pass
        return res

# ------------------------------------------------------------------ one contract, whole flow
def bounded_search(spec, native, budget, seed, log):
    """look for a concrete failing input: concrete sizes, unrolled loops, models replayed natively"""
    t0 = time.time()
    rng = random.Random(seed)
    tried = 0
    for trial in range(40):
        if time.time() - t0 > budget: break
        k = trial
        def chooser(name, lo, hi, k=k):
            lo = 0 if lo is None else lo
            m = lo + [0, 1, 2, 2, 3][k % 5] if k < 5 else rng.randint(lo, lo + 3)
            return min(m, hi) if hi is not None else m
        try:
            ex, c, pre = generate(spec, 'bounded', chooser, budget=min(20, budget))
        except Unsupported as e:
            log.append('bounded: ' + str(e)); continue
        except Exception as e:
            log.append('bounded: %s %s' % (type(e).__name__, e)); continue
        n = 0
        for o in ex.obls:
            if time.time() - t0 > budget: break
            try: r, m, _ = smt_check(o.pc, o.goal, 4, {})
            except z3.Z3Exception: continue
            if r != 'sat': continue
            vals = extract(m, c)
            if vals is None: continue
            tried += 1; n += 1
            fas = [None] if not spec.oom else [None, 0, 1, 2, 3, 4, 5]
            for fa in fas:
                res = native.run(0, 1, 20, values=vals, fail_at=fa)
                if res['failures']:
                    f = res['failures'][0]; f['obligation'] = '%s at %s' % (o.kind, o.where)
                    return f
            if n >= 4: break
    log.append('bounded search: %d models replayed without failure' % tried)
    return None

def prove(spec, R_, budget, tier, ncpu, tscale):
    """generate and discharge; fills R_"""
    try:
        R_['status'] = None
        if getattr(spec, 'bounded_only', None):
            raise Unsupported('bounded stand-in: ' + spec.bounded_only)
        ex, c, pre = generate(spec, 'proof', budget=budget, tscale=tscale)
        if ex.inc.check(pre.pc) == z3.unsat: R_['log'].append('VACUOUS precondition'); R_['status'] = 'vacuous'
        if ex.reached == 0 and not getattr(spec, 'noreturn', False): R_['log'].append('VACUOUS: no feasible outcome'); R_['status'] = 'vacuous'
        by = discharge(ex, c, budget=budget, nproc=ncpu, quick_t=tscale * getattr(spec, 'solver_t', 5.0) * (3 if tier == 'thorough' else 1))
        R_['by'] = by
        R_['obligations'] = len(ex.obls) + ex.trivial
        R_['trivial'] = ex.trivial
        R_['discharged'] = ex.trivial + sum(1 for o in ex.obls if o.status == 'unsat')
        bad = [o for o in ex.obls if o.status != 'unsat']
        R_['failed'] = [(o.kind, o.where, o.status, o.solver, (o.goal if isinstance(o.goal, bool) else o.goal.sexpr()[:400]) if not isinstance(o.goal, bool) else str(o.goal)) for o in bad]
        R_['values'] = [o.extra for o in bad if o.extra]
        R_['loops'] = [(a, b, len(k)) for a, b, k, _ in ex.loop_log]
        R_['inlined'] = sorted(ex.inlined); R_['contracts'] = sorted(ex.used_contracts); R_['models'] = sorted(ex.used_models)
        R_['solver_s'] = R_.get('solver_s', 0) + ex.inc.t + sum(i.t for _, i in ex.abs) + sum(o.time for o in ex.obls)
        if R_['status'] is None: R_['status'] = 'proved' if not bad and R_['obligations'] else ('failed' if bad else 'vacuous')
    except Unsupported as e:
        R_['status'] = 'bounded' if getattr(spec, 'bounded_only', None) else 'unsupported'; R_['log'].append('tool limit: %s' % e)
    except RecursionError as e:
        R_['status'] = 'unsupported'; R_['log'].append('recursion')
    except Exception as e:
        R_['status'] = 'unsupported'; R_['log'].append('engine error: %s' % ''.join(traceback.format_exc()[-1500:]))

def verify_spec(args):
    module, index, tier, seed, ncpu = args
    import importlib
    t0 = time.time()
    mod = importlib.import_module(module)
    spec = mod.SPECS[index]
    name = spec.name or type(spec).__name__
    R_ = dict(name=name, fn=spec.fn, index=index, tu=spec.tu, status=None, obligations=0, discharged=0, trivial=0, failed=[], by={}, log=[], loops=[], inlined=[], contracts=[], models=[], native={}, violation=None)
    sys.setrecursionlimit(10000)
    budget = spec.budget * (3 if tier == 'thorough' else 1)
    try:
        m = get_module(spec)
    except build.BuildError as e:
        R_['status'] = 'build-error'; R_['log'].append(str(e)[-800:]); R_['wall'] = time.time() - t0
        return R_
    prove(spec, R_, budget, tier, ncpu, getattr(spec, 'tscale', 1))
    # native witnesses
    names = R_['inlined'] or [spec.fn]
    cs = consts_of(m, names) if getattr(spec, 'mine', True) else []
    nat = Native(spec, index, module, cs)
    try:
        nat.build()
        samples = spec.samples * (10 if tier == 'thorough' else 1)
        proved = R_['status'] == 'proved'
        tmax = (15 if tier == 'thorough' else 4) if proved else 15
        r = nat.run(seed * 1000003, samples if proved else samples * 30, tmax)
        R_['native'] = {k: r[k] for k in ('ok', 'rej', 'distinct', 'sample')}
        if r.get('error'): R_['log'].append('native: ' + r['error'])
        if r['failures']: R_['violation'] = r['failures'][0]
        if not proved and R_['violation'] is None:
            for vals in (R_.get('values') or [])[:8]:
                for fa in ([None] if not spec.oom else [None, 0, 1, 2, 3, 4]):
                    r = nat.run(0, 1, 20, values=vals, fail_at=fa)
                    if r['failures']: R_['violation'] = r['failures'][0]; break
                if R_['violation']: break
            if R_['violation'] is None and R_['status'] == 'failed':
                # no failing input: give the provers more time before calling it a failure
                first = R_['failed']
                prove(spec, R_, budget if hasattr(spec, 'tscale') else budget * 2, tier, ncpu, 5)
                R_['log'].append('second attempt with longer solver limits: ' + str(R_['status']))
                if R_['status'] not in ('proved', 'failed'): R_['status'] = 'failed'; R_['failed'] = first
            if R_['violation'] is None and R_['status'] == 'failed' and getattr(spec, 'soft', None):
                R_['status'] = 'bounded'; R_['log'].append('proof not found within the solver limits: ' + spec.soft)
            if R_['violation'] is None and R_['status'] not in ('proved', 'bounded'):
                f = bounded_search(spec, nat, 60 if tier == 'quick' else 200, seed, R_['log'])
                if f: R_['violation'] = f
            if R_['violation'] is None and R_['status'] != 'proved':
                r = nat.run(seed * 1000003 + 500000, samples * 100, 25 if tier == 'quick' else 120)
                if r['failures']: R_['violation'] = r['failures'][0]
                R_['native']['ok'] += r['ok']
                R_['native']['distinct'] += r['distinct']
        elif R_['native']['ok'] == 0 and R_['violation'] is None and not r.get('error'):
            R_['log'].append('no native witness accepted')
    except build.BuildError as e:
        R_['log'].append('native build: ' + str(e)[-600:])
    R_['wall'] = time.time() - t0
    return R_
