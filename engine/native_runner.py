"""Runs a contract natively: random or given inputs against the compiled code, in this process.
usage: native_runner.py job.json   -> JSON lines on the result file"""
import sys, os, json, random, ctypes, importlib, time, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs'))
import dsl

CT = {'int': ctypes.c_int, 'double': ctypes.c_double, 'size_t': ctypes.c_size_t, 'long': ctypes.c_long, 'ptr': ctypes.c_void_p, 'void': None, 'bool': ctypes.c_int}

def call(lib, spec, args):
    ints, dbls = [], []
    for a in args:
        if isinstance(a, (dsl.NatArr, dsl.NatStruct)): ints.append(a.addr or 0)
        elif isinstance(a, float): dbls.append(a)
        elif isinstance(a, tuple): (dbls if a[0] == 'double' else ints).append(a[1])
        else: ints.append(int(a))
    if len(ints) > 20 or len(dbls) > 8: raise dsl.Rejected('too many arguments')
    I = (ctypes.c_long * 20)(*[i if i < (1 << 63) else i - (1 << 64) for i in ints]); D = (ctypes.c_double * 8)(*dbls)
    t = lib.vp_try_d if spec.ret == 'double' else lib.vp_try_i
    t.restype = ctypes.c_double if spec.ret == 'double' else ctypes.c_long
    f = ctypes.cast(getattr(lib, spec.fn), ctypes.c_void_p)
    r = t(f, I, D)
    if spec.ret == 'int': r = ctypes.c_int(r).value
    elif spec.ret == 'bool': r = int(bool(r & 0xff))
    elif spec.ret == 'ptr': r &= (1 << 64) - 1
    elif spec.ret == 'void': r = None
    return r, ctypes.c_int.in_dll(lib, 'vp_threw').value

def once(*a, **k):
    st = once_(*a, **k)
    for p in getattr(st[2], 'cleanup', []):
        try: os.unlink(p)
        except OSError: pass
    return st

def once_(spec, lib, structs, consts, seed, values, fail_at, prog, scale=None):
    rng = random.Random(seed)
    c = dsl.NatCtx(lib, rng, structs, values, consts, scale)
    lib.vp_reset()
    try:
        args = spec.setup(c)
    except dsl.Rejected:
        return 'rejected', None, c
    except (OverflowError, ZeroDivisionError):
        return 'rejected', None, c
    c.fail_at = fail_at
    c.snapshot()
    if prog is not None:
        prog.seek(0); prog.truncate(); prog.write(json.dumps({'seed': seed, 'values': c.record, 'fail_at': fail_at})); prog.flush()
    lib.vp_begin(ctypes.c_long(-1 if fail_at is None else fail_at))
    r, threw = call(lib, spec, args)
    lib.vp_end()
    c.nfail = lib.vp_nfail()
    try:
        if threw:
            if hasattr(spec, 'on_throw'): spec.on_throw(c)
            elif not spec.throws: return 'fail', 'exception thrown', c
            return 'ok', None, c
        spec.post(c, r)
    except dsl.CheckFailed as e:
        return 'fail', str(e), c
    except dsl.Rejected:
        return 'rejected', None, c
    return 'ok', None, c

def main():
    job = json.load(open(sys.argv[1]))
    mod = importlib.import_module(job['module'])
    spec = getattr(mod, job['cls'])() if not job.get('index') is not None else mod.SPECS[job['index']]
    lib = ctypes.CDLL(job['lib'], mode=os.RTLD_LAZY)
    structs = {k: {f: tuple(v) for f, v in d.items()} for k, d in job['structs'].items()}
    prog = open(job['progress'], 'w')
    out = open(job['out'], 'a')
    t0 = time.time()
    n_ok = n_rej = 0
    distinct = set()
    sample = None
    def report(d): out.write(json.dumps(d) + '\n'); out.flush()
    seeds = range(job['start'], job['start'] + job['count'])
    for s in seeds:
        if time.time() - t0 > job['time']: break
        values = job.get('values')
        fails = [job.get('fail_at')]
        if job.get('values') is None and getattr(spec, 'oom', False):
            fails = [None] if s % 4 == 0 else [random.Random(s).randint(0, 15 if s % 4 == 1 else 3)]
        for fa in fails:
            if sys.stdout and os.environ.get('VP_NAT_VERBOSE'): print(s, fa)
            st, msg, c = once(spec, lib, structs, job['consts'], s, dict(map(tuple, values)) if values is not None else None, fa, prog, job.get('scale'))
            if st == 'ok':
                n_ok += 1
                key = repr(c.record)
                distinct.add(hash(key))
                if sample is None or s == job['start'] + 5: sample = c.record
            elif st == 'rejected': n_rej += 1
            else:
                report({'fail': msg, 'seed': s, 'values': c.record, 'fail_at': fa})
                report({'done': True, 'ok': n_ok, 'rej': n_rej, 'distinct': len(distinct), 'last': s}); return
    report({'done': True, 'ok': n_ok, 'rej': n_rej, 'distinct': len(distinct), 'sample': sample, 'last': s if job['count'] else 0})
main()
