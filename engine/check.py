"""check.py <property> : verifies every contract of a property against /repo's current tree."""
import sys, os, json, time, importlib, signal, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, 'specs'))
import verify, build

def main():
    t0 = time.time()
    pid = sys.argv[1]
    only = sys.argv[2:] 
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    module = 'prop_' + pid
    mod = importlib.import_module(module)
    specs = mod.SPECS
    idx = [i for i, s in enumerate(specs) if not only or (s.name or type(s).__name__) in only or s.fn in only]
    if tier == 'quick': idx = [i for i in idx if not getattr(specs[i], 'thorough_only', False)]
    # compile everything once, in parallel, before forking the workers
    build.tmpdir()
    keys = {}
    for i in idx:
        s = specs[i]
        keys.setdefault((str(s.tu), str(getattr(s, 'flags', ()))), i)
    def pre(i):
        try: verify.build.ir_text(list(specs[i].tu) if isinstance(specs[i].tu, (list, tuple)) else [specs[i].tu], extra=list(getattr(specs[i], 'flags', ())), passes=getattr(specs[i], 'passes', build.PASSES))
        except build.BuildError as e: return str(e)
        try: verify.Native(specs[i], i, module).build()
        except build.BuildError as e: return str(e)
        return 'ok'
    verify.fork_map(pre, list(keys.values()), 8, 600)
    ncpu = 8 if len(idx) <= 2 else (4 if len(idx) <= 4 else 2)
    weight = lambda i: -getattr(specs[i], 'weight', 1)
    order = sorted(idx, key=weight)
    limit = 700 if tier == 'quick' else 7200
    results = verify.fork_map(lambda i: verify.verify_spec((module, i, tier, seed, ncpu)), order, 8, limit)
    viol = []
    known = load_known(pid)
    rows = []
    for i, r in zip(order, results):
        if r is None:
            r = dict(name=specs[i].name or type(specs[i]).__name__, fn=specs[i].fn, index=i, status='unsupported', obligations=0, discharged=0, trivial=0, failed=[], by={}, log=['worker exceeded its time or memory'], loops=[], inlined=[], contracts=[], models=[], native={}, violation=None, wall=0)
        rows.append(r)
    rows.sort(key=lambda r: r['index'])
    rdir = os.path.join(VERIF, 'replays'); os.makedirs(rdir, exist_ok=True)
    nviol = 0
    lines = []
    for r in rows:
        v = r['violation']
        bad = None
        if v is not None:
            k = match_known(known, r, v)
            if k:
                lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what'])); r['known'] = k['what']; continue
            bad = ('', v)
        elif r['status'] in ('failed', 'vacuous'):
            bad = (' no-failing-input-found', None)
        if bad:
            nviol += 1
            path = os.path.join(rdir, '%s_%s.json' % (pid, re.sub(r'\W+', '_', r['name'])))
            json.dump(dict(property=pid, contract=r['name'], function=r['fn'], index=r['index'], module=module,
                           failed_obligations=r['failed'][:12], status=r['status'], input=v, log=r['log'],
                           how='python3-vt /verif/engine/replay.py <this file> re-runs the input against the code compiled from /repo'), open(path, 'w'), indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, bad[0]))
    for r in rows:
        f = '; '.join('%s @ %s [%s]' % (a, b, s) for a, b, s, *_ in r['failed'][:3])
        print('%-34s %-11s obligations %d discharged %d  native ok %s  %.1fs %s %s' % (r['name'], r['status'], r['obligations'], r['discharged'], r['native'].get('ok'), r.get('wall', 0), f, ('| ' + ' | '.join(r['log']))[:600] if r['log'] else ''))
        if r['violation'] is not None: print('    input:', json.dumps(r['violation'].get('values'))[:400], 'malloc-failure index', r['violation'].get('fail_at'), '->', r['violation']['msg'])
    for l in lines: print(l)
    write_evidence(pid, mod, tier, seed, rows, time.time() - t0, nviol, specs)
    sys.stdout.flush()
    sys.exit(1 if nviol else 0)

def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) contract=(\S+) match="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid: out.append(dict(contract=m.group(2), match=m.group(3), what=m.group(4)))
    return out

def match_known(known, r, v):
    for k in known:
        if k['contract'] == r['name'] and re.search(k['match'], v['msg']): return k
    return None

def write_evidence(pid, mod, tier, seed, rows, wall, nviol, specs):
    ob = sum(r['obligations'] for r in rows if r['status'] in ('proved', 'failed'))
    di = sum(r['discharged'] for r in rows if r['status'] in ('proved', 'failed'))
    by = {}
    for r in rows:
        for k, n in r['by'].items(): by[k] = by.get(k, 0) + n
    by['syntactic simplifier'] = sum(r['trivial'] for r in rows)
    models = sorted({m for r in rows for m in r['models']})
    trusted = ['clang-18 front end and opt passes sroa, simplifycfg, loop-simplify (C/C++ to LLVM IR)', 'the VC generator in /verif/engine', 'z3 4.x (python-vt build), cvc5 1.1.2']
    trusted += ['modelled library function: ' + m for m in models]
    trusted += ['callee contract assumed at call sites: ' + m for m in sorted({m for r in rows for m in r['contracts']})]
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'), wall_s=round(wall, 2), violations=nviol,
              assumptions=['machine integers treated as mathematical integers unless a contract lists overflow obligations', 'double arithmetic treated as exact real arithmetic', 'partial correctness: termination is shown only for loops with a derived trip count', 'array and struct arguments of a call are disjoint unless the contract says otherwise'] + list(getattr(mod, 'ASSUMPTIONS', [])),
              coverage=dict(obligations=ob, discharged=di, checker_cmd='/verif/bin/check %s' % pid, trusted_base=trusted,
                            discharged_by=by, solver_s=round(sum(r.get('solver_s', 0) for r in rows), 2),
                            contracts=[dict(contract=r['name'], function=r['fn'], status=r['status'], obligations=r['obligations'], discharged=r['discharged'],
                                            loops_with_invariants=[list(l) for l in r['loops']], functions_inlined=r['inlined'], callee_contracts=r['contracts'],
                                            native_witnesses=r['native'].get('ok', 0), native_distinct=r['native'].get('distinct', 0), wall_s=round(r.get('wall', 0), 2), notes=r['log'][:4]) for r in rows],
                            bounded_not_counted_as_proved=[dict(contract=r['name'], reason=(r['log'] or [''])[0], bound=getattr(specs[r['index']], 'bounded_only', None) or 'sizes up to about 6, random inputs', native_runs=r['native'].get('ok', 0)) for r in rows if r['status'] in ('bounded', 'unsupported', 'build-error')],
                            evaluations=sum(r['native'].get('ok', 0) or 0 for r in rows), samples=[r['native'].get('sample') for r in rows if r['native'].get('sample')][:3]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
main()
