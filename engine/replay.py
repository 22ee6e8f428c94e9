"""replay.py <replay file>: re-runs the recorded input against the code compiled from /repo"""
import sys, os, json, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'specs'))
import verify
d = json.load(open(sys.argv[1]))
print('property', d['property'], 'contract', d['contract'], 'function', d['function'])
for o in d['failed_obligations']: print('failed obligation:', o[0], 'at', o[1])
v = d.get('input')
if not v: print('no failing input recorded'); sys.exit(0)
mod = importlib.import_module(d['module'])
n = verify.Native(mod.SPECS[d['index']], d['index'], d['module'])
r = n.run(v.get('seed', 0), 1, 60, values=v['values'], fail_at=v.get('fail_at'))
print('input:', json.dumps(v['values']))
for f in r['failures']: print('reproduced:', f['msg'])
if not r['failures']: print('not reproduced')
sys.exit(1 if r['failures'] else 0)
