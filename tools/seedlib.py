"""seed(id, property, [(file, old, new)...], needs=, breaks=, c=/cpp=, sources=): record a planted bug
under /verif/seeded/<id> (works on a scratch copy of the file contents, /repo is not touched)"""
import os, json, subprocess, difflib
R = '/repo/'
C = '''#!/bin/bash
# run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
'''
def seed(id, prop, edits, needs, breaks, c=None, cpp=None, sources='', link=''):
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    out, cur = '', {}
    for f, old, new in edits:
        s = cur.get(f) or subprocess.run(['git', '-C', R, 'show', 'HEAD:' + f], capture_output=True, encoding='latin-1', check=True).stdout
        assert s.count(old) == 1, (f, old, s.count(old))
        cur[f] = s.replace(old, new)
    for f, s in cur.items():
        o = subprocess.run(['git', '-C', R, 'show', 'HEAD:' + f], capture_output=True, encoding='latin-1').stdout
        dl = list(difflib.unified_diff(o.splitlines(True), s.splitlines(True), 'a/' + f, 'b/' + f))
        out += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(dl)
    open(d + '/patch.diff', 'w', encoding='latin-1').write(out)
    if c:
        open(d + '/demo.c', 'w').write(c)
        cmd = 'gcc -std=gnu99 -w -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -DHAVE_CONFIG_H=1 -I. -I_build "$here/demo.c" %s %s -lm -o "$t/demo" || exit 3\n"$t/demo"\n' % (sources, link)
    else:
        open(d + '/demo.cpp', 'w').write(cpp)
        cmd = 'g++ -std=c++11 -w -g -DHAVE_CONFIG_H=1 -I. -I_build "$here/demo.cpp" %s %s -Wl,--unresolved-symbols=ignore-all -o "$t/demo" || exit 3\n"$t/demo"\n' % (sources, link)
    open(d + '/demo.sh', 'w').write(C + cmd)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = subprocess.run(['git', '-C', R, 'apply', '--check', d + '/patch.diff'], capture_output=True, encoding='latin-1')
    if r.returncode: print('apply check', r.stderr)
