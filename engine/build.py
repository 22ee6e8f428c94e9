"""Builds LLVM IR and native shared objects from /repo's current sources."""
import os, subprocess, hashlib, tempfile, shutil, atexit, json
REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG, CLANGXX, OPT, LINK = 'clang-18', 'clang++-18', 'opt-18', 'llvm-link-18'
_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vpb_')
        owner = os.getpid()
        def rm():
            if os.getpid() == owner: shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(rm)
    return _tmp

class BuildError(Exception): pass

def incs():
    r = ['-I' + VERIF + '/harness', '-I' + REPO]
    if os.path.exists(REPO + '/_build/config.h'): r.append('-I' + REPO + '/_build')
    else: r.append('-I' + VERIF + '/native/fallback')
    r.append('-I/usr/include/suitesparse')
    return r

def resolve(src):
    if src.startswith('harness/'): return os.path.join(VERIF, src)
    return os.path.join(REPO, src)

def flags(src):
    f = ['-DHAVE_CONFIG_H=1', '-DDEBUG', '-DUF_long=long', '-w']
    if src.endswith('.c'): f.append('-std=c99')
    else: f.append('-std=c++11')
    return f

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr.decode(errors='replace')[-3000:]))
    return r.stdout

PASSES = 'function(sroa,simplifycfg,loop-simplify)'

def ir_text(srcs, passes=PASSES, extra=()):
    d = tmpdir()
    h = hashlib.sha1(('|'.join(srcs) + passes + '|'.join(extra)).encode()).hexdigest()[:16]
    out = os.path.join(d, h + '.ll')
    if not os.path.exists(out):
        parts = []
        for s in srcs:
            o = os.path.join(d, hashlib.sha1((s + '|'.join(extra)).encode()).hexdigest()[:16] + '.in.%d.bc' % os.getpid())
            cc = CLANG if s.endswith('.c') else CLANGXX
            run([cc, '-c', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g', '-fno-inline',
                 '-U_FORTIFY_SOURCE'] + flags(s) + [x.replace('-Iharness', '-I' + VERIF + '/harness') for x in extra] + incs() + [resolve(s), '-o', o])
            parts.append(o)
        if len(parts) > 1:
            j = os.path.join(d, h + '.%d.bc' % os.getpid())
            run([LINK] + parts + ['-o', j])
        else: j = parts[0]
        tmp = out + '.%d' % os.getpid()
        run([OPT, '-S', '-speculate-one-expensive-inst=false', '-passes=' + passes, j, '-o', tmp])
        os.replace(tmp, out)
    return open(out).read()

def native_lib(srcs, extra=(), asan=True, glob=()):
    """glob: static functions to make visible (mechanically: -fkeep-static-functions and objcopy)"""
    d = tmpdir()
    h = hashlib.sha1(('N|' + '|'.join(srcs) + '|'.join(extra) + str(asan) + '|'.join(glob)).encode()).hexdigest()[:16]
    out = os.path.join(d, 'lib%s.so' % h)
    if os.path.exists(out): return out
    objs = []
    procs = []
    san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else []
    for i, s in enumerate(list(srcs) + ['@shim', '@try']):
        o = os.path.join(d, '%s_%d.%d.o' % (h, i, os.getpid()))
        if s == '@shim':
            cmd = ['gcc', '-c', '-fPIC', '-g', '-O1', '-std=c99', VERIF + '/native/vp_shim.c', '-I' + VERIF + '/native', '-o', o]
        elif s == '@try':
            cmd = ['g++', '-c', '-fPIC', '-g', '-O1', VERIF + '/native/vp_try.cpp', '-o', o]
        elif s.endswith('.c'):
            cmd = ['gcc', '-c', '-fPIC', '-g', '-O0'] + (['-fkeep-static-functions'] if glob else []) + san + flags(s) + [x.replace('-Iharness', '-I' + VERIF + '/harness') for x in extra] + incs() + ['-include', VERIF + '/native/vp_shim.h', resolve(s), '-o', o]
        else:
            cmd = ['g++', '-c', '-fPIC', '-g', '-O0'] + san + flags(s) + [x.replace('-Iharness', '-I' + VERIF + '/harness') for x in extra] + incs() + [resolve(s), '-o', o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
        objs.append(o)
    for cmd, p in procs:
        o, e = p.communicate()
        if p.returncode: raise BuildError(' '.join(cmd) + '\n' + e.decode(errors='replace')[-3000:])
    if glob:
        for o in objs: run(['objcopy'] + ['--globalize-symbol=' + g for g in glob] + [o])
    tmp = out + '.%d' % os.getpid()
    run(['g++', '-shared', '-o', tmp] + san + objs + ['-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy'] + [l for l in ('-llapack', '-lblas') if os.path.exists('/usr/lib/x86_64-linux-gnu/lib%s.so' % l[2:])] + ['-lm'])
    os.replace(tmp, out)
    return out

def asan_lib():
    return ' '.join(os.path.realpath(run(['gcc', '-print-file-name=' + l]).decode().strip()) for l in ('libasan.so', 'libstdc++.so'))
