"""Builds the SSA dump of /repo's current sources (rebuilt on every run)."""
import os, sys, json, subprocess, tempfile, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = '/usr/bin/clang-18'
class BuildError(Exception): pass
def tool():
    t = os.path.join(BUILD, 'irdump')
    src = os.path.join(HERE, 'irdump.cpp')
    if not os.path.exists(t) or os.path.getmtime(t) < os.path.getmtime(src): make_tool()
    return t
def make_tool():
    os.makedirs(BUILD, exist_ok=True)
    cfg = lambda *a: subprocess.check_output(['/usr/lib/llvm-18/bin/llvm-config'] + list(a), text=True).split()
    fl = [f for f in cfg('--cxxflags') if f != '-fno-exceptions']
    tmp = os.path.join(BUILD, 'irdump.tmp%d' % os.getpid())
    subprocess.check_call(['/usr/bin/clang++-18', '-O1'] + fl + ['-std=c++17', '-fno-rtti', os.path.join(HERE, 'irdump.cpp'), '-o', tmp] + cfg('--ldflags') + ['-lLLVM-18'])
    os.replace(tmp, os.path.join(BUILD, 'irdump'))
CFLAGS = ['-std=gnu17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-Wno-error', '-Wno-incompatible-function-pointer-types', '-Wno-int-conversion', '-ffp-contract=off', '-DNDEBUG', '-S', '-emit-llvm']
def compile_ir(files, incs, defs=(), unroll=False):
    """compile + link C files, return the parsed dump"""
    t = tool()
    d = tempfile.mkdtemp(prefix='qpir')
    try:
        procs = []; outs = []
        for n, f in enumerate(files):
            o = os.path.join(d, '%d.ll' % n); outs.append(o)
            procs.append((f, subprocess.Popen([CLANG] + CFLAGS + ['-I' + i for i in incs] + list(defs) + [f, '-o', o], stderr=subprocess.PIPE, text=True)))
        for f, p in procs:
            err = p.communicate()[1]
            if p.returncode: raise BuildError('compiling %s failed:\n%s' % (f, err[-2000:]))
        l = os.path.join(d, 'all.ll')
        if len(outs) > 1: subprocess.check_call(['/usr/lib/llvm-18/bin/llvm-link', '-S'] + outs + ['-o', l])
        else: l = outs[0]
        j = os.path.join(d, 'out.json')
        subprocess.check_call([t, l, j] + (['unroll'] if unroll else []))
        return json.load(open(j))
    finally:
        shutil.rmtree(d, ignore_errors=True)
def lib_ir():
    src = os.path.join(REPO, 'src')
    files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith('.c'))
    return compile_ir(files, [os.path.join(REPO, 'include')])
def py_ir():
    files = sorted(os.path.join(REPO, 'python', f) for f in os.listdir(os.path.join(REPO, 'python')) if f.endswith('.c'))
    return compile_ir(files, [os.path.join(REPO, 'include'), '/usr/include/python3.12', '/usr/lib/python3/dist-packages/numpy/core/include'], unroll=True)
def spec_ir(files=None):
    d = os.path.join(VERIF, 'spec')
    fs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.c'))
    return compile_ir(fs, [os.path.join(REPO, 'include')])
