"""Builds, from the current working trees: binder (from /repo), the tracer and the preload library."""
import os, subprocess, hashlib, fcntl, shutil, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VSIM_REPO', '/repo')
BUILD = os.environ.get('VSIM_BUILD') or os.path.join(VERIF, '.build')
LLVM = '/usr/lib/llvm-14'


def _hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def _tree(d, skip=()):
    out = []
    for b, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in skip]
        out += [os.path.join(b, f) for f in fs if os.path.isfile(os.path.join(b, f))]
    return out


def _lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def compiled(name, src, flags=()):
    """-> an executable of the framework, compiled from /verif"""
    l = _lock()
    d = os.path.join(BUILD, name + '-' + _hash(src)); exe = os.path.join(d, name)
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        if subprocess.call(['g++', '-O1', '-std=c++17', '-o', exe + '.tmp', src[0]] + list(flags)): raise SystemExit('vsim: build of %s failed' % name)
        os.rename(exe + '.tmp', exe)
    l.close()
    return exe


def tools():
    """-> (simtrace, preload.so)"""
    l = _lock()
    src = [os.path.join(VERIF, 'sim', f) for f in ('simtrace.cpp', 'preload.cpp')]
    d = os.path.join(BUILD, 'tools-' + _hash(src))
    st, pl = os.path.join(d, 'simtrace'), os.path.join(d, 'preload.so')
    if not (os.path.exists(st) and os.path.exists(pl)):
        os.makedirs(d, exist_ok=True)
        a = subprocess.Popen(['g++', '-O2', '-std=c++17', '-o', st + '.tmp', src[0]])
        b = subprocess.Popen(['g++', '-O2', '-std=c++17', '-fPIC', '-shared', '-o', pl + '.tmp', src[1]])
        if a.wait() or b.wait(): raise SystemExit('vsim: tool build failed')
        os.rename(st + '.tmp', st); os.rename(pl + '.tmp', pl)
    l.close()
    return st, pl


def binder():
    """-> path of a binder executable built from /repo's working tree"""
    l = _lock()
    files = _tree(os.path.join(REPO, 'source')) + [os.path.join(REPO, 'CMakeLists.txt')] + _tree(os.path.join(REPO, 'cmake'))
    d = os.path.join(BUILD, 'binder-' + _hash(files))
    exe = os.path.join(d, 'source', 'binder')
    done = os.path.join(d, 'built.ok')
    if not os.path.exists(done):
        for o in os.listdir(BUILD):     # keep only one build at a time
            if o.startswith('binder-'): shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
        os.makedirs(d)
        env = dict(os.environ, LANG='C.UTF-8', CC='/usr/bin/gcc-13', CXX='/usr/bin/g++-13', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        log = open(os.path.join(d, 'build.log'), 'w')
        c = ['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DFETCHCONTENT_FULLY_DISCONNECTED=ON', '-DLLVM_DIR=%s/lib/cmake/llvm' % LLVM, '-DClang_DIR=%s/lib/cmake/clang' % LLVM, '-DBINDER_ENABLE_TEST=OFF', '-Wno-dev']
        r = subprocess.call(c, stdout=log, stderr=log, env=env)
        if not r: r = subprocess.call(['ninja', '-C', d, 'binder'], stdout=log, stderr=log, env=env)
        if r or not os.path.exists(exe):
            sys.stderr.write(open(os.path.join(d, 'build.log')).read()[-3000:])
            raise SystemExit('vsim: binder does not build')
        os.makedirs(os.path.join(d, 'lib'), exist_ok=True)
        if not os.path.lexists(os.path.join(d, 'lib', 'clang')): os.symlink(LLVM + '/lib/clang', os.path.join(d, 'lib', 'clang'))
        open(done, 'w').write('ok')
    l.close()
    return exe


if __name__ == '__main__':
    t = time.time(); print(tools()); print(compiled('faketools', [os.path.join(VERIF, 'sim', 'faketools.cpp')])); print(binder()); print('%.1fs' % (time.time() - t))
