"""
Out-of-tree builds of sfepy's extension modules from the working tree of the
repository: nothing is written to the repository. A build is keyed by the
contents of every C/Cython source and CMakeLists.txt, so that it is reused only
for identical sources.
"""
import os, sys, hashlib, subprocess, shutil, fcntl, json, time, glob

REPO = os.environ.get('RVM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('RVM_BUILD', os.path.join(VERIF, 'build'))
PY = '/opt/venv/bin/python'

FLAGS = {
    'plain': ('', ''),
    # -O1 keeps the number of inlined frames small; recover, so that one report
    # does not hide the following ones.
    'asan': ('-g1 -O1 -fno-omit-frame-pointer -fsanitize=address,undefined'
             ' -fsanitize-recover=all -fno-sanitize=vptr',
             '-fsanitize=address,undefined'),
}

def sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'sfepy')):
        dirs[:] = sorted(d for d in dirs if d not in ('__pycache__', 'tests',
                                                      'examples'))
        for f in sorted(files):
            if f == 'version.h':
                continue
            if f.endswith(('.c', '.h', '.pyx', '.pxd', '.pxi')) or f == 'CMakeLists.txt':
                out.append(os.path.join(root, f))
    out.append(os.path.join(REPO, 'CMakeLists.txt'))
    return out

def key(kind):
    h = hashlib.sha256(repr((kind, FLAGS[kind], REPO)).encode())
    for f in sources():
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, 'rb') as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()

def modules(where):
    """{dotted extension module name: path of the shared object}"""
    out = {}
    for root, dirs, files in os.walk(os.path.join(where, 'sfepy')):
        for f in files:
            if f.endswith('.so'):
                rel = os.path.relpath(root, where).split(os.sep)
                out['.'.join(rel + [f.split('.')[0]])] = os.path.join(root, f)
    return out

class BuildError(Exception):
    pass

def ensure(kind='plain', verbose=False):
    """Build if needed, return the build directory."""
    os.makedirs(BUILD, exist_ok=True)
    where = os.path.join(BUILD, kind)
    stamp = where + '.stamp'
    with open(os.path.join(BUILD, kind + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        k = key(kind)
        try:
            with open(stamp) as f:
                if f.read() == k and len(modules(where)) >= 11:
                    return where
        except OSError:
            pass
        t0 = time.time()
        if os.path.exists(stamp):
            os.remove(stamp)
        shutil.rmtree(where, ignore_errors=True)
        os.makedirs(where + '/gen', exist_ok=True)
        with open(where + '/gen/version.h', 'w') as f:
            f.write('#ifndef _VERSION_H_\n#define _VERSION_H_\n#define VERSION "0"\n#endif\n')
        env = {k: v for k, v in os.environ.items()
               if k not in ('LD_PRELOAD', 'ASAN_OPTIONS', 'PYTHONMALLOC',
                            'UBSAN_OPTIONS', 'PYTHONPATH')}
        env['PATH'] = '/opt/venv/bin:' + env.get('PATH', '/usr/bin:/bin')
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['CCACHE_DIR'] = os.path.join(BUILD, 'ccache')
        env['CCACHE_NOHASHDIR'] = '1'
        env['CCACHE_BASEDIR'] = REPO
        env.pop('CCACHE_DISABLE', None)
        cflags, ldflags = FLAGS[kind]
        import importlib.util
        mods = glob.glob('/opt/venv/lib/python3*/site-packages/skbuild/resources/cmake')[0]
        cmd = ['cmake', '-S', REPO, '-B', where, '-G', 'Ninja',
               '-DCMAKE_MODULE_PATH=' + mods,
               '-DCMAKE_BUILD_TYPE=' + ('Release' if kind == 'plain' else 'None'),
               '-DPYTHON_EXECUTABLE=' + PY, '-DPython3_EXECUTABLE=' + PY,
               '-DCMAKE_C_FLAGS=-I%s/gen -w %s' % (where, cflags),
               '-DCMAKE_MODULE_LINKER_FLAGS=' + ldflags]
        if shutil.which('ccache'):
            cmd.append('-DCMAKE_C_COMPILER_LAUNCHER=ccache')
        log = os.path.join(BUILD, kind + '.log')
        with open(log, 'w') as f:
            for c in (cmd, ['ninja', '-C', where]):
                r = subprocess.run(c, env=env, stdout=f, stderr=subprocess.STDOUT,
                                   cwd='/')
                if r.returncode != 0:
                    with open(log) as fl:
                        tail = fl.read()[-3000:]
                    raise BuildError('building the extensions (%s) failed:\n%s'
                                     % (kind, tail))
        # Object files are not needed any more.
        for root, dirs, files in os.walk(where):
            for fn in files:
                if fn.endswith(('.o', '.a')) or (fn.endswith('.c') and '/CMakeFiles' not in root):
                    os.remove(os.path.join(root, fn))
        with open(stamp, 'w') as f:
            f.write(k)
        if verbose:
            print('built %s in %.1f s' % (kind, time.time() - t0))
        return where

if __name__ == '__main__':
    for kind in sys.argv[1:] or ['plain']:
        ensure(kind, verbose=True)
