"""Private copy of /repo's package with freshly built extension modules (cached by content)."""
import hashlib
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, '.build')
PY = '/opt/venv/bin/python'
EXT = '.cpython-312-x86_64-linux-gnu.so'
MODS = ('detail', 'ufuncs')


def env(root):
    e = dict(os.environ)
    e.update(PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', PYTHONPATH=root, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
             MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(BUILD, 'mpl'), LC_ALL='C.UTF-8')
    return e


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def sources(repo):
    out = []
    for r, ds, fs in os.walk(os.path.join(repo, 'funpy')):
        ds[:] = sorted(d for d in ds if d not in ('__pycache__', 'tests', 'test'))
        for f in sorted(fs):
            if f.endswith(('.py', '.pyx', '.pxd')):
                out.append(os.path.join(r, f))
    for f in ('detail.pxd',):
        p = os.path.join(repo, f)
        if os.path.exists(p):
            out.append(p)
    return out


def extensions(repo):
    """directory with the built extension modules of this tree"""
    px = [p for p in sources(repo) if p.endswith(('.pyx', '.pxd'))]
    key = digest(px) if True else ''
    # the digest must not depend on where the tree lies
    h = hashlib.sha256()
    for p in px:
        h.update(os.path.relpath(p, repo).encode())
        h.update(open(p, 'rb').read())
    key = h.hexdigest()[:20]
    d = os.path.join(BUILD, 'ext-' + key)
    if os.path.exists(os.path.join(d, 'done')):
        return d
    w = d + '.%d' % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for p in px + [p for p in sources(repo) if p.endswith('__init__.py')]:
        q = os.path.join(w, os.path.relpath(p, repo))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copy(p, q)
    inc = subprocess.run([PY, '-c', 'import numpy, sysconfig; print(numpy.get_include()); print(sysconfig.get_path("include"))'],
                         capture_output=True, text=True, check=True).stdout.split()
    ps = []
    for m in MODS:
        cmd = '%s -m cython -3 -I . -o funpy/cheb/%s.c funpy/cheb/%s.pyx && gcc -shared -fPIC -O1 -w -I%s -I%s funpy/cheb/%s.c -o funpy/cheb/%s%s -lm' % (
            PY, m, m, inc[0], inc[1], m, m, EXT)
        ps.append(subprocess.Popen(['bash', '-c', cmd], cwd=w, env=env(w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    for p in ps:
        o, _ = p.communicate(timeout=300)
        if p.returncode:
            shutil.rmtree(w, ignore_errors=True)
            raise RuntimeError('extension build failed:\n' + o[-3000:])
    open(os.path.join(w, 'done'), 'w').close()
    try:
        os.rename(w, d)
    except OSError:
        shutil.rmtree(w, ignore_errors=True)
    return d


def tree(repo='/repo'):
    """root directory of a runnable copy of the package"""
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for p in sources(repo):
        h.update(os.path.relpath(p, repo).encode())
        h.update(open(p, 'rb').read())
    d = os.path.join(BUILD, 'tree-' + h.hexdigest()[:20])
    if os.path.exists(os.path.join(d, 'done')):
        return d
    x = extensions(repo)
    w = d + '.%d' % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    for p in sources(repo):
        q = os.path.join(w, os.path.relpath(p, repo))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copy(p, q)
    for m in MODS:
        shutil.copy(os.path.join(x, 'funpy', 'cheb', m + EXT), os.path.join(w, 'funpy', 'cheb', m + EXT))
    open(os.path.join(w, 'done'), 'w').close()
    old = sorted((os.path.join(BUILD, n) for n in os.listdir(BUILD) if n.startswith('tree-') and os.path.join(BUILD, n) != w), key=os.path.getmtime)
    for n in old[:-6]:
        shutil.rmtree(n, ignore_errors=True)
    try:
        os.rename(w, d)
    except OSError:
        shutil.rmtree(w, ignore_errors=True)
    return d


if __name__ == '__main__':
    print(tree(sys.argv[1] if len(sys.argv) > 1 else '/repo'))
