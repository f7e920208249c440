"""Plants bugs.  seed.py make SPEC.py: every entry of SPEC.BUGS becomes seeded/<id>/ (patch, demo, meta);
seed.py try ID...: in a scratch copy under /tmp, the tests with the patch, the demo without and with it, and the check."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
DEMO = '''#!/bin/bash
# run in /repo after its build
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout)


def make(spec):
    sp = importlib.util.spec_from_file_location('spec', spec)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for b in m.BUGS:
        edits = b['edits'] if 'edits' in b else [(b['file'], b['old'], b['new'])]
        with tempfile.TemporaryDirectory() as t:
            for side in ('a', 'b'):
                for f in {e[0] for e in edits}:
                    d = os.path.join(t, side, f)
                    os.makedirs(os.path.dirname(d), exist_ok=True)
                    shutil.copy(os.path.join('/repo', f), d)
            for f, old, new in edits:
                d = os.path.join(t, 'b', f)
                s = open(d).read()
                if s.count(old) != 1:
                    sys.exit('%s: %d matches of %r in %s' % (b['id'], s.count(old), old, f))
                open(d, 'w').write(s.replace(old, new))
            p = sh('diff -ruN a b', cwd=t).stdout
        # git style headers
        out = []
        for l in p.splitlines(True):
            if l.startswith('diff -ruN'):
                _, _, x, y = l.split()
                out.append('diff --git %s %s\n' % (x, y))
            elif l.startswith(('--- ', '+++ ')):
                out.append(l.split('\t')[0] + '\n')
            else:
                out.append(l)
        d = os.path.join(SEEDED, b['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(''.join(out))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('made', b['id'])


def tryone(i, check=True):
    d = os.path.join(SEEDED, i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    t = tempfile.mkdtemp(prefix='seed.')
    r = {'id': i, 'property': prop}
    try:
        root = os.path.join(t, 'repo')
        sh('cp -a /repo %s' % root)
        sh('rm -rf %s/build' % root)

        def so():
            e = sh('python3 -c "import sys;sys.path.insert(0,\'%s/tools\');import tree;print(tree.extensions(\'%s\'))"' % (HERE, root))
            sh('cp %s/funpy/cheb/*.so %s/funpy/cheb/' % (e.stdout.strip().splitlines()[-1], root))

        def demo():
            return sh('bash %s/demo.sh' % d, cwd=root, timeout=300)
        so()
        c = demo()
        r['demo_clean'] = c.returncode
        if c.returncode:
            print(c.stdout[-800:])
        a = sh('git apply %s/patch.diff' % d, cwd=root)
        if a.returncode:
            r['apply'] = a.stdout
            return r
        r['tests'] = sh('bash %s/tools/testat.sh %s' % (HERE, root)).stdout.strip().splitlines()
        p = demo()
        r['demo_patched'] = p.returncode
        r['demo_out'] = p.stdout.strip().splitlines()[-1:] if p.stdout.strip() else ''
        if check:
            for mode in ('', '--no-replay', '--no-contracts'):
                k = sh('python3-vt %s/check.py %s --repo %s %s' % (HERE, prop, root, mode))
                v = [l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
                r['check' + mode] = (k.returncode, v[0][-90:] if v else k.stdout.strip().splitlines()[-1:][0][:160])
        r['counts'] = r['demo_clean'] == 0 and r['demo_patched'] != 0 and 'missing 0' in ' '.join(r['tests'])
        return r
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        for i in ids:
            r = tryone(i, check='nocheck' not in os.environ)
            print(json.dumps(r, indent=1), flush=True)
