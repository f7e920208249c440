"""check.py PROPERTY [--tier quick|thorough] [--repo DIR] | --replay FILE | --list

Deductive step: every contract of the property is verified against the current source of /repo
(one process per contract).  Bounded step: the same contracts are evaluated at run time on a private
build of the current tree; it serves as the search for a failing input and as the labelled stand-in
for functions outside the verifier's reach."""
import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
PY = '/opt/venv/bin/python'
CHECKER = 'python3-vt /verif/check.py %s'


def load():
    for p in sorted(glob.glob(os.path.join(HERE, 'contracts', '*.py'))):
        n = os.path.basename(p)[:-3]
        if not n.startswith('_'):
            importlib.import_module('contracts.' + n)
    from pyvc.verify import CONTRACTS
    return CONTRACTS


def worker(conn, c, repo, scale):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from pyvc.verify import verify
        if scale != 1:
            c.timeout *= scale
            c.budget *= scale
        r = verify(c, repo).as_dict()
    except MemoryError:
        r = {'status': 'undecided', 'reason': 'memory limit'}
    except BaseException:
        r = {'status': 'undecided', 'reason': 'engine: ' + traceback.format_exc()[-1500:]}
    try:
        conn.send(r)
    except BaseException:
        conn.send({'status': 'undecided', 'reason': 'result not serialisable'})
    conn.close()


def run_contracts(cs, repo, par, deadline, scale=1):
    todo = sorted(cs, key=lambda c: -c.budget)
    live, out = [], {}
    ctxm = mp.get_context('fork')
    while todo or live:
        now = time.time()
        while todo and len(live) < par and now < deadline:
            c = todo.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=worker, args=(b, c, repo, scale), daemon=True)
            p.start()
            b.close()
            live.append((c, p, a, now + c.budget * scale * 1.5 + 20))
        keep = []
        for (c, p, a, dl) in live:
            if a.poll(0):
                try:
                    out[c.name] = a.recv()
                except EOFError:
                    out[c.name] = {'status': 'undecided', 'reason': 'verifier process ended'}
                p.join(5)
            elif not p.is_alive():
                out[c.name] = {'status': 'undecided', 'reason': 'verifier process ended'}
            elif time.time() > min(dl, deadline + 30):
                p.kill()
                out[c.name] = {'status': 'undecided', 'reason': 'time budget used up'}
            else:
                keep.append((c, p, a, dl))
        live = keep
        if time.time() > deadline and todo:
            for c in todo:
                out[c.name] = {'status': 'undecided', 'reason': 'not started: time budget of the check used up'}
            todo = []
        time.sleep(0.02)
    return out


def replay_proc(root, prop, seed, tier, outp, budget, extra=()):
    import tree
    e = tree.env(root)
    e['REPLAY_BUDGET'] = str(budget)
    scratch = os.path.join(tree.BUILD, 'scratch.%d' % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    e['REPLAY_SCRATCH'] = scratch
    return subprocess.Popen([PY, '-B', os.path.join(HERE, 'replay', 'run.py'), prop, str(seed), tier, outp] + list(extra),
                            cwd=scratch, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)


def finish(p, seconds):
    try:
        p.wait(seconds)
        return True
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        return False


def known():
    p = os.path.join(HERE, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


TRUSTED = [
    'pyvc: the symbolic executor, its numpy/scipy models and its obligation generator (written for this project)',
    'z3 4.x / cvc5 as back ends; the algebra back end (polynomial identity by normal forms) of pyvc',
    'machine arithmetic treated as exact real/complex/integer arithmetic in the deductive step; floating point is only exercised by the bounded run-time evaluation',
    'the Cython compiler and numpy/scipy implement the semantics the models give them',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('--no-contracts', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return do_replay(a)
    t0 = time.time()
    prop, tier = a.prop, ('thorough' if a.tier == 'thorough' else 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cons = load()
    mine = [c for c in cons.values() if prop in c.props]
    if a.list:
        print('\n'.join(c.name for c in mine))
        return 0
    import tree
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    root, builderr = None, None
    try:
        root = tree.tree(a.repo)
    except Exception as e:
        builderr = str(e)
    hasreplay = os.path.exists(os.path.join(HERE, 'replay', prop + '.py')) and not a.no_replay
    rp, routs = None, []
    scratch = os.path.join(tree.BUILD, 'scratch.%d' % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    rbudget = 150 if tier == 'quick' else 1200
    nrep = 1 if tier == 'quick' else 3
    procs = []
    if hasreplay and root:
        for k in range(nrep):
            o = os.path.join(scratch, 'out.%d.json' % k)
            procs.append((replay_proc(root, prop, seed + k, tier, o, rbudget), o, seed + k))
    # ---- deductive step
    limit = 420 if tier == 'quick' else 3000
    deadline = t0 + limit
    par = 7 if tier == 'quick' else 5
    res = {}
    if mine and not a.no_contracts:
        res = run_contracts(mine, a.repo, par, deadline)
        again = [c for c in mine if res[c.name]['status'] != 'proved' and not res[c.name].get('reason', '').startswith(('outside', 'memory'))]
        if again:
            r2 = run_contracts(again, a.repo, 3, min(deadline + 180, t0 + 560) if tier == 'quick' else deadline + 1200, scale=3)
            for n, r in r2.items():
                if r['status'] == 'proved' or (r['status'] != 'undecided') or res[n]['status'] == 'undecided':
                    res[n] = r
                elif res[n]['status'] == 'failed' and r['status'] == 'undecided':
                    res[n] = r
    # ---- bounded step
    reps = []
    for (p, o, s) in procs:
        ok = finish(p, max(5, t0 + rbudget + (470 if tier == 'quick' else 1500) - time.time()))
        r = json.load(open(o)) if os.path.exists(o) else {'evaluations': 0, 'cases': {}, 'violations': [], 'skipped': {}, 'import_error': None, 'done': False}
        r['seed'] = s
        if not ok or not r['done']:
            r['incomplete'] = r.get('current')
            if p.returncode is not None and p.returncode < 0 and ok and r.get('current'):
                r['violations'].append({'case': r['current'][0], 'index': r['current'][1], 'key': None, 'contracts': [],
                                        'message': 'the interpreter ended with signal %d while evaluating this case or one of the next 20' % -p.returncode})
        reps.append(r)
    failed = {n: r for n, r in res.items() if r['status'] == 'failed' and not r.get('abstracted')}
    # a refuted contract: search harder for an input
    if failed and root and hasreplay and not any(v['key'] is None for r in reps for v in r['violations']):
        o = os.path.join(scratch, 'out.x.json')
        left = (600 if tier == 'quick' else 5000) - (time.time() - t0)
        if left > 30:
            p = replay_proc(root, prop, seed + 1000, 'thorough', o, min(left - 10, 200))
            finish(p, left)
            if os.path.exists(o):
                r = json.load(open(o))
                r['seed'] = seed + 1000
                reps.append(r)
    K = known()
    keys = {f['key']: f for f in K['findings'] if f['property'] == prop}
    viol, seen, harness = [], set(), []
    for r in reps:
        for v in r['violations']:
            if v.get('harness'):
                harness.append('%s[%d]: %s' % (v['case'], v['index'], v['message'][-600:]))
            elif v['key'] in keys:
                seen.add(v['key'])
            else:
                viol.append((v, r['seed']))
        if r['import_error']:
            harness.append('import: ' + r['import_error'][-600:])
    code = 0
    for k in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (prop, keys[k]['what']))
    out = []
    for v, s in viol:
        f = os.path.join(HERE, 'replays', '%s.%s.%d.json' % (prop, v['case'].split('.')[-1], v['index']))
        rel = [n for n in failed]
        json.dump({'property': prop, 'kind': 'input', 'case': v['case'], 'index': v['index'], 'seed': s, 'tier': tier, 'message': v['message'],
                   'failed_contracts': {n: [x[:3] for x in failed[n]['failed']] for n in rel}}, open(f, 'w'), indent=1)
        out.append(f)
        print('%s\n' % v['message'][:1500])
        print('VIOLATION property=%s replay=%s' % (prop, f))
        code = 1
        break
    if failed and not viol:
        f = os.path.join(HERE, 'replays', '%s.obligation.json' % prop)
        json.dump({'property': prop, 'kind': 'obligation', 'contracts': {n: {'obligations': [{'id': x[0], 'kind': x[1], 'status': x[2], 'model': x[3], 'goal': x[4]} for x in r['failed']]}
                                                                        for n, r in failed.items()}}, open(f, 'w'), indent=1)
        for n, r in failed.items():
            for x in r['failed'][:3]:
                print('obligation not discharged: %s: %s (%s)' % (n, x[0], x[2]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, f))
        code = 1
    # ---- evidence
    evals = sum(r['evaluations'] for r in reps)
    ob = sum(r.get('obligations', 0) for r in res.values())
    di = sum(r.get('discharged', 0) for r in res.values())
    back = {}
    for r in res.values():
        for b, n in r.get('backends', {}).items():
            back[b] = back.get(b, 0) + n
    und = {n: r.get('reason', '') for n, r in res.items() if r['status'] == 'undecided'}
    cov = {
        'obligations': ob, 'discharged': di, 'checker_cmd': CHECKER % prop, 'trusted_base': TRUSTED,
        'contracts': {n: {'status': r['status'], 'obligations': r.get('obligations', 0), 'discharged': r.get('discharged', 0), 'back_ends': r.get('backends', {}),
                          'paths': r.get('paths', 0), 'solver_s': round(r.get('solver_time', 0), 2), 'bodies_executed': r.get('inlined', []), 'contracts_used': r.get('used', []),
                          'assumed': r.get('assumed', []), 'notes': r.get('notes', []), 'reason': r.get('reason', '')} for n, r in sorted(res.items())},
        'functions_under_contract': len({n.split('#')[0] for n in res if not n.startswith('lemma')}), 'contracts_proved': sum(r['status'] == 'proved' for r in res.values()),
        'contracts_total': len(res), 'undecided': und, 'back_ends': back, 'solver_s': round(sum(r.get('solver_time', 0) for r in res.values()), 1),
        'bounded_evaluations': evals, 'bounded_cases': {k: v for r in reps for k, v in r['cases'].items()},
        'bounded_skipped': {k: v for r in reps for k, v in r['skipped'].items()}, 'bounded_harness_notes': harness[:5],
        'bounded_rule': 'run-time evaluation of the contracts on randomly generated inputs (numpy RandomState seeded by case, index and seed), inputs and oracles in replay/%s.py; never counted as proved' % prop,
        'extraction_drops': 'Cython: cdef types kept as integer/real/complex/memoryview types, decorators and directives (boundscheck, wraparound, cdivision) dropped, nogil/except clauses dropped; Python: docstrings, prints and warnings have no effect',
    }
    level = LEVELS.get(prop, 'proof')
    if level != 'proof':
        cov.update(evaluations=evals, distinct_nontrivial=evals, rule=cov['bounded_rule'],
                   explanation='contracts discharged for the functions listed under contracts; the rest of the property is evaluated at run time on generated inputs (bounded)')
    ass = sorted({x for r in res.values() for x in r.get('assumed', [])})
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ass, 'wall_s': round(time.time() - t0, 1),
               'violations': len(viol) + (1 if failed and not viol else 0)}, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    import shutil
    shutil.rmtree(scratch, ignore_errors=True)
    print('%s: %d/%d contracts proved, %d/%d obligations discharged, %d bounded evaluations%s%s, %.0f s' % (
        prop, cov['contracts_proved'], len(res), di, ob, evals, ', undecided: %s' % ', '.join(sorted(und)) if und else '',
        ', harness notes: %d' % len(harness) if harness else '', time.time() - t0))
    if builderr:
        print('the tree could not be built: ' + builderr[-800:])
        return 2
    return code


def do_replay(a):
    r = json.load(open(a.replay))
    import tree
    if r['kind'] == 'input':
        root = tree.tree(a.repo)
        o = os.path.join(tree.BUILD, 'replay.json')
        p = replay_proc(root, r['property'], r['seed'], 'thorough' if r['seed'] >= 1000 else r['tier'], o, 600, ['--only', r['case'], str(r['index'])])
        finish(p, 700)
        v = json.load(open(o))['violations']
        print(v[0]['message'] if v else 'no violation')
        return 1 if v else 0
    cons = load()
    from pyvc.verify import verify
    code = 0
    for n in r['contracts']:
        x = verify(cons[n], a.repo)
        print(n, x.status, '%d/%d' % (x.discharged, x.obligations))
        for f in x.failed:
            print('  ', f[0], f[2], '\n      goal', f[4], '\n      model', f[3])
            code = 1
    return code


LEVELS = {}
if os.path.exists(os.path.join(HERE, 'MANIFEST.json')):
    try:
        LEVELS = {c['property']: c['level'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
    except Exception:
        pass

if __name__ == '__main__':
    sys.exit(main())
