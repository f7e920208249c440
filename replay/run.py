"""run.py PROP SEED TIER OUT [--only CASE INDEX] : evaluate the cases of a property on the tree in PYTHONPATH"""
import sys
import os
import json
import time
import signal
import zlib
import traceback
import warnings
import importlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
warnings.simplefilter('ignore')
import numpy as np
import common


def misuse(e):
    """the harness itself no longer fits the code (a name or a signature changed), as against a malformed result"""
    if isinstance(e, (ImportError, NameError)):
        return True
    if isinstance(e, AttributeError):
        return getattr(e, 'obj', None) is not None
    if isinstance(e, TypeError):
        return any(w in str(e) for w in ('argument', 'abstract', 'not callable'))
    return isinstance(e, (MemoryError, RecursionError, OSError, AssertionError))


class Hang(BaseException):
    pass


def onalarm(*a):
    raise Hang()


def main():
    prop, seed, tier, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
    only = (sys.argv[6], int(sys.argv[7])) if '--only' in sys.argv else None
    budget = float(os.environ.get('REPLAY_BUDGET', '150' if tier == 'quick' else '1500'))
    res = {'evaluations': 0, 'cases': {}, 'violations': [], 'skipped': {}, 'import_error': None, 'done': False}

    def save():
        with open(out + '.tmp', 'w') as f:
            json.dump(res, f)
        os.replace(out + '.tmp', out)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    try:
        importlib.import_module(prop)
    except Exception:
        res['import_error'] = traceback.format_exc()[-3000:]
        save()
        return
    warnings.simplefilter('ignore')
    signal.signal(signal.SIGALRM, onalarm)
    cases = [c for c in common.CASES.values() if c.prop == prop]
    t0 = time.time()
    for ci, c in enumerate(cases):
        if only and c.name != only[0]:
            continue
        left = budget - (time.time() - t0)
        share = max(3.0, left / (len(cases) - ci) * 2)
        tc = time.time()
        n = c.quick if tier == 'quick' else c.thorough
        done = 0
        for i in range(n):
            if only and i != only[1]:
                continue
            if not only and time.time() - tc > share and i >= 3:
                break
            rng = np.random.RandomState((zlib.crc32(('%s/%d/%d' % (c.name, i, seed)).encode())) & 0x7fffffff)
            res['current'] = [c.name, i]
            save() if i % 20 == 0 else None
            np.random.seed(rng.randint(2 ** 31 - 1))
            signal.alarm(60)
            try:
                c.fn(rng, i)
                done += 1
            except common.Skip as e:
                res['skipped'][c.name] = str(e)
                break
            except common.Violation as e:
                res['violations'].append({'case': c.name, 'index': i, 'key': e.key, 'message': str(e)[:6000], 'contracts': list(c.contracts)})
                done += 1
                if e.key is None:
                    break
            except Hang:
                res['violations'].append({'case': c.name, 'index': i, 'key': None, 'message': 'did not return within 60 s', 'contracts': list(c.contracts)})
                break
            except Exception as e:
                tb = traceback.format_exc()
                inrepo = [l for l in traceback.extract_tb(e.__traceback__) if '/funpy/' in l.filename]
                res['violations'].append({'case': c.name, 'index': i, 'key': 'exception' if not inrepo and misuse(e) else None, 'harness': not inrepo and misuse(e),
                                          'message': tb[-4000:], 'contracts': list(c.contracts)})
                break
            finally:
                signal.alarm(0)
        res['cases'][c.name] = done
        res['evaluations'] += done
    res['done'] = True
    res.pop('current', None)
    save()


main()
