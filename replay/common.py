"""Runtime evaluation of the contracts on the real code: labelled bounded, and the counterexample search of the checks."""
import importlib
import math
import numpy as np

CASES = {}          # name -> Case


class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Skip(Exception):
    """the function is not there (renamed or removed): nothing is evaluated"""


class Case:
    def __init__(self, prop, name, fn, quick, thorough, contracts):
        self.prop, self.name, self.fn, self.quick, self.thorough, self.contracts = prop, name, fn, quick, thorough, contracts


def case(prop, quick=40, thorough=None, contracts=()):
    """fn(rng, i): one evaluation; raises Violation. contracts: names of the contracts it evaluates"""
    def deco(fn):
        props = (prop,) if isinstance(prop, str) else prop
        for p in props:
            n = '%s.%s' % (p, fn.__name__)
            assert n not in CASES, n
            CASES[n] = Case(p, n, fn, quick, thorough or quick * 10, contracts)
        return fn
    return deco


def need(mod, *names):
    try:
        m = importlib.import_module(mod)
    except ImportError as e:
        raise Skip(str(e))
    out = []
    for n in names:
        o = m
        for p in n.split('.'):
            if not hasattr(o, p):
                raise Skip('%s.%s' % (mod, n))
            o = getattr(o, p)
        out.append(o)
    return out[0] if len(out) == 1 else out


def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key)


def brief(a):
    return np.array2string(np.asarray(a), precision=17, threshold=60)


def close(got, want, tol, what, scale=None, key=None):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation('%s: shape %s, expected %s' % (what, g.shape, w.shape), key)
    if g.size == 0:
        return
    s = max(1.0, float(np.max(np.abs(w)))) if scale is None else scale
    if not (np.all(np.isfinite(g) == np.isfinite(w))):
        raise Violation('%s: not finite\n got %s\n want %s' % (what, brief(g), brief(w)), key)
    e = np.abs(g - w)
    e = e[np.isfinite(e)]
    if e.size and np.max(e) > tol * s:
        raise Violation('%s: error %.3e > %.3e\n got %s\n want %s' % (what, np.max(e), tol * s, brief(g), brief(w)), key)


def frozen(a):
    return np.array(a, copy=True)


def same(a, b, what, key=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
        raise Violation('%s changed\n before %s\n after %s' % (what, brief(b), brief(a)), key)
