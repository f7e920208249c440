from common import *
import numpy as np
import scipy.sparse as sps


class Problem:
    """systems of equations with their derivative; some without a zero, some with a singular derivative"""

    def __init__(self, rng, kind=None):
        self.n = n = int(rng.choice([1, 2, 3]))
        self.A = rng.uniform(-1, 1, (n, n)) + (1.0 + n) * np.eye(n)
        if rng.randint(5) == 0:
            self.A = 2.0 * np.eye(n)
        self.b = rng.uniform(-1, 1, n)
        if rng.randint(5) == 0:
            self.b = np.round(4 * self.b)
        self.kind = kind or rng.choice(['linear', 'quadratic', 'cubic', 'atan', 'exp', 'nozero', 'homogeneous'])
        self.w = rng.uniform(0.1, 1.0, n)

    def F(self, x):
        k = self.kind
        if k == 'linear':
            return self.A @ x - self.b
        if k == 'homogeneous':
            return self.A @ x
        if k == 'quadratic':
            return self.A @ x + self.w * x * x - self.b
        if k == 'cubic':
            return self.A @ x + self.w * x ** 3 - self.b
        if k == 'atan':
            return np.arctan(3 * x) + 0.1 * (self.A @ x) - 0.1 * self.b
        if k == 'exp':
            return np.exp(np.clip(x, -50, 50)) + 0.1 * (self.A @ x) - 2
        return x * x + 1.0 + self.w

    def J(self, x):
        k = self.kind
        if k in ('linear', 'homogeneous'):
            return self.A
        if k == 'quadratic':
            return self.A + np.diag(2 * self.w * x)
        if k == 'cubic':
            return self.A + np.diag(3 * self.w * x * x)
        if k == 'atan':
            return np.diag(3 / (1 + 9 * x * x)) + 0.1 * self.A
        if k == 'exp':
            return np.diag(np.exp(np.clip(x, -50, 50))) + 0.1 * self.A
        return np.diag(2 * x)


class Log:
    def __init__(self, P, failat=None):
        self.P, self.ev, self.failat, self.solves = P, [], failat, 0

    def system(self, x, *a, **k):
        return System(self, x)


class System:
    def __init__(self, log, x):
        self.log, self.x = log, np.array(x, dtype=float)
        self.Jx = log.P.J(self.x)
        log.ev.append(('jac', self.x.copy(), None))

    @property
    def size(self):
        return self.log.P.n

    def rhs(self, x):
        self.log.ev.append(('rhs', np.array(x, dtype=float), None))
        return self.log.P.F(np.asarray(x))

    def solve(self, b):
        L = self.log
        L.solves += 1
        ok = L.failat is None or L.solves != L.failat
        try:
            d = np.linalg.solve(self.Jx, b)
        except np.linalg.LinAlgError:
            d, ok = np.zeros_like(b), False
        if not np.all(np.isfinite(d)):
            d, ok = np.zeros_like(b), False
        L.ev.append(('solve', d.copy(), ok))
        return d, ok

    def matrix(self, precond=False):
        return sps.csr_matrix(self.Jx), sps.csr_matrix(np.linalg.inv(self.Jx)), None

    def to_vspace(self, c, *a):
        return np.asarray(c)


def judge(log, x, ok, k, normdx, miter, tol, what, lastcb=True, exact=True):
    check(isinstance(ok, (bool, np.bool_)), '%s: success is %r' % (what, ok))
    check(k <= miter, '%s: %d iterations reported, maximum %d' % (what, k, miter))
    sv = [e for e in log.ev if e[0] == 'solve']
    if ok:
        check(all(e[2] for e in sv[-1:]), '%s: success although the last linear solve failed' % what)
        p = [e[1] for e in log.ev if e[0] == 'rhs'][-1]
        d = np.linalg.norm(np.asarray(x) - p)
        s = np.linalg.norm(p) * 1e-15
        check(d <= tol * (1 + 1e-9) + s, '%s: success, but the returned state is %.3e from the last point evaluated, tolerance %.1e' % (what, d, tol))
        check(lastcb, '%s: success although the callback asked to stop' % what)
        if exact:
            q = np.linalg.norm(sv[-1][1])
            check(q <= tol * (1 + 1e-12), '%s: success with a last correction of %.3e, tolerance %.1e' % (what, q, tol))
            close(np.asarray(x), p + sv[-1][1], 1e-13, '%s: returned state and last point plus last correction' % what)


def damping(log, lo, what):
    """trial points between two derivatives lie at x + lam dx, lo <= lam <= 1"""
    x = dx = None
    first = True
    for e in log.ev:
        if e[0] == 'jac':
            x, dx = e[1], None
        elif e[0] == 'solve' and dx is None:
            dx = e[1]
        elif e[0] == 'rhs' and dx is not None and np.linalg.norm(dx) > 1e-10:
            t = e[1] - x
            lam = np.dot(t, dx) / np.dot(dx, dx)
            r = np.linalg.norm(t - lam * dx) / np.linalg.norm(dx)
            if r > 1e-6:
                return      # quasi-Newton steps: no damping
            check(lo * (1 - 1e-9) - 1e-9 <= lam <= 1 + 1e-6, '%s: damping factor %.3e outside [%.1e, 1]' % (what, lam, lo))


def start(rng, n):
    x = rng.uniform(-1, 1, n) * rng.choice([0.1, 1.0, 5.0, 50.0])
    return np.round(x) if rng.randint(4) == 0 else x


@case('C16', quick=150, contracts=('newton_standard',))
def standard(rng, i):
    f = need('funpy.newton.newton_standard', 'newton_standard')
    P = Problem(rng)
    log = Log(P, failat=int(rng.randint(1, 5)) if rng.randint(4) == 0 else None)
    tol, miter = float(rng.choice([1e-6, 1e-10, 1e-2])), int(rng.choice([1, 2, 5, 20, 50]))
    cbs = []
    stop = int(rng.randint(1, 5)) if rng.randint(4) == 0 else None

    def cb(*a):
        cbs.append(a)
        return stop is None or len(cbs) < stop
    x, ok, k, nd, ne, s = f(log.system, start(rng, P.n), tol=tol, miter=miter, callback=cb)
    what = 'newton_standard(%s, n=%d, tol=%.0e, miter=%d, failing solve %s, stop %s)' % (P.kind, P.n, tol, miter, log.failat, stop)
    judge(log, x, ok, k, nd, miter, tol, what, stop is None or len(cbs) < stop)
    check(sum(e[0] == 'jac' for e in log.ev) <= miter and ne == sum(e[0] == 'jac' for e in log.ev), '%s: %d derivatives, %d reported' % (what, sum(e[0] == 'jac' for e in log.ev), ne))
    if ok:
        check(nd <= tol, '%s: success with a reported correction of %.3e' % (what, nd))
    if P.kind == 'nozero':
        check(not ok or tol > 1e-5, '%s: success, but there is no zero' % what)


@case('C16', quick=250, contracts=('nleq_err',))
def nleq(rng, i):
    f = need('funpy.newton.nleq_err', 'nleq_err')
    P = Problem(rng)
    log = Log(P, failat=int(rng.randint(1, 7)) if rng.randint(5) == 0 else None)
    tol, miter = float(rng.choice([1e-6, 1e-10, 1e-2])), int(rng.choice([1, 2, 3, 5, 20, 50]))
    nl = rng.choice(['mildly', 'highly', 'extremely'])
    kw = dict(use_qnerr=bool(rng.randint(2)), restricted=bool(rng.randint(2)))
    if rng.randint(4) == 0:
        kw['lambda_min'] = float(rng.choice([1e-2, 1e-6]))
    lo = kw.get('lambda_min', {'mildly': 1e-4, 'highly': 1e-4, 'extremely': 1e-12}[nl])
    cbs = []
    stop = int(rng.randint(1, 5)) if rng.randint(5) == 0 else None

    def cb(*a):
        cbs.append(a)
        return stop is None or len(cbs) != stop
    what = 'nleq_err(%s, n=%d, tol=%.0e, miter=%d, %s, %s, failing solve %s, stop %s)' % (P.kind, P.n, tol, miter, nl, kw, log.failat, stop)
    x, ok, k, nd, ne, s = f(log.system, start(rng, P.n), tol=tol, miter=miter, nonlin=nl, callback=cb, **kw)
    judge(log, x, ok, k, nd, miter, tol, what)
    if not kw['use_qnerr']:      # quasi-Newton steps are not damped
        damping(log, lo, what)
    check(ne == sum(e[0] == 'jac' for e in log.ev), '%s: %d derivatives, %d reported' % (what, sum(e[0] == 'jac' for e in log.ev), ne))
    check(ne <= miter, '%s: %d derivatives' % (what, ne))
    if P.kind == 'nozero':
        check(not ok or tol > 1e-5, '%s: success, but there is no zero' % what)


@case('C16', quick=200, contracts=('qnerr',))
def quasi(rng, i):
    f = need('funpy.newton.qnerr', 'qnerr')
    P = Problem(rng)
    log = Log(P, failat=int(rng.randint(1, 5)) if rng.randint(4) == 0 else None)
    tol, miter = float(rng.choice([1e-6, 1e-10, 1e-2])), int(rng.choice([1, 2, 5, 20]))
    cbs = []
    stop = int(rng.randint(1, 5)) if rng.randint(4) == 0 else None

    def cb(*a):
        cbs.append(a)
        return stop is None or len(cbs) != stop
    what = 'qnerr(%s, n=%d, tol=%.0e, miter=%d, failing solve %s, stop %s)' % (P.kind, P.n, tol, miter, log.failat, stop)
    r = f(log.system, start(rng, P.n), tol=tol, miter=miter, callback=cb, verb=False)
    check(len(r) == 6, '%s: %d values returned' % (what, len(r)))
    x, ok, k, nd, ne, s = r
    judge(log, x, ok, k, nd, miter, tol, what, exact=False)
    if ok:
        check(nd <= tol * (1 + 1e-12), '%s: success with a reported correction of %.3e' % (what, nd))
        e = np.linalg.norm(np.linalg.solve(P.J(x), P.F(x)))
        check(e <= 10 * tol + 1e-12, '%s: success, distance to the solution about %.3e' % (what, e))
    check(sum(e[0] == 'rhs' for e in log.ev) <= miter + 1, '%s: %d residuals evaluated' % (what, sum(e[0] == 'rhs' for e in log.ev)))


@case('C16', quick=200, contracts=('giant_gbit',))
def giant(rng, i):
    f = need('funpy.newton.giant', 'giant_gbit')
    P = Problem(rng, kind=rng.choice(['linear', 'quadratic', 'cubic', 'atan', 'exp', 'homogeneous']))
    log = Log(P)
    tol, miter = float(rng.choice([1e-6, 1e-9, 1e-3])), int(rng.choice([1, 2, 3, 5, 20, 50]))
    nl = rng.choice(['mildly', 'highly', 'extremely'])
    what = 'giant_gbit(%s, n=%d, tol=%.0e, max_iter=%d, %s)' % (P.kind, P.n, tol, miter, nl)
    x0 = start(rng, P.n)
    x, ok, k, ne, s = f(log.system, x0.copy(), tol=tol, max_iter=miter, nonlin=nl, inner=np.dot)
    check(isinstance(ok, (bool, np.bool_)), '%s: success is %r' % (what, ok))
    check(ne == sum(e[0] == 'jac' for e in log.ev), '%s: %d derivatives, %d reported' % (what, sum(e[0] == 'jac' for e in log.ev), ne))
    check(k <= miter and ne <= miter, '%s: %d iterations, %d derivatives' % (what, k, ne))
    if ok:
        p = [e[1] for e in log.ev if e[0] == 'rhs'][-1]
        d = np.linalg.norm(x - p)
        check(d <= tol * (1 + 1e-9), '%s from %s: success, but the returned state %s is %.3e from the last point evaluated' % (what, x0, x, d))
        e = np.linalg.norm(np.linalg.solve(P.J(x), P.F(x)))
        check(e <= 2 * tol + 1e-12, '%s from %s: success, distance to the solution about %.3e' % (what, x0, e))
