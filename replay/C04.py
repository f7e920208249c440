from chebgen import *


def extend(c, N):
    out = np.zeros((max(N, 0),) + c.shape[1:], dtype=c.dtype)
    k = min(c.shape[0], max(N, 0))
    out[:k] = c[:k]
    return out


@case('C04', quick=120, contracts=('prolong',))
def prolong(rng, i):
    P = need('funpy.cheb.detail', 'prolong')
    c = mat(rng)
    n, m = c.shape
    N = int(rng.choice([0, 1, n - 1, n, n + 1, 2 * n, n // 2, rng.randint(0, 2 * n + 4)]))
    c0 = c.copy()
    same(np.asarray(P(c, N)), extend(c, N), 'prolong from %d to %d: result' % (n, N))
    same(c, c0, 'input of prolong')
    N = max(N, 1)
    f = tech(c)
    same(np.asarray(f.prolong_coeffs(N)), extend(c, N), 'prolong_coeffs from %d to %d: result' % (n, N))
    same(f.coeffs, c0, 'coefficients, by prolong_coeffs')
    g = f.prolong(N)
    same(np.asarray(g.coeffs), extend(c, N), 'f.prolong from %d to %d: result' % (n, N))
    Fun, fprolong = need('funpy.fun', 'Fun', 'prolong')
    h = Fun(coeffs=c.copy(order='F'), simplify=False)
    q = fprolong(h, N)
    same(np.asarray(q.coeffs), extend(c, N), 'Fun prolong from %d to %d: result' % (n, N))
    same(np.asarray(h.coeffs), c0, 'the function given to prolong')


def vector(rng, cplx):
    n = int(rng.choice([1, 2, 5, 16, 17, 18, 20, 33, 50, 64, 100, rng.randint(1, 150)]))
    k = np.arange(n)
    kind = rng.choice(['flat', 'geo', 'geonoise', 'zero', 'alg', 'onehot', 'step', 'zerotail'])
    c = rng.uniform(-1, 1, n)
    if kind in ('geo', 'geonoise'):
        c = c * 10.0 ** (-k * rng.uniform(0.05, 1.5))
        if kind == 'geonoise':
            c = c + rng.uniform(-1, 1, n) * 10.0 ** rng.uniform(-17, -8)
    elif kind == 'zero':
        c = 0 * c
    elif kind == 'alg':
        c = c / (1.0 + k) ** rng.uniform(1, 6)
    elif kind == 'onehot':
        c = 0 * c
        c[rng.randint(n)] = 1
    elif kind == 'step':
        c[rng.randint(n + 1):] *= 10.0 ** rng.uniform(-18, -3)
    elif kind == 'zerotail':
        c[rng.randint(n + 1):] = 0
    c = c.astype(float)
    if np.max(np.abs(c)) > 0:
        c = c / np.max(np.abs(c))
    if cplx:
        c = c * np.exp(2j * np.pi * rng.uniform(size=n))
    return np.ascontiguousarray(c), kind


def chopcase(rng, fn, cplx):
    c, kind = vector(rng, cplx)
    n = c.size
    tol = float(rng.choice([1e-15, 1e-12, 1e-8, 1e-4, 1e-2, 2.2e-16, 0.3, 1.0, 2.0, 10.0 ** rng.uniform(-16, -1)]))
    mn = int(rng.choice([17, 17, 1, 0, 5, 30]))
    c0 = c.copy()
    k = fn(c, tol, mn)
    what = '%s(n=%d, tol=%g, minimum=%d) of %s' % (fn.__name__, n, tol, mn, brief(c))
    same(c, c0, 'the coefficients, by chopping')
    check(0 <= k <= n, '%s: cutoff %d outside [0, n]' % (what, k))
    if tol >= 1:
        check(k == 0, what + ': tolerance of one or more must give 0, got %d' % k)
        return
    if n < mn or n < 2:
        check(k == n, what + ': shorter than the minimum must be unhappy, got %d' % k)
        return
    if np.all(c == 0):
        check(k == 0, what + ': zero must give 0, got %d' % k)
        return
    if kind == 'flat':
        check(k == n, what + ': no plateau must be unhappy, got %d' % k)
    env = np.maximum.accumulate(np.abs(c)[::-1])[::-1]
    if k < n:
        drop = np.abs(c[k + 1:])
        lim = 3 * tol ** (2. / 3) + 1e-300
        check(drop.size == 0 or np.max(drop) <= lim, what + ': cutoff %d drops a coefficient of size %.3e, allowed %.3e' % (k, np.max(drop) if drop.size else 0, lim))
    # no plateau (by the published rule) means unhappy; a plateau means a cutoff left of it
    logs = [False] * (n + 1)
    plateau = None
    e = env / env[0]
    for j in range(1, n):
        j2 = int(math.floor(1.25 * j + 5 + 0.5))
        if j2 >= n:
            break
        if e[j] == 0 or e[j2] / e[j] > 3.0 * (1.0 - math.log(e[j]) / math.log(tol)):
            plateau = j
            break
    if plateau is None:
        check(k == n, what + ': no plateau must be unhappy, got %d' % k)
    else:
        check(k <= int(math.floor(1.25 * plateau + 5 + 0.5)), what + ': cutoff %d right of the plateau found at %d' % (k, plateau))


@case('C04', quick=300, contracts=('standardChop',))
def chop(rng, i):
    chopcase(rng, need('funpy.cheb.detail', 'standardChop'), False)


@case('C04', quick=300, contracts=('standardChopCmplx',))
def chop_complex(rng, i):
    chopcase(rng, need('funpy.cheb.detail', 'standardChopCmplx'), True)


@case('C04', quick=200, contracts=('simplify_coeffs',))
def simplify(rng, i):
    S = need('funpy.cheb.detail', 'simplify_coeffs')
    n = int(rng.choice([1, 2, 3, 10, 17, 30, 60, rng.randint(1, 90)]))
    c = mat(rng, n=n, kind=rng.choice(['flat', 'decay', 'fast', 'zerotail', 'sparse']))
    m = c.shape[1]
    c = np.asfortranarray(c / np.maximum(1e-300, np.max(np.abs(c), axis=0)))
    eps = float(rng.choice([2.2e-16, 1e-12, 1e-8, 1e-5]))
    c0 = c.copy()
    s = np.asarray(S(c, eps=eps))
    what = 'simplify_coeffs(n=%d, eps=%g) of %s' % (n, eps, brief(c))
    same(c, c0, 'the input of simplify_coeffs')
    check(s.shape[1] == m and 1 <= s.shape[0] <= n, what + ': shape %s' % (s.shape,))
    close(s, c[:s.shape[0]], 1e-13, what + ': leading part', scale=bound(c))
    drop = c[s.shape[0]:]
    lim = 3 * eps ** (2. / 3) + 1e-15 * n
    check(drop.size == 0 or np.max(np.abs(drop)) <= lim, what + ': drops a coefficient of size %.3e, allowed %.3e' % (np.max(np.abs(drop)) if drop.size else 0, lim))
    chebtech = need('funpy.cheb', 'chebtech')
    f = tech(c, ishappy=True, eps=eps)
    x = np.linspace(-1, 1, 31)
    g = f.simplify()
    check(1 <= g.shape[0] <= n, what + ': f.simplify() has shape %s' % (g.shape,))
    close(at(g, x), val(c, x), lim * n * 2 + 1e-12, 'values of f.simplify(), ' + what, scale=1)
    h = tech(c, ishappy=False, eps=eps)
    if not h.ishappy:
        k = h.simplify()
        same(k.coeffs, c0, 'coefficients of an unhappy function, by simplify')


@case('C04', quick=60, contracts=('simplify_coeffs', 'standardChop'))
def keeps_fast_decay(rng, i):
    """two series sharing a prefix: a resolved series is not cut above its tolerance"""
    n = int(rng.randint(18, 80))
    rate = rng.uniform(0.3, 1.5)
    c = np.asfortranarray((rng.uniform(0.5, 1, n) * 10.0 ** (-rate * np.arange(n)))[:, None])
    S = need('funpy.cheb.detail', 'simplify_coeffs')
    s = np.asarray(S(c, eps=2.2e-16))
    need_k = int(np.sum(np.abs(c) > 1e-11))
    check(s.shape[0] >= need_k, 'simplify_coeffs cut %d coefficients to %d, %d are above 1e-11' % (n, s.shape[0], need_k))
    if rate * n > 40:
        check(s.shape[0] < n, 'simplify_coeffs kept all %d coefficients of a resolved series with rate %g' % (n, rate))


@case('C04', quick=12, contracts=('simplify_coeffs',))
def small_scale(rng, i):
    """relative to the function's scale also for scales far from one"""
    chebtech = need('funpy.cheb', 'chebtech')
    s = 10.0 ** [-20, -12, -8, 6, 10, -20, -14, -10, 3, 8, -5, 5][i]
    f = chebtech(op=lambda x: s * np.sin(10 * x + 1))
    x = np.linspace(-1, 1, 51)
    e = np.max(np.abs(np.ravel(f(x)) - s * np.sin(10 * x + 1))) / s
    check(e < 1e-6, 'chebtech(op=%g*sin(10x+1)) has relative error %.2e (n=%d, happy=%s)' % (s, e, f.n, f.ishappy),
          key='chop-absolute-tolerance' if s < 1e-6 else None)
