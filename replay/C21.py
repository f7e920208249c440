"""Roots and extrema"""
from chebgen import *
import triggen


def dom(rng):
    return [np.array([-1.0, 1.0]), np.array([0.0, 3.0]), np.array([-2.0, -1.5])][rng.randint(3)]


def fun(c, d, **kw):
    Fun = need('funpy.fun', 'Fun')
    return Fun(coeffs=np.asfortranarray(np.array(c, dtype=float)), domain=d, simplify=False, **kw)


def ref(d, z):
    return 2 * (z - d[0]) / (d[1] - d[0]) - 1


def product(rng, k):
    """coefficients of a function on [-1, 1] with exactly k simple, separated roots there, and the roots"""
    while True:
        r = np.sort(rng.uniform(-1, 1, k))
        if rng.randint(4) == 0 and 0 < k <= 2:
            r[0] = -1.0
        if rng.randint(4) == 0 and k == 2:
            r[-1] = 1.0
        if k < 2 or np.min(np.diff(r)) > 0.3 / k:
            break
    c = np.array([1.0])
    for q in r:
        c = NC.chebmul(c, [-q, 1.0])
        c = c / np.max(np.abs(c))
    e = NC.chebmul([2.0 + rng.uniform(), 0.3, 0.1], [1.0])
    if rng.randint(2):
        c = NC.chebmul(c, e)
    return c * float(rng.choice([1.0, -3.0, 100.0])), r


def checkroots(r, c, d, what, tol=1e-9):
    """reported roots of the column c lie in the interval and the function vanishes there"""
    r = np.asarray(r, dtype=complex)
    check(r.ndim == 1, '%s: roots %r' % (what, r))
    check(np.all(np.imag(r) == 0), '%s: complex roots' % what)
    r = np.real(r)
    L = d[1] - d[0]
    s = max(1.0, np.max(np.abs(d)))
    check(np.all(r >= d[0] - 4e-15 * s) and np.all(r <= d[1] + 4e-15 * s), '%s: roots %s outside %s' % (what, brief(r), d))
    x = np.clip(ref(d, r), -1, 1)
    v = NC.chebval(x, c)
    slope = max(1.0, np.sum(np.abs(c) * np.arange(len(c)) ** 2) / max(np.sum(np.abs(c)), 1e-300))
    check(np.all(np.abs(v) <= tol * np.sum(np.abs(c)) * np.sqrt(slope)), '%s: values at the reported roots %s are %s, coefficients %s' % (what, brief(r), brief(v), brief(c)))
    return x


def bracketed(x, c, what):
    """every clear sign change has a root next to it"""
    t = np.linspace(-1, 1, 40 * len(c) + 41)
    v = NC.chebval(t, c)
    m = np.abs(v) > 1e-7 * np.sum(np.abs(c))
    t, v = t[m], v[m]
    for k in np.where(v[1:] * v[:-1] < 0)[0]:
        check(np.any((x >= t[k] - 1e-7) & (x <= t[k + 1] + 1e-7)), '%s: no root reported in [%.6f, %.6f] where the function changes sign; reported %s, coefficients %s' % (what, t[k], t[k + 1], brief(x), brief(c)))


@case('C21', quick=150, contracts=('roots', 'roots_main'))
def simple(rng, i):
    roots = need('funpy.fun', 'roots')
    d = dom(rng)
    k = int(rng.choice([0, 1, 1, 2, 3, 5, 8]))
    c, r = product(rng, k)
    if rng.randint(5) == 0:
        c = np.concatenate((c, np.zeros(3)))
    f = fun(c[:, None], d)
    g = np.asarray(roots(f))
    x = checkroots(g, c, d, 'simple roots')
    close(np.sort(x), r, 1e-6, 'roots of the function with coefficients %s' % brief(c))
    close(np.sort(np.asarray(g)), np.asarray(g), 0, 'order of the roots') if len(c) <= 50 else None


@case('C21', quick=60, contracts=('roots', 'roots_main'))
def short(rng, i):
    """constants and linear functions"""
    roots = need('funpy.fun', 'roots')
    d = dom(rng)
    L = d[1] - d[0]
    kind = i % 5
    if kind == 0:
        c = [float(rng.choice([0.0, 1.0, -2.5]))]
    elif kind == 1:
        c = [float(rng.choice([0.5, -0.75, 0.0, 1.0, -1.0])), float(rng.choice([1.0, -1.0]))]
    elif kind == 2:
        c = [float(rng.choice([2.0, -7.0, 1.5, 1.0001])), float(rng.choice([1.0, -1.0, 0.5]))]
    elif kind == 3:
        c = [float(rng.choice([1.0, 0.0])), float(rng.choice([0.0, 1.0]))]
        c = c if any(c) else [0.0, 1.0]
    else:
        c = [0.0, float(rng.choice([3.0, 1e-3])), 0.0, 0.0][:int(rng.randint(2, 5))]
    f = fun(np.array(c)[:, None], d)
    g = np.atleast_1d(np.asarray(roots(f)))
    b = c[1] if len(c) > 1 else 0.0
    a = c[0]
    if b:
        want = [-a / b] if abs(a / b) <= 1 else []
    else:
        want = [0.0] if a == 0 else []
    check(len(g) == len(want), 'roots of %s on %s: %s' % (c, d, brief(g)))
    if want and b:
        close(ref(d, g), want, 1e-12, 'root of the linear function %s' % c)
    check(np.all(g >= d[0]) and np.all(g <= d[1]), 'roots of %s outside %s: %s' % (c, d, brief(g)))


@case('C21', quick=100, contracts=('roots', 'roots_main'))
def general(rng, i):
    roots = need('funpy.fun', 'roots')
    d = dom(rng)
    n = int(rng.choice([2, 3, 4, 10, 30, 48, 51, 60, 120, 300, 514, 530] if i % 4 == 0 else [2, 3, 4, 6, 9, 20, 49, 50, 51, 52, 70]))
    m = int(rng.choice([1, 1, 2, 3])) if n < 100 else 1
    c = rng.uniform(-1, 1, (n, m))
    if n > 40 or rng.randint(2):
        c = c * 10.0 ** (-np.arange(n)[:, None] * rng.uniform(0.05, 0.4) * min(1.0, 40.0 / n))
    f = fun(c, d)
    g = roots(f)
    for j in range(m):
        x = checkroots(g[j] if m > 1 else g, c[:, j], d, 'column %d of %d, length %d' % (j, m, n), tol=1e-7 if n > 50 else 1e-9)
        bracketed(x, c[:, j], 'column %d of %d, length %d' % (j, m, n))


@case('C21', quick=20, contracts=('roots', 'roots_main'))
def oscillating(rng, i):
    roots, Fun = need('funpy.fun', 'roots', 'Fun')
    d = dom(rng)
    w = float(rng.choice([3.0, 20.5, 70.25, 200.5]))
    p = float(rng.uniform(0, 1))
    f = Fun(op=lambda x: np.cos(w * np.pi * ref(d, x) + p), domain=d)
    g = np.asarray(roots(f))
    k = np.arange(-int(w) - 3, int(w) + 4)
    want = (np.pi * (k + 0.5) - p) / (w * np.pi)
    want = want[np.abs(want) <= 1]
    close(np.sort(ref(d, g)), np.sort(want), 1e-8, 'roots of cos(%g pi x + %g)' % (w, p))


@case('C21', quick=100, contracts=('minandmax', 'minmaxCol'))
def extrema(rng, i):
    mm = need('funpy.fun', 'minandmax')
    d = dom(rng)
    n = int(rng.choice([1, 1, 2, 3, 4, 7, 12, 30, 55]))
    m = int(rng.choice([1, 1, 2, 3]))
    c = rng.uniform(-1, 1, (n, m)) / (1.0 + np.arange(n)[:, None]) ** rng.choice([0, 1, 2])
    if rng.randint(6) == 0:
        c = np.round(3 * c)
        c[0] += 1
    f = fun(c, d)
    vals, pos = mm(f)
    vals, pos = np.asarray(vals), np.asarray(pos)
    check(vals.shape == (2, m) and pos.shape == (2, m), 'shapes %s %s for %d columns' % (vals.shape, pos.shape, m))
    t = np.linspace(-1, 1, 60 * n + 11)
    for j in range(m):
        s = np.sum(np.abs(c[:, j])) + 1e-300
        x = np.clip(ref(d, pos[:, j]), -1, 1)
        check(np.all(pos[:, j] >= d[0] - 1e-14 * 4) and np.all(pos[:, j] <= d[1] + 1e-14 * 4), 'positions %s outside %s' % (brief(pos), d))
        close(NC.chebval(x, c[:, j]), vals[:, j], 1e-10, 'extrema are attained at the reported positions, column %d of %s' % (j, brief(c)), scale=s)
        v = NC.chebval(t, c[:, j])
        check(np.min(v) >= vals[0, j] - 1e-9 * s and np.max(v) <= vals[1, j] + 1e-9 * s, 'column %d of %s takes values in [%.15g, %.15g], reported [%.15g, %.15g]' % (j, brief(c), np.min(v), np.max(v), vals[0, j], vals[1, j]))


@case('C21', quick=40, contracts=('trigtech.minandmax',))
def fourier_extrema(rng, i):
    mm, Fun = need('funpy.fun', 'minandmax', 'Fun')
    d = dom(rng)
    c, _ = triggen.coef(rng, m=1, real=True, nmax=14)
    f = Fun(onefun=triggen.tech(c), domain=d)
    vals, pos = mm(f)
    t = np.linspace(-1, 1, 801)
    v = triggen.tval(c, t).real[:, 0]
    s = triggen.bound(c)
    check(np.min(v) >= vals[0, 0] - 1e-8 * s and np.max(v) <= vals[1, 0] + 1e-8 * s, 'takes values in [%.15g, %.15g], reported %s' % (np.min(v), np.max(v), brief(vals)))
    x = np.clip(ref(d, np.asarray(pos)[:, 0]), -1, 1)
    check(np.all(np.asarray(pos) >= d[0] - 1e-13) and np.all(np.asarray(pos) <= d[1] + 1e-13), 'positions')
    close(triggen.tval(c, x).real[:, 0], np.asarray(vals)[:, 0], 1e-8, 'attained', scale=s)


@case('C21', quick=60, contracts=('roots', 'roots_main'))
def ends(rng, i):
    """several zeros within the tolerance outside or at the ends"""
    roots = need('funpy.fun', 'roots')
    d = dom(rng)
    k = int(rng.choice([1, 2, 2, 3]))
    side = [1.0] if i % 3 == 0 else [-1.0] if i % 3 == 1 else [1.0, -1.0]
    z = np.concatenate([s * (1 + (rng.uniform(1e-5, 8e-5, k) if k < 3 else np.array([0.0, 2e-5, 8e-5]))) for s in side])
    c = NC.chebfromroots(z)
    f = fun((c / np.max(np.abs(c)))[:, None], d, eps=1e-6)
    g = np.atleast_1d(np.asarray(roots(f)))
    check(np.all(g >= d[0]) and np.all(g <= d[1]), 'zeros at %s of the reference interval: reported %s outside %s' % (brief(z), g.tolist(), d))
    check(np.all(np.abs(NC.chebval(ref(d, g), c)) <= 1e-3 * np.max(np.abs(c))), 'the function vanishes at the reported points')
