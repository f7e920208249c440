from chebgen import *


def dtol(n, k):
    return 2e-14 * max(n, 4) ** (2 * k)


@case('C02', quick=150, contracts=('diff', 'computeDerCoeffs'))
def derivative(rng, i):
    c = mat(rng, kind=rng.choice(['flat', 'sparse', 'int', 'decay', 'zerotail']))
    n, m = c.shape
    k = int(rng.choice([1, 1, 1, 2, 3, 4, n, n + 1]))
    k = min(k, 6) if k > 6 and n > 6 else k
    f = tech(c, ishappy=True)
    d = np.diff(f, n=k) if k != 1 or rng.randint(2) else np.diff(f)
    check(d.shape[1] == m, 'columns of the derivative: %s' % (d.shape,))
    want = dercoef(c, k)
    # the operand is simplified at its tolerance before differentiating
    L = max(d.shape[0], want.shape[0])
    got, w = np.zeros((L, m)), np.zeros((L, m))
    got[:d.shape[0]] = d.coeffs
    w[:want.shape[0]] = want
    close(got, w, dtol(n, min(k, n)), 'coefficients of derivative %d, n=%d c=%s' % (k, n, brief(c)), scale=bound(c))
    same(f.coeffs, c, 'operand of diff')


@case('C02', quick=80, contracts=('computeDerCoeffs',))
def dercoeffs(rng, i):
    D = need('funpy.cheb.diff', 'computeDerCoeffs')
    c = mat(rng)
    c = c if c.shape[0] > 1 else mat(rng, n=2)
    c0 = c.copy()
    close(np.asarray(D(c)), dercoef(c, 1), 1e-13, 'computeDerCoeffs', scale=bound(c) * c.shape[0] ** 2)
    same(c, c0, 'input of computeDerCoeffs')


@case('C02', quick=120, contracts=('sum',))
def integral(rng, i):
    c = mat(rng)
    n, m = c.shape
    f = tech(c)
    k = np.arange(n)
    w = np.where(k % 2 == 0, 2.0 / (1.0 - k.astype(float) ** 2 + (k == 1)), 0.0)
    close(np.ravel(np.sum(f)), w @ c, 1e-13 * (n + 3), 'sum of n=%d c=%s' % (n, brief(c)), scale=bound(c))
    same(f.coeffs, c, 'operand of sum')


@case('C02', quick=120, contracts=('cumsum',))
def antiderivative(rng, i):
    c = mat(rng)
    n, m = c.shape
    f = tech(c, ishappy=bool(rng.randint(2)))
    g = np.cumsum(f)
    want = NC.chebint(c, 1, lbnd=-1, axis=0)
    x = np.linspace(-1, 1, 2 * n + 5)
    close(at(g, x), val(want, x), 1e-12, 'cumsum values, n=%d c=%s' % (n, brief(c)), scale=bound(c))
    close(at(g, [-1.0]), np.zeros((1, m)), 1e-13, 'cumsum at -1', scale=bound(c))
    same(f.coeffs, c, 'operand of cumsum')


@case('C02', quick=100, contracts=('inner',))
def inner(rng, i):
    c = mat(rng)
    d = mat(rng)
    if rng.randint(4) == 0:
        d = c.copy(order='F')
    f, g = tech(c), tech(d)
    got = np.asarray(np.inner(f, g)).reshape(c.shape[1], d.shape[1])
    want = np.zeros((c.shape[1], d.shape[1]))
    for a in range(c.shape[1]):
        for b in range(d.shape[1]):
            p = NC.chebint(NC.chebmul(c[:, a], d[:, b]), 1, lbnd=-1)
            want[a, b] = NC.chebval(1.0, p)
    close(got, want, 1e-12, 'inner product, n=%d,%d' % (c.shape[0], d.shape[0]), scale=bound(c) * bound(d))
    same(f.coeffs, c, 'left operand of inner')
    same(g.coeffs, d, 'right operand of inner')


def interval(rng):
    a = rng.choice([-1.0, 0.0, -3.5, 2.0, rng.uniform(-5, 5)])
    return np.array([a, a + rng.choice([2.0, 1.0, 0.25, 7.0, rng.uniform(0.1, 9)])])


@case('C02', quick=100, contracts=('Fun.diff', 'Fun.sum', 'Fun.cumsum', 'Fun.inner'))
def on_interval(rng, i):
    Fun = need('funpy.fun', 'Fun')
    c = mat(rng, kind=rng.choice(['flat', 'decay', 'int']), nmax=20)
    n, m = c.shape
    dom = interval(rng)
    h = 0.5 * (dom[1] - dom[0])
    mk = lambda c: Fun(coeffs=c.copy(order='F'), domain=dom.copy(), simplify=False, ishappy=True)
    f = mk(c)
    z = np.linspace(-0.98, 0.98, n + 5)
    x = dom[0] + h * (z + 1)
    k = int(rng.choice([1, 1, 2, 3]))
    d = np.diff(f, n=k) if k > 1 else np.diff(f)
    close(np.asarray(d(x)).reshape(x.size, m), val(dercoef(c, k), z) / h ** k, dtol(n, min(k, n)) / h ** k, 'Fun derivative %d on %s' % (k, dom), scale=bound(c))
    s = NC.chebval(1.0, NC.chebint(c, 1, lbnd=-1, axis=0)) * h
    close(np.ravel(np.sum(f)), np.ravel(s), 1e-12, 'Fun integral on %s' % dom, scale=bound(c) * max(1, h))
    g = np.cumsum(f)
    close(np.asarray(g(x)).reshape(x.size, m), val(NC.chebint(c, 1, lbnd=-1, axis=0), z) * h, 1e-12, 'Fun antiderivative on %s' % dom, scale=bound(c) * max(1, h))
    e = mat(rng, m=m, nmax=20)
    q = mk(e)
    got = np.asarray(np.inner(f, q)).reshape(m, m)
    want = np.array([[NC.chebval(1.0, NC.chebint(NC.chebmul(c[:, a], e[:, b]), 1, lbnd=-1)) for b in range(m)] for a in range(m)]) * h
    close(got, want, 1e-12, 'Fun inner product on %s' % dom, scale=bound(c) * bound(e) * max(1, h))
    close(np.ravel(np.dot(f, q)), np.ravel(np.trace(want)), 1e-12, 'Fun dot on %s' % dom, scale=m * bound(c) * bound(e) * max(1, h))
    nf = np.asarray(f.norm())
    close(np.ravel(nf) ** 2, np.ravel(sum(NC.chebval(1.0, NC.chebint(NC.chebmul(c[:, a], c[:, a]), 1, lbnd=-1)) for a in range(m)) * h), 1e-9,
          'Fun norm squared on %s' % dom, scale=m * bound(c) ** 2 * max(1, h))
    same(f.coeffs, c, 'operand')
    same(q.coeffs, e, 'operand')
    check(np.array_equal(f.domain, dom), 'domain changed')
