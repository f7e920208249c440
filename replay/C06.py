from chebgen import *


def interval(rng):
    a = float(rng.choice([-1.0, 0.0, -3.5, 2.0, 0.1, rng.uniform(-5, 5), rng.uniform(-100, 100)]))
    return np.array([a, a + float(rng.choice([2.0, 1.0, 0.25, 0.2, 7.0, rng.uniform(0.01, 9), 50.0]))])


@case('C06', quick=200, contracts=('Mapping',))
def mapping(rng, i):
    M = need('funpy.mapping', 'Mapping')
    d = interval(rng)
    mp = M(ends=d.copy())
    s = max(1.0, np.max(np.abs(d)))
    close(mp.fwd(-1.0), d[0], 1e-15, 'fwd(-1)', scale=s)
    close(mp.fwd(1.0), d[1], 1e-15, 'fwd(1)', scale=s)
    y = pts(rng, 9)
    w = d[0] + (y + 1) / 2 * (d[1] - d[0])
    close(mp.fwd(y), w, 1e-14, 'fwd on %s' % d, scale=s)
    close(mp(y), w, 1e-14, 'call on %s' % d, scale=s)
    close(np.asarray(mp.bwd(w)).reshape(-1), y, 1e-13, 'bwd on %s' % d, scale=s / (d[1] - d[0]) + 1)
    close(np.asarray(mp.bwd(mp.fwd(y))).reshape(-1), y, 1e-13, 'bwd(fwd) on %s' % d, scale=s / (d[1] - d[0]) + 1)
    close(np.asarray(mp.der(y)).reshape(-1), np.full(9, (d[1] - d[0]) / 2), 1e-14, 'der on %s' % d, scale=s)
    check(mp == M(ends=d.copy()), 'maps of the same interval differ')
    check(not (mp == M(ends=d + np.array([0, 0.5]))), 'maps of different intervals are equal')


@case('C06', quick=100, contracts=('Fun.__init__', 'Fun.__call__'))
def callable_on_interval(rng, i):
    Fun = need('funpy.fun', 'Fun')
    d = interval(rng)
    trig = i % 4 == 3
    L = d[1] - d[0]
    if trig:
        op = lambda x: np.exp(np.sin(2 * np.pi * (x - d[0]) / L))
    else:
        op = lambda x: np.cos(3 * (x - d[0]) / L + d[0]) + (x - d[0]) / L
    lst = rng.randint(2) and not trig
    f = Fun(op=[op, lambda x: (x - d[0]) / L] if lst else op, domain=d.copy(), type='trig' if trig else 'cheb')
    x = d[0] + L * rng.uniform(1e-6, 1 - 1e-6, 15)
    v = np.real(np.asarray(f(x)).reshape(15, -1))
    close(v[:, 0], op(x), 1e-9, 'Fun built from a callable on %s' % d, scale=3)
    if lst:
        close(v[:, 1], (x - d[0]) / L, 1e-9, 'second column on %s' % d, scale=3)
    g = np.asarray(f.x)
    check(np.all(g >= d[0] - 1e-13 * (1 + abs(d[0]))) and np.all(g <= d[1] + 1e-13 * (1 + abs(d[1]))), 'grid points %s outside %s' % (brief(g), d))
    close(np.real(np.asarray(f.values))[:, 0], op(g), 1e-9, 'values at the grid points of %s' % d, scale=3)
    check(np.array_equal(f.domain, d), 'domain changed')


@case('C06', quick=100, contracts=('Fun.__call__',))
def ends(rng, i):
    Fun = need('funpy.fun', 'Fun')
    d = interval(rng)
    c = mat(rng, nmax=12)
    f = Fun(coeffs=c.copy(order='F'), domain=d.copy(), simplify=False)
    try:
        a, b = np.atleast_1d(f(d[0])), np.atleast_1d(f(d[1]))
        z = np.asarray(f(np.asarray(f.x))).reshape(c.shape)
    except AssertionError as e:
        raise Violation('a function on [%r, %r] cannot be evaluated at its own end points or grid points: %s' % (d[0], d[1], e))
    close(a, val(c, -1.0)[0], 1e-10, 'left end of %s' % d, scale=bound(c) * c.shape[0] ** 2)
    close(b, val(c, 1.0)[0], 1e-10, 'right end of %s' % d, scale=bound(c) * c.shape[0] ** 2)
    close(z, f.values, 1e-9, 'grid of %s' % d, scale=bound(c) * c.shape[0] ** 2)
    for out in (d[0] - 0.1 * (d[1] - d[0]), d[1] + 0.1 * (d[1] - d[0])):
        try:
            f(out)
        except (AssertionError, ValueError):
            continue
        raise Violation('evaluation at %r outside %s is accepted' % (out, d))


@case('C06', quick=120, contracts=('Fun.__array_ufunc__', 'Fun.inner'))
def mismatch(rng, i):
    Fun = need('funpy.fun', 'Fun')
    d = interval(rng)
    e = d.copy()
    L = d[1] - d[0]
    h = L * float(rng.choice([0.3, -0.3, 0.01, -0.01, 1.5]))
    k = i % 3
    if k == 0:
        e[0] -= abs(h) if rng.randint(2) else -min(abs(h), 0.4 * L)
    elif k == 1:
        e[1] += abs(h) if rng.randint(2) else -min(abs(h), 0.4 * L)
    else:
        e = e + h
    if rng.randint(2):
        d, e = e, d
    n = int(rng.randint(1, 9))
    f = Fun(coeffs=mat(rng, n=n, m=1, kind='flat'), domain=d.copy(), simplify=False)
    g = Fun(coeffs=mat(rng, n=n, m=1, kind='flat'), domain=e.copy(), simplify=False)
    import operator as O
    ops = [O.add, O.sub, O.mul, O.truediv, O.iadd, O.isub, O.imul, np.inner, np.dot]
    o = ops[rng.randint(len(ops))]
    try:
        o(f, g)
    except ValueError:
        return
    raise Violation('%s of functions on %s and %s is accepted' % (o.__name__, d, e))


@case('C06', quick=60, contracts=('Fun.__array_ufunc__',))
def same_domain_result(rng, i):
    Fun = need('funpy.fun', 'Fun')
    d = interval(rng)
    c, e = mat(rng, m=1, nmax=9), mat(rng, m=1, nmax=9)
    f = Fun(coeffs=c.copy(order='F'), domain=d.copy(), simplify=False)
    g = Fun(coeffs=e.copy(order='F'), domain=d.copy(), simplify=False)
    z = rng.uniform(-0.99, 0.99, 7)
    x = d[0] + (z + 1) / 2 * (d[1] - d[0])
    t = 1e-10
    for nm, h, w in (('+', f + g, val(c, z) + val(e, z)), ('*', f * g, val(c, z) * val(e, z)), ('2f', 2 * f, 2 * val(c, z)), ('f-1', f - 1, val(c, z) - 1),
                     ('f[0]', f[0], val(c, z)), ('copy', np.copy(f), val(c, z)), ('hstack', np.hstack((f, g)), np.hstack((val(c, z), val(e, z)))),
                     ('real', np.real(f), val(c, z))):
        check(np.array_equal(h.domain, d), '%s has domain %s instead of %s' % (nm, h.domain, d))
        close(np.asarray(h(x)).reshape(7, -1), w, t, nm + ' on %s' % d, scale=bound(c) * bound(e) * 100)
