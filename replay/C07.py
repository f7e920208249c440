from triggen import *


@case('C07', quick=200, contracts=('horner',))
def evaluate(rng, i):
    c, real = coef(rng)
    f = tech(c)
    s = snapshot(f)
    x = pts(rng)
    x0 = x.copy()
    what = 'n=%d m=%d real=%s x=%s c=%s' % (c.shape + (real, brief(x), brief(c)))
    w = tval(c, x)
    close(at(f, x), w.real if real else w, 1e-11, 'f(x), ' + what, scale=bound(c))
    same(x, x0, 'the points')
    unchanged(f, s, 'by evaluating, ' + what)
    close(at(f, x), w, 1e-11, 'f(x) again, ' + what, scale=bound(c))
    close(np.asarray(f(float(x[0]))).reshape(-1), w[0], 1e-11, 'f(scalar), ' + what, scale=bound(c))
    check(np.asarray(f(x)).shape == w.squeeze().shape, 'shape of f(x): %s for %s' % (np.asarray(f(x)).shape, what))


@case('C07', quick=60, contracts=('horner',))
def mixed_columns(rng, i):
    n = int(rng.randint(1, 14))
    a, _ = coef(rng, n=n, m=1, real=True)
    b, _ = coef(rng, n=n, m=1, real=False)
    c = np.hstack((a, b) if rng.randint(2) else (b, a))
    f = tech(c)
    s = snapshot(f)
    x = pts(rng, 6)
    close(at(f, x), tval(c, x), 1e-11, 'real and complex columns, c=%s' % brief(c), scale=bound(c))
    unchanged(f, s, 'by evaluating')
    for j in range(2):
        close(at(f[j], x), tval(c[:, [j]], x), 1e-11, 'column %d, c=%s' % (j, brief(c)), scale=bound(c))


@case('C07', quick=150, contracts=('coeffs2vals', 'vals2coeffs'))
def transforms(rng, i):
    c2v, v2c = need('funpy.trig.transform', 'coeffs2vals', 'vals2coeffs')
    c, real = coef(rng, decay=False)
    n, m = c.shape
    if rng.randint(5) == 0:
        c = np.asfortranarray(c.real + 0j)
    if rng.randint(5) == 0:
        c = np.asfortranarray(1j * c.imag)
    c0 = c.copy()
    v = np.asarray(c2v(c))
    same(c, c0, 'input of coeffs2vals')
    close(v, tval(c, tgrid(n)), 1e-12, 'coeffs2vals n=%d c=%s' % (n, brief(c)), scale=bound(c))
    v0 = v.copy()
    close(np.asarray(v2c(v)), c, 1e-12, 'vals2coeffs(coeffs2vals(c)), c=%s' % brief(c), scale=bound(c))
    same(v, v0, 'input of vals2coeffs')
    trigtech = need('funpy.trig', 'trigtech')
    f = tech(c)
    consistent(f, 'trigtech(coeffs=c)', 1e-12)
    w = rng.uniform(-1, 1, (n, m)) + (0 if rng.randint(2) else 1j * rng.uniform(-1, 1, (n, m)))
    w0 = w.copy()
    for g in (trigtech(values=w.copy()), trigtech(op=w.copy())):
        consistent(g, 'trigtech(values=v)', 1e-12)
        close(g.values, w0, 1e-12, 'values given')
        close(at(g, tgrid(n)), w0, 1e-11, 'trigtech(values=v) at the grid', scale=3)
    close(f.x, tgrid(n), 1e-14, 'grid of the function')
    close(at(f, f.x), f.values, 1e-11, 'f(f.x) against f.values', scale=bound(c))


@case('C07', quick=250, contracts=('trigtech.prolong', 'prolong_coeffs', 'prolong'))
def resize(rng, i):
    c, real = coef(rng)
    n, m = c.shape
    N = int(rng.choice([n, n + 1, n + 2, n + 3, 2 * n, 2 * n + 1, rng.randint(1, 2 * n + 5)]))
    P = need('funpy.trig.trig_simplify', 'prolong')
    f = tech(c)
    s = snapshot(f)
    what = 'from %d to %d, real=%s c=%s' % (n, N, real, brief(c))
    q = np.asarray(f.prolong_coeffs(N))
    unchanged(f, s, 'by prolong_coeffs ' + what)
    r = P(c.copy(order='F'), N, f.isReal)
    g = f.prolong(N)
    check(g.shape == (N, m), 'prolong %s: shape %s' % (what, g.shape))
    consistent(g, 'prolong ' + what)
    outs = [('prolong_coeffs', q), ('trig_simplify.prolong', np.asarray(r[0])), ('prolong', g.coeffs)]
    x = pts(rng, 9)
    for nm, o in outs:
        check(o.shape == (N, m), '%s %s: shape %s' % (nm, what, o.shape))
        if N >= n:
            close(o, extended(c, N), 1e-13, '%s %s: coefficients' % (nm, what), scale=bound(c))
        else:
            w = np.array([c[list(modes(n)).index(k)] if not (n % 2 == 0 and k == modes(n)[0]) else 0 * c[0] for k in modes(N)])
            lo = 1 if N % 2 == 0 else 0
            close(o[lo:], w[lo:], 1e-13, '%s %s: remaining modes' % (nm, what), scale=bound(c))
    if N >= n:
        close(at(g, x), tval(c, x), 1e-11, 'values after prolong ' + what, scale=bound(c))
    close(np.asarray(r[1]), tval(np.asarray(r[0]), tgrid(N)), 1e-11, 'values returned by trig_simplify.prolong ' + what, scale=2 * bound(c)) if not real or N >= n or N % 2 else None


@case('C07', quick=80, contracts=('prolong',))
def repeated(rng, i):
    """a history of evaluations and resizings"""
    c, real = coef(rng)
    f = tech(c)
    x = pts(rng, 5)
    w = tval(c, x)
    log = []
    for k in range(6):
        o = rng.randint(3)
        if o == 0:
            N = f.shape[0] + int(rng.randint(0, 6))
            log.append('prolong(%d)' % N)
            f.prolong(N)
        elif o == 1:
            log.append('f(x)')
            f(x)
        else:
            log.append('prolong_coeffs')
            f.prolong_coeffs(f.shape[0] + 3)
        close(at(f, x), w, 1e-11, 'values after %s, c=%s' % (log, brief(c)), scale=bound(c))


@case('C07', quick=120, contracts=('simplify_coeffs',))
def simplify(rng, i):
    c, real = coef(rng, nmax=60, decay=True)
    n, m = c.shape
    k = np.abs(modes(n))[:, None]
    r = rng.randint(3)
    if r == 0:
        c = c * 10.0 ** (-k * rng.uniform(0.2, 1.5))
    elif r == 1:
        c = c * (k <= max(1, n // 6))
    c = np.asfortranarray(c)
    f = tech(c)
    x = pts(rng, 9)
    g = f.simplify()
    check(g.shape[0] <= n + 1, 'simplify: %d coefficients from %d' % (g.shape[0], n))
    consistent(g, 'simplify of c=%s' % brief(c))
    close(at(g, x), tval(c, x), 1e-5 if r == 0 else 3e-6, 'values after simplify, real=%s c=%s' % (real, brief(c)), scale=bound(c))
