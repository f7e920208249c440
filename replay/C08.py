from triggen import *


@case('C08', quick=200, contracts=('diff',))
def derivative(rng, i):
    c, real = coef(rng)
    n, m = c.shape
    k = int(rng.choice([1, 1, 2, 3, 4]))
    f = tech(c)
    s = snapshot(f)
    d = np.diff(f, n=k) if k > 1 or rng.randint(2) else np.diff(f)
    unchanged(f, s, 'by diff')
    q = modes(n)[:, None]
    w = c * (1j * np.pi * q) ** k
    lo = 1 if n % 2 == 0 and k % 2 else 0       # the cosine of the highest even mode has no odd derivative on the grid
    what = 'derivative %d, n=%d real=%s c=%s' % (k, n, real, brief(c))
    check(d.shape == (n, m), what + ': shape %s' % (d.shape,))
    close(d.coeffs[lo:], w[lo:], 1e-12, what, scale=bound(w))
    if not lo:
        consistent(d, what)
        x = pts(rng, 7)
        close(at(d, x), tval(w, x), 1e-10, what + ': values', scale=bound(w))


@case('C08', quick=150, contracts=('sum',))
def integral(rng, i):
    c, real = coef(rng)
    n, m = c.shape
    f = tech(c)
    s = snapshot(f)
    got = np.ravel(np.sum(f))
    close(got, 2 * c[list(modes(n)).index(0)], 1e-13, 'sum, n=%d real=%s c=%s' % (n, real, brief(c)), scale=bound(c))
    unchanged(f, s, 'by sum')
    Fun = need('funpy.fun', 'Fun')
    d = np.array([0.0, float(rng.uniform(0.3, 7))]) + float(rng.uniform(-2, 2))
    F = Fun(onefun=tech(c), domain=d)
    close(np.ravel(np.sum(F)), (d[1] - d[0]) * c[list(modes(n)).index(0)], 1e-12, 'Fun sum on %s' % d, scale=bound(c) * (d[1] - d[0] + 1))
    if n % 2:
        g = np.diff(F)
        h = 0.5 * (d[1] - d[0])
        x = d[0] + h * (1 + rng.uniform(-0.99, 0.99, 5))
        w = c * (1j * np.pi * modes(n)[:, None])
        close(np.asarray(g(x)).reshape(5, m), tval(w, (x - d[0]) / h - 1) / h, 1e-10, 'Fun derivative on %s' % d, scale=bound(w) / h)


@case('C08', quick=150, contracts=('circshift',))
def shift(rng, i):
    shiftf = need('funpy.trig.operations', 'circshift')
    c, real = coef(rng)
    n, m = c.shape
    a = float(rng.choice([0.0, 1.0, -1.0, 0.5, rng.uniform(-2, 2)]))
    f = tech(c)
    s = snapshot(f)
    g = shiftf(f, a)
    unchanged(f, s, 'by shifting')
    lo = 1 if n % 2 == 0 else 0
    w = c * np.exp(-1j * np.pi * a * modes(n))[:, None]
    what = 'shift by %r, n=%d real=%s c=%s' % (a, n, real, brief(c))
    close(g.coeffs[lo:], w[lo:], 1e-12, what, scale=bound(c))
    if n % 2:
        x = pts(rng, 7)
        close(at(g, x), tval(c, x - a), 1e-11, what + ': values', scale=bound(c))
        consistent(g, what)


@case('C08', quick=150, contracts=('cumsum',))
def antiderivative(rng, i):
    c, real = coef(rng)
    n, m = c.shape
    c[list(modes(n)).index(0)] = 0
    f = tech(c)
    s = snapshot(f)
    p = int(rng.choice([1, 1, 2, 3]))
    g = np.cumsum(f, p) if p > 1 else np.cumsum(f)
    what = 'cumsum %d, n=%d real=%s c=%s' % (p, n, real, brief(c))
    unchanged(f, s, 'by ' + what)
    check(g.shape == (n, m), what + ': shape %s' % (g.shape,))
    lo = 1 if n % 2 == 0 and p % 2 else 0
    q = modes(n)[:, None]
    close((g.coeffs * (1j * np.pi * q) ** p)[lo:], c[lo:], 1e-12, what + ': derivative', scale=bound(c))
    close(at(g, [-1.0]), np.zeros((1, m)), 1e-11, what + ': value at -1', scale=bound(c))
    consistent(g, what)


@case('C08', quick=30, contracts=('cumsum',))
def antiderivative_needs_zero_mean(rng, i):
    c, real = coef(rng)
    n, m = c.shape
    c[list(modes(n)).index(0), int(rng.randint(m))] += 1.5
    if abs(c[list(modes(n)).index(0)]).max() < 0.1:
        return
    f = tech(c)
    try:
        np.cumsum(f)
    except RuntimeError:
        return
    raise Violation('cumsum of a function with mean %s is accepted' % brief(c[list(modes(n)).index(0)]))


@case('C08', quick=200, contracts=('real', 'imag', 'conj'))
def parts(rng, i):
    c, real = coef(rng)
    if rng.randint(4) == 0:
        c[list(modes(c.shape[0])).index(0)] -= 5
    if c.shape[1] > 1 and rng.randint(2):
        c[:, int(rng.randint(2))] = coef(rng, n=c.shape[0], m=1, real=True)[0][:, 0]
    f = tech(c)
    s = snapshot(f)
    nm, op = [('real', np.real), ('imag', np.imag), ('conj', np.conj)][i % 3]
    g = op(f)
    what = '%s, n=%d real=%s c=%s' % (nm, c.shape[0], real, brief(c))
    unchanged(f, s, 'by ' + what)
    x = np.concatenate((tgrid(c.shape[0]), pts(rng, 5)))
    w = tval(c, x)
    n = c.shape[0]
    close(at(g, x), op(w), 1e-10, what, scale=bound(c))
    consistent(g, what)
    if n % 2:
        Fun = need('funpy.fun', 'Fun')
        F = op(Fun(onefun=tech(c), domain=np.array([0.0, 1.0])))
        y = rng.uniform(0.01, 0.99, 5)
        close(np.asarray(F(y)).reshape(5, -1), op(tval(c, 2 * y - 1)), 1e-10, 'Fun ' + what, scale=bound(c))


@case('C08', quick=80, contracts=('inner',))
def inner(rng, i):
    c, r1 = coef(rng, m=1)
    d, r2 = coef(rng, m=1)
    f, g = tech(c), tech(d)
    s, t = snapshot(f), snapshot(g)
    got = np.ravel(np.inner(f, g))
    N = 4 * (c.shape[0] + d.shape[0])
    w = np.mean(tval(c, tgrid(N)) * np.conj(tval(d, tgrid(N)))) * 2
    close(got, np.array([w]), 1e-11, 'inner product n=%d,%d' % (c.shape[0], d.shape[0]), scale=bound(c) * bound(d))
    unchanged(f, s, 'left operand of inner')
    unchanged(g, t, 'right operand of inner')
