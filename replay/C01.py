from chebgen import *


@case('C01', quick=150, contracts=('clenshaw_scalar', 'clenshaw_vector', 'feval'))
def evaluate(rng, i):
    c = mat(rng)
    f = tech(c)
    c0 = frozen(f.coeffs)
    x = pts(rng)
    x0 = x.copy()
    v = f(x)
    n, m = c.shape
    want = val(c, x)
    close(np.asarray(v).reshape(-1), want.squeeze().reshape(-1), 1e-13 * (n + 3), 'f(x) at x=%s, n=%d m=%d' % (brief(x), n, m), scale=bound(c))
    check(np.asarray(v).shape == want.squeeze().shape, 'shape of f(x): %s' % (np.asarray(v).shape,))
    same(x, x0, 'the points')
    same(f.coeffs, c0, 'the coefficients, by evaluating')
    v2 = f.feval(x)
    close(v2, v, 0, 'second evaluation', scale=1)
    s = float(x[0])
    close(np.asarray(f(s)).reshape(-1), want[0], 1e-13 * (n + 3), 'f(scalar %r)' % s, scale=bound(c))


@case('C01', quick=12, contracts=('clenshaw_scalar', 'clenshaw_vector'))
def evaluate_long(rng, i):
    c = mat(rng, n=int(rng.choice([64, 127, 128, 500, 1025, 3001])), m=int(rng.choice([1, 3])), kind='decay')
    f = tech(c)
    x = pts(rng, 23)
    close(at(f, x), val(c, x), 1e-11, 'f(x), n=%d' % c.shape[0], scale=bound(c))


@case('C01', quick=80, contracts=('lval', 'rval', 'flipud', 'fliplr', '__getitem__'))
def ends_and_views(rng, i):
    c = mat(rng)
    n, m = c.shape
    f = tech(c)
    t = 1e-12
    close(np.atleast_1d(f.lval()), val(c, -1.0)[0], t, 'lval', scale=bound(c))
    close(np.atleast_1d(f.rval()), val(c, 1.0)[0], t, 'rval', scale=bound(c))
    x = pts(rng, 9)
    close(at(f.flipud(), x), val(c, -x), t, 'flipud', scale=bound(c))
    close(at(f.fliplr(), x), val(c, x)[:, ::-1], t, 'fliplr', scale=bound(c))
    j = int(rng.randint(m))
    close(at(f[j], x), val(c, x)[:, [j]], t, 'f[%d]' % j, scale=bound(c))
    a = int(rng.randint(m))
    b = int(rng.randint(a + 1, m + 1))
    close(at(f[a:b], x), val(c, x)[:, a:b], t, 'f[%d:%d]' % (a, b), scale=bound(c))
    same(f.coeffs, c, 'the coefficients')
    for bad in (m, -1):
        try:
            f[bad]
        except IndexError:
            continue
        raise Violation('f[%d] of %d columns did not raise' % (bad, m))


@case('C01', quick=100, contracts=('polyval', 'polyfit'))
def transforms(rng, i):
    polyfit, polyval = need('funpy.cheb.detail', 'polyfit', 'polyval')
    c = mat(rng)
    n, m = c.shape
    c0 = c.copy()
    v = np.asarray(polyval(c))
    same(c, c0, 'the coefficients, by polyval')
    want = val(c, grid(n))
    t = 1e-13 * (n + 4)
    close(v, want, t, 'polyval: values on the grid', scale=bound(c))
    v0 = v.copy()
    close(np.asarray(polyfit(v)), c, t, 'polyfit(polyval(c))', scale=bound(c))
    same(v, v0, 'the values, by polyfit')
    f = tech(c)
    close(f.values, want, t, 'f.values', scale=bound(c))
    close(at(f, f.x), f.values, t, 'f(f.x) against f.values', scale=bound(c))
    w = rng.uniform(-1, 1, (n, m))
    w = np.asfortranarray(w) if rng.randint(2) else w
    chebtech = need('funpy.cheb', 'chebtech')
    g = chebtech.from_values(w, simplify=False)
    close(g.values, w, t, 'from_values(v).values')
    close(at(g, grid(n)), w, t, 'from_values(v)(grid)')
    h = chebtech(op=w.copy(), simplify=False)
    close(h.values, w, t, 'chebtech(op=v).values')


@case('C01', quick=40, contracts=('feval',))
def fun_level(rng, i):
    Fun = need('funpy.fun', 'Fun')
    c = mat(rng)
    f = Fun(coeffs=c.copy(order='F'), simplify=False)
    x = pts(rng, 7)
    close(np.asarray(f(x)).reshape(7, -1), val(c, x), 1e-12, 'Fun(x)', scale=bound(c))
    same(f.coeffs, c, 'coefficients')
    np.asarray(f.values), f.lval(), f.rval()
    same(f.coeffs, c, 'coefficients')
    close(np.asarray(f(x)).reshape(7, -1), val(c, x), 1e-12, 'Fun(x) again', scale=bound(c))
