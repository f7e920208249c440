from chebgen import *

FUNS = [
    ('exp', np.exp, True), ('sin3', lambda x: np.sin(3 * x + 0.3), True), ('cos20', lambda x: np.cos(20 * x), True),
    ('sin90', lambda x: np.sin(90 * x), True), ('runge', lambda x: 1 / (1 + 25 * x ** 2), True), ('const', lambda x: 3 + 0 * x, True),
    ('lin', lambda x: 2 * x - 1, True), ('poly', lambda x: x ** 7 - x ** 2, True), ('gauss', lambda x: np.exp(-40 * (x - 0.3) ** 2), True),
    ('abs', np.abs, False), ('abs3', lambda x: np.abs(x - 0.21) ** 3, False), ('step', lambda x: np.where(x > 0.1, 1.0, -1.0), False),
    ('sqrt', lambda x: np.sqrt(np.abs(x + 0.2)), False), ('zero', lambda x: 0 * x, True), ('shift', lambda x: 1.0 / (x - 1.1), True),
]


class Rec:
    """records the points a callable is asked for"""

    def __init__(self, f):
        self.f, self.calls = f, []

    def __call__(self, x):
        self.calls.append(np.array(x, copy=True))
        return self.f(x)


@case('C05', quick=120, contracts=('Refine', 'populate'))
def construct(rng, i):
    chebtech = need('funpy.cheb', 'chebtech')
    nm, fn, smooth = FUNS[i % len(FUNS)]
    op = Rec(fn)
    ml = int(rng.choice([17, 33, 65, 100, 129, 513, 1 + 2 ** 14])) if smooth else int(rng.choice([33, 65, 129, 200, 300]))
    kw = {}
    ms = None
    if rng.randint(2):
        ms = int(rng.choice([2, 3, 9, 10, 17, 18, 33, 40]))
        kw['minSamples'] = ms
    st = 'nested' if rng.randint(3) else 'resample'
    if st == 'resample':
        kw['resample'] = st
    f = chebtech(op=op, maxLength=ml, simplify=False, **kw)
    what = 'chebtech(op=%s, maxLength=%d, %s)' % (nm, ml, kw)
    seen = [c.size for c in op.calls]
    # grids of the successive refinements
    if st == 'nested':
        sizes, tot = [], 0
        for k, c in enumerate(op.calls):
            tot = tot + c.size
            sizes.append(tot)
            g = grid(tot)
            close(c, g if k == 0 else g[1:-1:2], 1e-15, what + ': points asked for at refinement %d' % k, scale=1)
    else:
        sizes = seen
        for k, c in enumerate(op.calls):
            close(c, grid(c.size), 1e-15, what + ': points asked for at refinement %d' % k, scale=1)
    check(all(a < b for a, b in zip(sizes, sizes[1:])), what + ': sizes %s do not grow' % sizes)
    check(max(sizes) <= ml, what + ': sizes %s exceed the maximum length' % sizes)
    check(f.n <= max(sizes), what + ': length %d after sampling %s' % (f.n, sizes))
    check(ms is None or sizes[0] >= min(ms, ml) or sizes[0] == ml, what + ': first size %d below the minimum %s' % (sizes[0], ms))
    x = np.linspace(-1, 1, 301)
    if not f.ishappy:
        check(f.n == max(sizes), what + ': unhappy with length %d after sampling %s' % (f.n, sizes))
        close(f.values, fn(grid(f.n))[:, None], 1e-12, what + ': values of an unresolved function', scale=1)
    if smooth:
        if f.ishappy:
            close(np.ravel(f(x)), fn(x), 1e-9, what + ': reported happy, n=%d' % f.n, scale=max(1, np.max(np.abs(fn(x)))))
        if ml >= 513:
            check(f.ishappy, what + ': not resolved with %s samples' % sizes)
    elif nm != 'abs3':
        check(not f.ishappy, what + ': reported happy with n=%d for a function that is not resolved' % f.n)


@case('C05', quick=40, contracts=('Refine', 'populate'))
def several(rng, i):
    Fun = need('funpy.fun', 'Fun')
    ks = rng.randint(0, 9, size=rng.randint(1, 4))
    ops = [FUNS[k][1] for k in ks]
    dom = np.array([-1.0, 1.0]) if rng.randint(2) else np.array([0.5, 0.5 + rng.uniform(0.5, 2)])
    f = Fun(op=ops if len(ops) > 1 else (ops if rng.randint(2) else ops[0]), domain=dom)
    x = np.linspace(dom[0], dom[1], 203)[1:-1]
    want = np.array([o(x) for o in ops]).T
    close(np.asarray(f(x)).reshape(x.size, -1), want, 1e-9, 'Fun(op=%s) on %s' % ([FUNS[k][0] for k in ks], dom), scale=max(1, np.max(np.abs(want))))
    check(f.ishappy, 'not resolved')


@case('C05', quick=30, contracts=('RefineCompose1', 'RefineCompose2'))
def composition(rng, i):
    comp = need('funpy.cheb.chebtech', 'compose')
    c = mat(rng, kind='fast', m=1, nmax=12)[:12].copy(order='F')
    d = mat(rng, kind='fast', m=1, nmax=12)[:12].copy(order='F')
    c, d = c / bound(c), d / bound(d)
    f, g = tech(c), tech(d)
    x = np.linspace(-1, 1, 101)
    if i % 2:
        h = comp(f, np.exp)
        close(np.ravel(h(x)), np.exp(val(c, x))[:, 0], 1e-10, 'compose(f, exp), f=%s' % brief(c))
    else:
        h = comp(f, lambda a, b: a * b + np.cos(a), g)
        a, b = val(c, x)[:, 0], val(d, x)[:, 0]
        close(np.ravel(h(x)), a * b + np.cos(a), 1e-10, 'compose(f, op, g), f=%s g=%s' % (brief(c), brief(d)))
    sameval(f, c, 'the composed function')
    sameval(g, d, 'the composed function')


@case('C05', quick=60, contracts=('Refine.get_n',))
def sizes(rng, i):
    """a refinement asked repeatedly: sizes grow, stay within the maximum, then it gives up"""
    R = need('funpy.cheb.refine', 'Refine')
    chebtech = need('funpy.cheb', 'chebtech')
    ml = int(rng.choice([17, 20, 33, 64, 65, 129, 500]))
    st = ['nested', 'resample'][i % 2]
    ms = int(rng.choice([3, 9, 17, 17, 20, 33]))
    r = R(op=lambda x: np.sin(50 * x), minSamples=min(ms, ml), strategy=st)
    t = chebtech(coeffs=np.ones((1, 1), order='F'), simplify=False)
    t.coeffs = np.zeros((0, 0), order='F')
    t.maxLength = ml
    last = 0
    for k in range(40):
        v, give = r(t)
        n = v.shape[0]
        close(v, np.sin(50 * grid(n))[:, None], 1e-12, 'values of refinement %d (%s, n=%d)' % (k, st, n))
        check(n <= ml, '%s refinement to %d exceeds the maximum %d' % (st, n, ml))
        if give:
            check(n == last or last == 0, 'gave up and changed the size')
            return
        check(n > last, '%s refinement did not grow: %d after %d' % (st, n, last))
        last = n
        t.coeffs = np.zeros((n, 1), order='F')
    raise Violation('refinement never gives up')


@case('C05', quick=20, contracts=('Refine',))
def trig_construct(rng, i):
    trigtech = need('funpy.trig', 'trigtech')
    k = int(rng.randint(1, 7))
    fs = [lambda x: np.cos(k * np.pi * x) + 0.5 * np.sin(np.pi * x), lambda x: np.exp(np.sin(np.pi * x)), lambda x: 1 / (1.5 + np.cos(np.pi * x)),
          lambda x: 2 + 0 * x]
    fn = fs[i % 4]
    op = Rec(fn)
    f = trigtech(op=op, **({} if i % 3 else dict(resample='resample')))
    x = np.linspace(-1, 1, 203)
    close(np.ravel(np.real(f(x))), fn(x), 1e-9, 'trigtech(op) case %d k=%d' % (i % 4, k), scale=3)
    check(f.ishappy, 'not resolved')
    check(max(c.size for c in op.calls) <= f.maxLength, 'exceeds the maximum length')


@case('C05', quick=60, contracts=('trigtech.populate', 'trigtech.happy', 'Refine.__call__#trig'))
def trig_modes(rng, i):
    """sums of few modes, positive and negative ones, real and complex: resolved functions are reproduced"""
    trigtech = need('funpy.trig', 'trigtech')
    ks = rng.choice(np.arange(-7, 8), size=rng.randint(1, 5), replace=False)
    cs = rng.uniform(0.5, 2, ks.size) * np.exp(2j * np.pi * rng.rand(ks.size))
    z = lambda x: sum(c * np.exp(1j * np.pi * k * x) for c, k in zip(cs, ks))
    fn = (lambda x: np.real(z(x))) if i % 2 else z
    f = trigtech(op=fn, **({} if i % 3 else dict(resample='resample')))
    x = np.linspace(-1, 1, 203)
    check(f.ishappy, 'not resolved: modes %s' % ks)
    close(np.ravel(f(x)), fn(x), 1e-8, 'trigtech(op) modes %s coefficients %s real=%s' % (ks, cs, bool(i % 2)), scale=3)
