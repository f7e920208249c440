from triggen import *
import operator

OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul}
IOPS = {'+=': operator.iadd, '-=': operator.isub, '*=': operator.imul}


def pair(rng):
    c, _ = coef(rng)
    d, _ = coef(rng, m=c.shape[1])
    r = rng.randint(7)
    if r == 6 and c.shape[1] > 1:       # columns of very different degrees
        c, _ = coef(rng, n=int(rng.choice([9, 13])), m=c.shape[1], decay=False)
        d, _ = coef(rng, n=int(rng.choice([7, 9, 11])), m=c.shape[1], decay=False)
        j = int(rng.randint(c.shape[1]))
        for e in (c, d):
            e[np.abs(modes(e.shape[0])) > 1, j] = 0
        return np.asfortranarray(c), np.asfortranarray(d)
    if r == 0:
        d = c.copy(order='F')
    elif r == 1:
        d, _ = coef(rng, n=c.shape[0], m=c.shape[1])
    elif r == 2:
        d = np.conj(c[::-1]).copy(order='F') if c.shape[0] % 2 else d
    elif r == 3:
        d = -c
    return np.asfortranarray(c), np.asfortranarray(d)


def wrap(rng, c, d):
    if rng.randint(3) == 0:
        Fun = need('funpy.fun', 'Fun')
        dom = np.array([-1.0, 1.0])
        return Fun(onefun=tech(c), domain=dom), Fun(onefun=tech(d), domain=dom)
    return tech(c), tech(d)


def compare(h, want, c, d, what, tol=1e-8):
    n = 2 * (c.shape[0] + d.shape[0]) + 3
    x = np.linspace(-1, 1, n)
    check(h.shape[1] == c.shape[1], '%s: %s columns' % (what, h.shape))
    s = bound(c) * bound(d) * 10
    close(at(h, x), want(x), tol, what + ' c=%s d=%s' % (brief(c), brief(d)), scale=s)
    consistent(getattr(h, 'onefun', h), what + ' c=%s d=%s' % (brief(c), brief(d)), 1e-10)


def aliased(c, d, o):
    """sums of even lengths: the highest modes of both are cosines, the sum is exact; products of even lengths too"""
    return False


@case('C09', quick=300, contracts=('add', 'subtract', 'multiply'))
def binary(rng, i):
    c, d = pair(rng)
    f, g = wrap(rng, c, d)
    s, t = snapshot(f), snapshot(g)
    o = ['+', '-', '*'][i % 3]
    h = OPS[o](f, g)
    what = 'f %s g (n=%d,%d m=%d)' % (o, c.shape[0], d.shape[0], c.shape[1])
    unchanged(f, s, 'left operand of ' + what)
    unchanged(g, t, 'right operand of ' + what)
    compare(h, lambda x: OPS[o](tval(c, x), tval(d, x)), c, d, what)
    h.coeffs[...] = 3
    h.values[...] = 3
    unchanged(f, s, 'left operand by writing to the result of ' + what)
    unchanged(g, t, 'right operand by writing to the result of ' + what)


@case('C09', quick=250, contracts=('add', 'subtract', 'multiply'))
def inplace(rng, i):
    c, d = pair(rng)
    f, g = wrap(rng, c, d)
    t = snapshot(g)
    o = ['+=', '-=', '*='][i % 3]
    h = IOPS[o](f, g)
    what = 'f %s g (n=%d,%d m=%d)' % (o, c.shape[0], d.shape[0], c.shape[1])
    check(h is f, what + ' returns another object')
    unchanged(g, t, 'right operand of ' + what)
    compare(f, lambda x: OPS[o[0]](tval(c, x), tval(d, x)), c, d, what)


@case('C09', quick=250, contracts=('add', 'subtract', 'multiply', 'true_divide', 'negative'))
def scalar(rng, i):
    c, real = coef(rng)
    f, _ = wrap(rng, c, c)
    s = [2.0, -1.5, 0.5, 1.0, -1.0, float(rng.uniform(-3, 3)), 1j, 1 - 2j, -0.5 - 0.25j, 3][rng.randint(10)]
    p = snapshot(f)
    forms = {
        'f+s': (lambda: f + s, lambda v: v + s), 's+f': (lambda: s + f, lambda v: v + s),
        'f-s': (lambda: f - s, lambda v: v - s), 's-f': (lambda: s - f, lambda v: s - v),
        'f*s': (lambda: f * s, lambda v: v * s), 's*f': (lambda: s * f, lambda v: v * s),
        '-f': (lambda: -f, lambda v: -v), 'f/s': (lambda: f / s, lambda v: v / s), '+f': (lambda: +f, lambda v: v),
    }
    names = sorted(forms)
    nm = names[i % len(names)]
    h = forms[nm][0]()
    what = '%s, s=%r n=%d real=%s' % (nm, s, c.shape[0], real)
    unchanged(f, p, 'operand of ' + what)
    compare(h, lambda x: forms[nm][1](tval(c, x)), c, np.array([[abs(s) + 1]]), what)


@case('C09', quick=150, contracts=('add', 'subtract', 'multiply', 'true_divide'))
def scalar_inplace(rng, i):
    c, real = coef(rng)
    f, _ = wrap(rng, c, c)
    s = [2.0, -1.5, 0.5, float(rng.uniform(0.3, 3)), 1j, 1 - 2j, -0.5 - 0.25j][rng.randint(7)]
    o = i % 4
    w = [lambda v: v + s, lambda v: v - s, lambda v: v * s, lambda v: v / s][o]
    if o == 0:
        f += s
    elif o == 1:
        f -= s
    elif o == 2:
        f *= s
    else:
        if isinstance(s, complex):
            return
        f /= s
    compare(f, lambda x: w(tval(c, x)), c, np.array([[abs(s) + 1]]), 'in place %s with %r, n=%d real=%s' % ('+-*/'[o], s, c.shape[0], real))


@case('C09', quick=60, contracts=('true_divide', 'power'))
def quotient(rng, i):
    k = int(rng.choice([1, 3, 5, 4]))
    m = 1
    c, _ = coef(rng, n=k, m=m, real=True)
    d, _ = coef(rng, n=int(rng.choice([1, 3, 5])), m=m, real=True)
    d[list(modes(d.shape[0])).index(0)] = 4 + 2 * np.sum(np.abs(d))
    f, g = wrap(rng, c, d)
    s, t = snapshot(f), snapshot(g)
    x = pts(rng, 12)
    F, G = tval(c, x).real, tval(d, x).real
    z = float(rng.uniform(0.5, 2))
    for nm, h, w in (('f/g', f / g, F / G), ('s/g', z / g, z / G), ('g**2', g ** 2, G ** 2), ('f**3', f ** 3, F ** 3), ('s**f', z ** f, z ** F)):
        close(at(h, x), w, 1e-7, '%s, s=%r c=%s d=%s' % (nm, z, brief(c), brief(d)), scale=bound(d) ** 2)
        consistent(getattr(h, 'onefun', h), nm, 1e-10)
    unchanged(f, s, 'operand')
    unchanged(g, t, 'operand')
    f /= g
    close(at(f, x), F / G, 1e-7, 'f /= g', scale=2)
    unchanged(g, t, 'right operand of /=')


@case('C09', quick=40, contracts=('add', 'multiply'))
def sequence(rng, i):
    m = int(rng.choice([1, 2]))
    cs = [coef(rng, m=m, nmax=7)[0][:7] for _ in range(3)]
    cs = [np.asfortranarray(c) for c in cs]
    fs = [tech(c) for c in cs]
    x = np.linspace(-1, 1, 41)
    vs = [tval(c, x) for c in cs]
    log = []
    for k in range(7):
        a, b, t = int(rng.randint(3)), int(rng.randint(3)), int(rng.randint(3))
        o = ['+', '-', '*', '+=', '-=', '*='][rng.randint(6)]
        log.append((o, a, b, t))
        if '*' in o and np.max(np.abs(vs[a])) * np.max(np.abs(vs[b])) > 1e3:
            continue
        if len(o) == 1:
            fs[t] = OPS[o](fs[a], fs[b])
            vs[t] = OPS[o](vs[a], vs[b])
        else:
            fs[a] = IOPS[o](fs[a], fs[b])
            vs[a] = OPS[o[0]](vs[a], vs[b])
        s = max(1.0, max(np.max(np.abs(v)) for v in vs)) ** 2
        for q in range(3):
            close(at(fs[q], x), vs[q], 1e-7, 'function %d after %s, start %s' % (q, log, [brief(c) for c in cs]), scale=s)
