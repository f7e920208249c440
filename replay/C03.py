from chebgen import *
import operator


def pair(rng):
    c = mat(rng)
    d = mat(rng, m=c.shape[1])
    r = rng.randint(6)
    if r == 0:
        d = c.copy(order='F')
    elif r == 1:
        d = -c
    elif r == 2:
        d = mat(rng, n=c.shape[0], m=c.shape[1])
    return np.asfortranarray(c), np.asfortranarray(d)


OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul}
IOPS = {'+=': operator.iadd, '-=': operator.isub, '*=': operator.imul}


def wrap(rng, c, d):
    """both as plain or as Fun objects"""
    if rng.randint(3) == 0:
        Fun = need('funpy.fun', 'Fun')
        dom = np.array([-1.0, 1.0])
        mk = lambda a: Fun(coeffs=a.copy(order='F'), domain=dom, simplify=False)
        return mk(c), mk(d)
    return tech(c), tech(d)


def compare(h, want, c, d, what, tol=3e-13):
    x = np.linspace(-1, 1, 2 * (c.shape[0] + d.shape[0]) + 3)
    if h.shape[1] != c.shape[1]:
        raise Violation('%s: %s columns' % (what, h.shape))
    s = bound(c) * max(1.0, bound(d))
    close(at(h, x), want(x), tol, what + ' c=%s d=%s' % (brief(c), brief(d)), scale=max(s, bound(d)))


@case('C03', quick=250, contracts=('add', 'subtract', 'multiply'))
def binary(rng, i):
    c, d = pair(rng)
    f, g = wrap(rng, c, d)
    o = ['+', '-', '*'][i % 3]
    h = OPS[o](f, g)
    compare(h, lambda x: OPS[o](val(c, x), val(d, x)), c, d, 'f %s g (n=%d,%d m=%d)' % (o, c.shape[0], d.shape[0], c.shape[1]))
    check(h is not f and h is not g, 'the result is an operand')
    same(f.coeffs, c, 'left operand of ' + o)
    same(g.coeffs, d, 'right operand of ' + o)
    # the result is independent of the operands
    h.coeffs[...] = 7.0
    same(f.coeffs, c, 'left operand of %s, by writing to the result' % o)
    same(g.coeffs, d, 'right operand of %s, by writing to the result' % o)


@case('C03', quick=200, contracts=('add', 'subtract', 'multiply'))
def inplace(rng, i):
    c, d = pair(rng)
    f, g = wrap(rng, c, d)
    o = ['+=', '-=', '*='][i % 3]
    h = IOPS[o](f, g)
    compare(h, lambda x: OPS[o[0]](val(c, x), val(d, x)), c, d, 'f %s g (n=%d,%d m=%d)' % (o, c.shape[0], d.shape[0], c.shape[1]))
    sameval(g, d, 'right operand of ' + o)
    same(g.coeffs, d, 'right operand of ' + o)


@case('C03', quick=200, contracts=('add', 'subtract', 'multiply', 'true_divide', 'negative'))
def scalar(rng, i):
    c = mat(rng)
    f, _ = wrap(rng, c, c)
    s = float(rng.choice([2.0, -1.5, 0.5, 1.0, 0.0, -1.0, rng.uniform(-3, 3)]))
    s = int(rng.randint(-3, 4)) if rng.randint(4) == 0 else s
    s = np.float64(s) if rng.randint(5) == 0 else s
    forms = {
        'f+s': (lambda: f + s, lambda v: v + s), 's+f': (lambda: s + f, lambda v: v + s),
        'f-s': (lambda: f - s, lambda v: v - s), 's-f': (lambda: s - f, lambda v: s - v),
        'f*s': (lambda: f * s, lambda v: v * s), 's*f': (lambda: s * f, lambda v: v * s),
        '-f': (lambda: -f, lambda v: -v), '+f': (lambda: +f, lambda v: v),
        'f/s': (lambda: f / s, lambda v: v / s),
    }
    names = sorted(forms)
    nm = names[i % len(names)]
    if nm == 'f/s' and s == 0:
        return
    h = forms[nm][0]()
    compare(h, lambda x: forms[nm][1](val(c, x)), c, np.array([[max(1.0, abs(s), 1 / abs(s) if s else 1.0)]]), '%s, s=%r' % (nm, s))
    same(f.coeffs, c, 'operand of ' + nm)


@case('C03', quick=120, contracts=('add', 'subtract', 'multiply', 'true_divide'))
def scalar_inplace(rng, i):
    c = mat(rng)
    f, _ = wrap(rng, c, c)
    s = float(rng.choice([2.0, -1.5, 0.5, 1.0, -1.0, rng.uniform(-3, 3)]))
    o = i % 4
    x = np.linspace(-1, 1, 2 * c.shape[0] + 3)
    v = val(c, x)
    if o == 0:
        f += s
        w = v + s
    elif o == 1:
        f -= s
        w = v - s
    elif o == 2:
        f *= s
        w = v * s
    else:
        f /= s
        w = v / s
    close(at(f, x), w, 3e-13, 'in place operation %s with scalar %r, c=%s' % ('+-*/'[o], s, brief(c)), scale=bound(c) * max(1, abs(s), 1 / abs(s)))


@case('C03', quick=60, contracts=('true_divide', 'power'))
def quotient(rng, i):
    c = mat(rng, kind='fast', nmax=20)
    d = mat(rng, m=c.shape[1], kind='fast', nmax=12)
    d[0, :] = 3.0 + np.sum(np.abs(d[1:, :]), axis=0) if d.shape[0] > 1 else 3.0
    if c.shape[0] > 15:
        c = c[:15].copy(order='F')
    f, g = wrap(rng, c, d)
    x = np.linspace(-1, 1, 101)
    q = f / g
    close(at(q, x), val(c, x) / val(d, x), 1e-11, 'f / g, c=%s d=%s' % (brief(c), brief(d)), scale=bound(c))
    s = float(rng.uniform(0.5, 3))
    r = s / g
    close(at(r, x), s / val(d, x), 1e-11, 's / g', scale=1 + s)
    p = g ** 2
    close(at(p, x), val(d, x) ** 2, 1e-11, 'g ** 2', scale=bound(d) ** 2)
    same(f.coeffs, c, 'left operand of /')
    same(g.coeffs, d, 'right operand of /')


@case('C03', quick=60, contracts=('hstack',))
def stack(rng, i):
    k = int(rng.randint(1, 5))
    cs = [mat(rng) for _ in range(k)]
    fs = [tech(c) for c in cs]
    if rng.randint(2):
        Fun = need('funpy.fun', 'Fun')
        fs = [Fun(onefun=f, domain=np.array([-1.0, 1.0])) for f in fs]
    h = np.hstack(fs)
    x = pts(rng, 11)
    close(at(h, x), np.hstack([val(c, x) for c in cs]), 1e-12, 'hstack', scale=max(bound(c) for c in cs))
    for f, c in zip(fs, cs):
        same(f.coeffs, c, 'operand of hstack')
    h.coeffs[...] = 3.0
    for f, c in zip(fs, cs):
        same(f.coeffs, c, 'operand of hstack, by writing to the result')


@case('C03', quick=40, contracts=('add', 'multiply'))
def sequence(rng, i):
    """a history of operations on three functions against exact reference polynomials"""
    m = int(rng.choice([1, 2]))
    cs = [mat(rng, m=m, nmax=9, kind='decay')[:9].copy(order='F') for _ in range(3)]
    fs = [tech(c) for c in cs]
    x = np.linspace(-1, 1, 60)
    vs = [val(c, x) for c in cs]
    log = []
    for k in range(7):
        a, b, t = rng.randint(3), rng.randint(3), rng.randint(3)
        o = ['+', '-', '*', '+=', '-=', '*=s'][rng.randint(6)]
        log.append((o, int(a), int(b), int(t)))
        if o in '+-*':
            if o == '*' and np.max(np.abs(vs[a])) * np.max(np.abs(vs[b])) > 1e4:
                continue
            fs[t] = OPS[o](fs[a], fs[b])
            vs[t] = OPS[o](vs[a], vs[b])
        elif o == '*=s':
            fs[a] *= 0.5
            vs[a] = vs[a] * 0.5
            for q in range(3):
                if q != a and fs[q] is fs[a]:
                    vs[q] = vs[a]
        else:
            fs[a] = IOPS[o](fs[a], fs[b])
            vs[a] = OPS[o[0]](vs[a], vs[b])
        s = max(1.0, max(np.max(np.abs(v)) for v in vs)) ** 2
        for q in range(3):
            close(at(fs[q], x), vs[q], 1e-10, 'function %d after %s, start %s' % (q, log, [brief(c) for c in cs]), scale=s)


@case('C03', quick=60, contracts=('coeff_times_main', 'multiply', 'add'))
def relatives(rng, i):
    """operands that share part of their coefficients (equal, negated, one column or one row changed, a prefix)"""
    c = mat(rng, m=int(rng.choice([1, 2, 3])), nmax=12)
    d = c.copy(order='F')
    k = int(rng.randint(6))
    if k == 1:
        d = -d
    elif k == 2:
        j = int(rng.randint(d.shape[1]))
        d[:, j] = rng.uniform(-2, 2, d.shape[0])
    elif k == 3:
        d[int(rng.randint(d.shape[0])), :] *= -1.0
    elif k == 4:
        d = d[:max(1, d.shape[0] - 1)].copy(order='F')
    elif k == 5:
        j = int(rng.randint(d.shape[1]))
        d[:, j] = -d[:, j]
    f, g = wrap(rng, c, d)
    o = '*+-'[i % 3]
    compare(OPS[o](f, g), lambda x: OPS[o](val(c, x), val(d, x)), c, d, 'related operands (%d), f %s g' % (k, o))
    same(f.coeffs, c, 'left operand of ' + o)
    same(g.coeffs, d, 'right operand of ' + o)
