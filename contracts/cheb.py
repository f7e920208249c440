from .lib import *
import ast


def clenshaw_inv(I, fr, st, ordn, loops):
    """b1 T_p - b2 T_{p-1} = sum_{k>=p} c_k T_k, where p-1 is the next coefficient to be used"""
    if not isinstance(st, ast.For) or ordn != 0:
        return None
    sp = I.verifying.state
    t, S, x, N, m = sp['t'], sp['S'], sp['x'], sp['N'], sp['m']

    def prov(env):
        names = dict(env.arrays())
        if 'bk1' in names and 'bk2' in names:
            b1, b2 = names['bk1'], names['bk2']
        else:
            arrs = list(names.values())
            if len(arrs) != 2:
                raise Unsupported('Clenshaw loop does not have two work arrays')
            b1, b2 = arrs
        p = T.sub(sp['n'], T.mul(2, env.k))

        def tail(*j):
            xx = x(j[0])
            lhs = T.sub(T.mul(b1.elem(*j), t(p, xx)), T.mul(b2.elem(*j), t(T.sub(p, 1), xx)))
            return T.eq(lhs, S(p, xx, j[1] if len(j) > 1 else 0))
        return [('Clenshaw tail', tail, (N,) if b1.ndim == 1 else (N, m))]
    return prov


def tail_sum(ctx, c, n):
    """S(p, x, j) = sum_{p<=k<n} c[k,j] T_k(x)"""
    t = chebT(ctx)
    S = ctx.func('S', 'ifi', 'f')

    def ax(args):
        p, x, j = args
        return [z3.Implies(p >= n, S(p, x, j) == 0),
                z3.Implies(z3.And(p >= 0, p < n), S(p, x, j) == S(p + 1, x, j) + T.to_z3(c(p, j)) * t(p, x))]
    ctx.schema(S, ax)
    return lambda p, x, j: S(T.to_z3(p), T.to_z3(x), T.to_z3(j))


@contract('funpy.cheb.detail.clenshaw_scalar', 'C01', inv={'funpy.cheb.detail.clenshaw_scalar': clenshaw_inv})
def clenshaw_scalar(V):
    """result[j, 0] = sum_k c_k T_k(x_j); x and c unchanged"""
    N, n = V.int('N', 0), V.int('n', 1)
    x, c = V.arr('x', (N,)), V.arr('c', (n,))
    fx, fc = V.freeze(x), V.freeze(c)
    S = tail_sum(V.ctx, lambda k, j: c.elem(k), n)
    xs = x.snap()
    V.c.state = dict(t=chebT(V.ctx), S=S, x=xs, N=N, m=1, n=n)
    r = V.call('funpy.cheb.detail.clenshaw_scalar', x, c)
    V.ensure_array('value of the series', r, (N, 1), lambda j, k: S(0, xs(j), 0))
    V.ensure_frozen('points unchanged', fx)
    V.ensure_frozen('coefficients unchanged', fc)


@contract('funpy.cheb.detail.clenshaw_vector', 'C01', inv={'funpy.cheb.detail.clenshaw_vector': clenshaw_inv})
def clenshaw_vector(V):
    """result[j, k] = sum_i c_ik T_i(x_j); x and c unchanged"""
    N, n, m = V.int('N', 0), V.int('n', 1), V.int('m', 1)
    x, c = V.arr('x', (N,)), V.arr('c', (n, m))
    fx, fc = V.freeze(x), V.freeze(c)
    S = tail_sum(V.ctx, lambda k, j: c.elem(k, j), n)
    xs = x.snap()
    V.c.state = dict(t=chebT(V.ctx), S=S, x=xs, N=N, m=m, n=n)
    r = V.call('funpy.cheb.detail.clenshaw_vector', x, c)
    V.ensure_array('value of the series', r, (N, m), lambda j, k: S(0, xs(j), k))
    V.ensure_frozen('points unchanged', fx)
    V.ensure_frozen('coefficients unchanged', fc)


# ------------------------------------------------------------------ values <-> coefficients
def a_happy(I, f, eps=None):
    """what callers know: the flag is decided, the cutoff is at least one, nothing else changes"""
    h = I.ctx.fresh('happy', 'bool')
    I.set_field(f, 'ishappy', h)
    c = I.ctx.fresh('cut', 'int')
    I.ctx.assume(c >= 1)
    return (h, c)


def a_polyval(I, c, workers=1):
    """values of the series on the grid x_i = cos(pi (N-1-i)/(N-1))"""
    ctx = I.ctx
    n, m = c.shape
    s = c.snap()
    from pyvc.nplib import costab
    C = costab(ctx)
    return A.new(ctx, (n, m), lambda i, j: ctx.Sum(0, T.sub(n, 1), lambda k: T.mul(s(k, j), C(k, T.sub(T.sub(n, 1), i), T.sub(n, 1)))), 'f')


@contract(DT + 'polyval', 'C01', apply=a_polyval)
def polyval(V):
    """values[i, j] = sum_k c_kj cos(k theta_i), theta_i = pi (N-1-i)/(N-1): the series at the i-th grid point"""
    n, m = V.int('n', 1), V.int('m', 0)
    c = V.arr('c', (n, m))
    fz = V.freeze(c)
    r = V.call(DT + 'polyval', c)
    from pyvc.nplib import costab
    C = costab(V.ctx)
    V.ensure_array('series at the grid points', r, (n, m),
                   lambda i, j: V.ctx.Sum(0, n - 1, lambda k: T.mul(c.elem(k, j), C(k, n - 1 - i, n - 1))))
    V.ensure_frozen('coefficients unchanged', fz)


@contract(DT + 'polyfit', ('C01', 'C05'))
def polyfit(V):
    """coefficients k: (2 - [k=0] - [k=N-1])/(N-1) times the trapezoidal sum of values times cos(k theta):
    the discrete cosine inverse of polyval"""
    n, m = V.int('n', 1), V.int('m', 0)
    v = V.arr('v', (n, m))
    fz = V.freeze(v)
    r = V.call(DT + 'polyfit', v)
    from pyvc.nplib import costab, dct1_elem
    N = n - 1

    def want(k, j):
        d = dct1_elem(V.ctx, lambda i, jj: T.div(v.elem(T.sub(N, i), jj), T.to_real(N)), n, k, (j,))
        end = T.lor(T.eq(k, 0), T.eq(k, N))
        return T.ite(T.eq(n, 1), v.elem(k, j), T.ite(end, T.div(d, 2), d))
    V.ensure_array('discrete cosine coefficients', r, (n, m), want)
    V.ensure_frozen('values unchanged', fz)



def a_happiness_check(I, coeffs, tol, minimum=17):
    ctx = I.ctx
    h, c = ctx.fresh('happy', 'bool'), ctx.fresh('cut', 'int')
    n = coeffs.shape[0]
    ctx.assume(c >= 0)
    ctx.assume(T.to_z3(T.implies(h, T.lt(c, n))))
    ctx.assume(T.to_z3(T.implies(T.lnot(h), T.ge(c, n))))
    ctx.__dict__.setdefault('happiness_calls', []).append((coeffs, coeffs.snap(), tol, h, c))
    return (h, c)


def column_loop(kind):
    """invariant of the loop over the columns: running maximum of the cutoffs"""
    def inv(I, fr, st, ordn, loops):
        if not isinstance(st, ast.For):
            return None
        sp = I.verifying.state
        M, CH, n, CHf = sp['M'], sp['CH'], sp['n'], sp

        def prov(env):
            out = []
            cands = [nm for nm, v in env.fr.vars.items() if T.is_scalar(v) and T.is_int(v)]
            names = [nm for nm in cands if nm in sp['acc'](st)]
            if len(names) != 1:
                return []
            out.append(('cutoff is not negative', T.ge(env[names[0]], 0)))
            out.append(('running maximum of the cutoffs', T.eq(env[names[0]], M(T.to_z3(env.k)))))
            if kind == 'happy':
                out.append(('columns so far are resolved', lambda q: T.lt(CH(T.to_z3(q)), n), env.k, 0))
                fl = [nm for nm in sp['flag'](st) if env.has(nm)]
                for nm in fl:
                    v = env[nm]
                    out.append(('flag is set', T.implies(T.gt(env.k, 0), v if T.kind(v) == 'b' else T.ne(v, 0))))
            return out
        return prov
    return inv


def maxed(st):
    """names x with x = max(x, ...) in the loop"""
    out = []
    for a in ast.walk(st):
        if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.Call):
            if any(isinstance(x, ast.Name) and x.id == a.targets[0].id for x in a.value.args):
                out.append(a.targets[0].id)
    return out


def flagged(st):
    """names assigned from a comparison"""
    return [a.targets[0].id for a in ast.walk(st) if isinstance(a, ast.Assign) and isinstance(a.value, ast.Compare) and isinstance(a.targets[0], ast.Name)]


@contract(DT + 'happiness_check', ('C04', 'C05'), inv={DT + 'happiness_check': column_loop('happy')}, apply=a_happiness_check)
def happiness_check(V):
    """happy exactly when the chop point of every column lies inside the given length; the cutoff returned is then the
    largest one; each column is chopped with its own tolerance after padding to the minimum length"""
    n, m, mn = V.int('n', 1), V.int('m', 1), V.int('minimum', 1)
    c, tol = V.arr('c', (n, m)), V.arr('tol', (m,))
    fc, ft = V.freeze(c), V.freeze(tol)
    ctx = V.ctx
    CH = ctx.func('CH', 'i', 'i')
    M = max_schema(ctx, CH)
    cs, ts = c.snap(), tol.snap()
    L = T.ite(T.lt(n, mn), mn, n)
    V.c.state = dict(n=n, CH=CH, M=M, acc=maxed, flag=flagged)
    pv, pf = pair_hooks()
    V.stub(DT + 'polyval', pv, DT + 'polyval')
    V.stub(DT + 'polyfit', pf, DT + 'polyfit')
    V.stub(DT + 'prolong', c_prolong, DT + 'prolong')
    V.stub(DT + 'standardChop', chop_hook(V, CH, lambda i, k: T.ite(T.lt(i, n), cs(i, k), F0), L, lambda k: ts(k)), DT + 'standardChop')
    r = V.call(DT + 'happiness_check', c, tol, mn)
    V.ensure('returns (flag, cutoff)', isinstance(r, tuple) and len(r) == 2)
    h, cut = r
    h = h if T.kind(h) == 'b' else T.ne(h, 0)
    k = V.int('k', 0)
    V.ensure('happy: every column is resolved', T.implies(T.land(h, T.lt(k, m)), T.lt(CH(k), n)))
    V.ensure('happy: largest chop point', T.implies(h, T.eq(cut, M(m))))
    V.ensure('unhappy: some column is not resolved', T.implies(T.lnot(h), T.ge(cut, n)))
    V.ensure('cutoff within the vector', T.ge(cut, 0))
    V.ensure_frozen('coefficients unchanged', fc)
    V.ensure_frozen('tolerances unchanged', ft)


@contract(DT + 'simplify_coeffs', 'C04', inv={DT + 'simplify_coeffs': column_loop('simplify')})
def simplify_coeffs(V):
    """the result is the leading part of the coefficients, its length the largest chop point of the columns plus one,
    never more than what was passed in; the operand is unchanged"""
    n, m = V.int('n', 1), V.int('m', 1)
    c = V.arr('c', (n, m))
    fc = V.freeze(c)
    ctx = V.ctx
    eps = V.real('eps')
    V.assume(eps > 0)
    CH = ctx.func('CH', 'i', 'i')
    M = max_schema(ctx, CH)
    cs = c.snap()
    V.c.state = dict(n=n, CH=CH, M=M, acc=maxed, flag=flagged)
    pv, pf = pair_hooks()
    V.stub(DT + 'polyval', pv, DT + 'polyval')
    V.stub(DT + 'polyfit', pf, DT + 'polyfit')
    got = []

    def pro(I, a, N):
        got.append(N)
        I.ctx.oblige(T.land(T.ge(N, 17), T.ge(N, n)), 'padded length', 'call')
        return c_prolong(I, a, N)
    V.stub(DT + 'prolong', pro, DT + 'prolong')
    V.stub(DT + 'standardChop', lambda I, *a, **k: chop_hook(V, CH, lambda i, j: T.ite(T.lt(i, n), cs(i, j), F0), got[-1] if got else n, lambda k: eps)(I, *a, **k), DT + 'standardChop')
    r = V.call(DT + 'simplify_coeffs', c, eps)
    V.ensure_shape('length', r, (T.add(T.minv(M(m), T.sub(n, 1)), 1), m))
    V.ensure_all('leading part', r.shape, lambda i, j: T.eq(r.elem(i, j), cs(i, j)))
    fresh_buf(V, 'own storage', r, c)
    V.ensure_frozen('operand unchanged', fc)


@contract(CT + '.happy', ('C04', 'C05'), uses=(DT + 'polyval', DT + 'happiness_check'), apply=a_happy)
def happy(V):
    """decides the flag of the function from all its coefficients with tolerance max(hscale, vscale) * eps per column; changes nothing else"""
    f, c, n, m = tech(V, 'f')
    fz = freeze_obj(V, f)
    r = V.method(f, 'happy')
    calls = V.ctx.__dict__.get('happiness_calls', [])
    V.ensure('one happiness check', len(calls) == 1)
    (cc, cs, tol, h, cut) = calls[0]
    V.ensure_array('of the coefficients', cc, (n, m), lambda i, j: c.elem(i, j))
    hs, eps = V.attr(f, 'hscale'), V.attr(f, 'eps')
    V.ensure_shape('tolerance per column', tol, (m,))
    V.ensure_all('tolerance is at least hscale * eps', (m,), lambda j: T.ge(tol.elem(j), T.mul(hs, eps)))
    V.ensure('flag set', T.eq(f.fields['ishappy'], h) if T.kind(f.fields['ishappy']) == 'b' else False)
    V.ensure('flag returned', T.eq(r[0], h))
    V.ensure('cutoff is one more than the last index to keep', T.eq(r[1], T.add(cut, 1)))
    fz[1].pop('ishappy')
    ensure_obj_frozen(V, 'rest unchanged', fz)


# ------------------------------------------------------------------ methods of chebtech: evaluation
@contract(CT + '.lval', 'C01')
def lval(V):
    """value at -1: sum (-1)^k c_k; the function is unchanged"""
    f, c, n, m = tech(V, 'f')
    fz = freeze_obj(V, f)
    r = V.method(f, 'lval')
    sg = parity(V.ctx)
    V.ensure_array('alternating sum', r, (m,), lambda j: V.ctx.Sum(0, n - 1, lambda k: T.mul(sg(k), c.elem(k, j))))
    ensure_obj_frozen(V, 'function unchanged', fz)


@contract(CT + '.rval', 'C01')
def rval(V):
    """value at 1: sum c_k; the function is unchanged"""
    f, c, n, m = tech(V, 'f')
    fz = freeze_obj(V, f)
    r = V.method(f, 'rval')
    V.ensure_array('sum', r, (m,), lambda j: V.ctx.Sum(0, n - 1, lambda k: c.elem(k, j)))
    ensure_obj_frozen(V, 'function unchanged', fz)


def lemma_T(V, at, val, name):
    """T_k(at) = val(k), by induction on k with the recurrence"""
    t = chebT(V.ctx)
    k = V.int('k', 2)
    V.called = True
    V.ensure(name + ' (base 0)', T.eq(t(0, at), val(0)), 'lemma')
    V.ensure(name + ' (base 1)', T.eq(t(1, at), val(1)), 'lemma')
    V.assume(T.eq(t(k - 1, at), val(k - 1)))
    V.assume(T.eq(t(k - 2, at), val(k - 2)))
    V.ensure(name + ' (step)', T.eq(t(k, at), val(k)), 'lemma')


@contract('lemma:T_k(1) = 1', 'C01')
def lemma_T1(V):
    """right end value of the basis"""
    lemma_T(V, F1, lambda k: F1, 'T_k(1) = 1')


@contract('lemma:T_k(-1) = (-1)^k', 'C01')
def lemma_Tm1(V):
    """left end value of the basis"""
    lemma_T(V, -F1, parity(V.ctx), 'T_k(-1) = (-1)^k')


@contract('lemma:T_k(-x) = (-1)^k T_k(x)', 'C01')
def lemma_Tneg(V):
    """parity of the basis"""
    t = chebT(V.ctx)
    x = V.real('x')
    sg = parity(V.ctx)
    lemma_T(V, T.neg(x), lambda k: T.mul(sg(k), t(k, x)), 'T_k(-x) = (-1)^k T_k(x)')


@contract(CT + '.flipud', 'C01', uses=(CT + '.happy',))
def flipud(V):
    """coefficients (-1)^k c_k (hence the value at -x by the parity lemma); operand unchanged, storage separate"""
    f, c, n, m = tech(V, 'f')
    fz = freeze_obj(V, f)
    r = V.method(f, 'flipud')
    sg = parity(V.ctx)
    V.ensure_array('reflected coefficients', V.attr(r, 'coeffs'), (n, m), lambda k, j: T.mul(sg(k), c.elem(k, j)))
    fresh_buf(V, 'own storage', V.attr(r, 'coeffs'), c)
    ensure_obj_frozen(V, 'function unchanged', fz)


@contract(CT + '.fliplr', 'C01', uses=(CT + '.happy',))
def fliplr(V):
    """columns in reverse order"""
    f, c, n, m = tech(V, 'f')
    fz = freeze_obj(V, f)
    r = V.method(f, 'fliplr')
    V.ensure_array('columns reversed', V.attr(r, 'coeffs'), (n, m), lambda k, j: c.elem(k, T.sub(T.sub(m, 1), j)))
    ensure_obj_frozen(V, 'function unchanged', fz)


@contract(CT + '.__getitem__#int', 'C01', uses=(CT + '.happy',))
def getitem_int(V):
    """column i as a one-column function with the same tolerance and happiness; out of range is an IndexError"""
    f, c, n, m = tech(V, 'f')
    fz = freeze_obj(V, f)
    i = V.int('i')
    e = None
    try:
        r = V.method(f, '__getitem__', i)
    except PyRaise as e:
        V.ensure('IndexError exactly when out of range', T.land(e.exc == 'IndexError', T.lor(T.lt(i, 0), T.ge(i, m))))
        return
    V.ensure('index in range', T.land(T.ge(i, 0), T.lt(i, m)))
    V.ensure_array('selected column', V.attr(r, 'coeffs'), (n, 1), lambda k, j: c.elem(k, i))
    V.ensure('tolerance kept', T.eq(V.attr(r, 'eps'), V.attr(f, 'eps')))
    ensure_obj_frozen(V, 'function unchanged', fz)


@contract(CT + '.__getitem__#slice', 'C01', uses=(CT + '.happy',))
def getitem_slice(V):
    """columns a..b-1"""
    f, c, n, m = tech(V, 'f')
    fz = freeze_obj(V, f)
    a, b = V.int('a', 0), V.int('b')
    V.assume(z3.And(a < b, b <= m))
    r = V.method(f, '__getitem__', slice(a, b, None))
    V.ensure_array('selected columns', V.attr(r, 'coeffs'), (n, T.sub(b, a)), lambda k, j: c.elem(k, T.add(a, j)))
    ensure_obj_frozen(V, 'function unchanged', fz)


def a_clenshaw(scalar):
    def apply(I, x, c):
        ctx = I.ctx
        if T.is_scalar(x):
            x = A.new(ctx, (1,), lambda i, x=x: T.to_real(x), 'f')
        s, cs = x.snap(), c.snap()
        n = c.shape[0]
        if scalar:
            return A.new(ctx, (x.shape[0], 1), lambda j, k: series(ctx, lambda i: cs(i), n, s(j)), 'f')
        return A.new(ctx, (x.shape[0], c.shape[1]), lambda j, k: series(ctx, lambda i: cs(i, k), n, s(j)), 'f')
    return apply


CONTRACTS[DT + 'clenshaw_scalar'].apply = a_clenshaw(True)
CONTRACTS[DT + 'clenshaw_vector'].apply = a_clenshaw(False)


@contract(CT + '.feval', 'C01', uses=(DT + 'clenshaw_scalar', DT + 'clenshaw_vector'))
def feval(V):
    """f(x)[j, k] = sum_i c_ik T_i(x_j), squeezed; for arrays of points and for single points"""
    f, c, n, m = tech(V, 'f')
    fz = freeze_obj(V, f)
    case = V.choose('array', 'number')
    if case == 'array':
        N = V.int('N', 2)
        x = V.arr('x', (N,))
        V.assume(T.gt(m, 1) if V.choose(0, 1) else T.eq(m, 1))
        r = V.call(f, x)
        xs = lambda j: x.elem(j)
        if r.ndim == 1:
            V.ensure('one column', T.eq(m, 1))
            V.ensure_array('series', r, (N,), lambda j: series(V.ctx, c.elem, n, x.elem(j), 0))
        else:
            V.ensure_array('series', r, (N, m), lambda j, k: series(V.ctx, c.elem, n, x.elem(j), k))
    else:
        x = V.real('x')
        r = V.call(f, x)
        if isinstance(r, Arr) and r.ndim == 1:
            V.ensure_array('series at a point', r, (m,), lambda k: series(V.ctx, c.elem, n, x, k))
        else:
            v = r.elem() if isinstance(r, Arr) else r
            V.ensure('one column', T.eq(m, 1))
            V.ensure('series at a point', T.eq(v, series(V.ctx, c.elem, n, x, 0)))
    ensure_obj_frozen(V, 'function unchanged', fz)


# ------------------------------------------------------------------ prolong, simplify, chop
@contract(DT + 'prolong', 'C04', apply=c_prolong)
def prolong(V):
    """first min(n, N) rows kept, the rest zero; input unchanged; all C accesses in bounds"""
    n, m, N = V.int('n', 0), V.int('m', 0), V.int('N')
    a = V.arr('a', (n, m))
    fz = V.freeze(a)
    r = V.call(DT + 'prolong', a, N)
    V.ensure_array('leading rows kept, padded with zeros', r, (T.maxv(N, 0), m),
                   lambda i, j: T.ite(T.lt(i, n), a.elem(i, j), F0))
    V.ensure_frozen('input unchanged', fz)




def _round_half_away(x):
    """C round()"""
    h = Fraction(1, 2)
    return T.ite(T.ge(x, 0), T.floor(T.add(x, h)), T.neg(T.floor(T.sub(h, x))))


def chop_inv(I, fr, st, ordn, loops):
    if not isinstance(st, ast.For):
        return None
    sp = I.verifying.state
    n = sp['n']
    body = [x for b in st.body for x in ast.walk(b)]
    if any(isinstance(x, (ast.Break, ast.Return)) for x in body):
        jn = st.target.id if isinstance(st.target, ast.Name) else None

        def prov(env):
            # every index tried so far had its comparison point inside the vector
            k = env.k
            r = _round_half_away(T.add(T.mul(Fraction(5, 4), T.to_real(k)), 5))
            return [('comparison point of the previous index is inside the vector', T.implies(T.gt(k, 0), T.lt(r, n)))]
        return prov
    augs = [x for x in body if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)]
    if augs and any(isinstance(x, ast.If) for x in body):
        nm = augs[0].target.id

        def prov(env):
            if not env.has(nm) or not T.is_int(env[nm]):
                return []
            return [('counter between 0 and the number of entries seen', T.land(T.le(0, env[nm]), T.le(env[nm], env.k)))]
        return prov
    if isinstance(st.iter, ast.Call) and len(st.iter.args) == 3:
        def prov(env):
            arrs = [a for _, a in env.arrays(ndim=1)]
            if len(arrs) != 1:
                return []
            e = arrs[0]
            av = sp['absc']
            lo = T.sub(T.sub(n, 1), env.k)
            return [('envelope dominates the coefficients', lambda q: T.ge(e.elem(q), av(q)), n, lo),
                    ('envelope is nonincreasing', lambda q: T.implies(T.lt(q, T.sub(n, 1)), T.ge(e.elem(q), e.elem(T.add(q, 1)))), n, lo),
                    ('envelope is nonnegative', lambda q: T.ge(e.elem(q), 0), n, 0)]
        return prov
    return None


def chop_contract(V, fn, kind):
    n, mn = V.int('n', 0), V.int('minimum')
    tol = V.real('tol')
    V.assume(tol > 0)
    c = V.arr('c', (n,), kind)
    fz = V.freeze(c)
    V.c.state = dict(n=n, absc=lambda q: V.ctx.absv(c.elem(q)))
    r = V.call(DT + fn, c, tol, mn)
    V.ensure('cutoff between 0 and the length', T.land(T.le(0, r), T.le(r, n)))
    V.ensure('unhappy when shorter than the minimum', T.implies(T.land(T.lt(tol, 1), T.lt(n, mn)), T.eq(r, n)))
    V.ensure('everything may go at tolerance one', T.implies(T.ge(tol, 1), T.eq(r, 0)))
    V.ensure_frozen('coefficients unchanged', fz)


@contract(DT + 'standardChop', 'C04', inv={DT + 'standardChop': chop_inv})
def standardChop(V):
    """0 <= cutoff <= n for every vector, tolerance and minimum; = n below the minimum; every (unchecked) C
    access in bounds; vector unchanged"""
    chop_contract(V, 'standardChop', 'f')


@contract(DT + 'standardChopCmplx', 'C04', inv={DT + 'standardChopCmplx': chop_inv})
def standardChopCmplx(V):
    """as standardChop, for complex coefficients"""
    chop_contract(V, 'standardChopCmplx', 'c')
