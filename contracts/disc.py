"""Sizes of discretisations and boundary rows (C15)"""
from .lib import *

TOOLS = ('funpy.support.tools.', 'funpy.colloc.tools.')


def hibit(V):
    h = V.ctx.func('hibit', 'i', 'i')
    V.I.np.clearlow(z3.IntVal(1))
    return lambda n: h(T.to_z3(n))


def pow_inv(I, fr, st, o, loops):
    h = I.ctx.func('hibit', 'i', 'i')
    n0 = I.ctx.n0

    def inv(env):
        n = T.to_z3(env['n'])
        return [('positive', T.ge(env['n'], 1)), ('same highest bit', T.eq(h(n), h(T.to_z3(T.sub(n0, 1)))))]
    return inv


def next_pow(V, f):
    n = V.int('n')
    V.ctx.n0 = n
    h = hibit(V)
    r = V.call(f, n)
    V.ensure('2 for n <= 2', T.implies(T.le(n, 2), T.eq(r, 2)))
    V.ensure('a power of two: twice the highest bit of n - 1', T.implies(T.gt(n, 1), T.eq(r, T.mul(2, h(T.sub(n, 1))))))
    V.ensure('not below n', T.ge(r, n))
    V.ensure('the smallest such', T.implies(T.gt(n, 2), T.lt(r, T.mul(2, n))))
    V.ensure('half of it is below n', T.implies(T.gt(n, 1), T.lt(r, T.mul(2, n))))


for _m in TOOLS:
    def _spec(V, m=_m):
        """the smallest power of two (at least 2) not below n"""
        next_pow(V, m + 'findNextPowerOf2')
    contract(_m + 'findNextPowerOf2', 'C15', inv={_m + 'findNextPowerOf2': pow_inv})(_spec)


@contract('funpy.support.tools.round_up', 'C15')
def round_up(V):
    """the smallest multiple of the divisor not below the number (exact division: the code divides in floating point)"""
    n, d = V.int('n'), V.int('d', 1)
    r = V.call('funpy.support.tools.round_up', n, d)
    V.ensure('whole', T.is_int(r))
    V.ensure('not below the number', T.ge(r, n))
    V.ensure('the smallest', T.lt(r, T.add(n, d)))
    q = V.ctx.fresh('q', 'int')
    c = T.ceil(T.div(T.to_real(n), T.to_real(d)))
    V.ensure('a multiple', T.eq(r, T.mul(c, d)))


def blocks(V, what):
    """q blocks of n entries, bw of them reserved at the start of each block"""
    q, n, bw = V.int('q', 1), V.int('n', 1), V.choose(0, 1, 2, 3, 'any')
    if bw == 'any':
        bw = V.int('bw', 1)
    V.assume(T.lt(bw, n))
    x = V.arr('x', (T.mul(q, n),), 'f')
    return q, n, bw, x, V.freeze(x), x.snap()


@contract('funpy.colloc.tools.remove_bc', 'C15')
def remove_bc(V):
    """entry (j, i) of the result is entry bw + j of block i; the vector is unchanged"""
    q, n, bw, x, fz, xs = blocks(V, 'remove')
    r = V.call('funpy.colloc.tools.remove_bc', x, q, bw)
    V.ensure_array('rows kept', r, (T.sub(n, bw), q), lambda j, i: xs(T.add(T.mul(i, n), T.add(j, bw))))
    V.ensure_frozen('vector', fz)


@contract('funpy.colloc.tools.replace_bc', 'C15')
def replace_bc(V):
    """the entries of each block move up by bw, the last bw are zero; the vector is unchanged"""
    q, n, bw, x, fz, xs = blocks(V, 'replace')
    if V.choose('flat', 'reshaped') == 'flat':
        r = V.call('funpy.colloc.tools.replace_bc', x, q, bw)
        V.ensure_shape('length', r, (T.mul(q, n),))
        i, j = V.ctx.fresh('i', 'int'), V.ctx.fresh('j', 'int')
        V.assume(T.land(T.le(0, i), T.lt(i, q), T.le(0, j), T.lt(j, n)))
        at = lambda s, a, b: s(T.add(T.mul(a, n), b))
        rs = r.snap()
        V.ensure('moved', T.implies(T.lt(j, T.sub(n, bw)), T.eq(at(rs, i, j), at(xs, i, T.add(j, bw)))))
        V.ensure('padded', T.implies(T.le(T.sub(n, bw), j), T.eq(at(rs, i, j), 0)))
    else:
        r = V.call('funpy.colloc.tools.replace_bc', x, q, bw, reshape=True)
        V.ensure_array('moved and padded', r, (n, q), lambda j, i: T.ite(T.lt(j, T.sub(n, bw)), xs(T.add(T.mul(i, n), T.add(j, bw))), 0))
    V.ensure_frozen('vector', fz)


@contract('funpy.colloc.tools.get_bc', 'C15')
def get_bc(V):
    """entry i bw + j is the j-th leading entry of block i"""
    q, n, bw, x, fz, xs = blocks(V, 'get')
    r = V.call('funpy.colloc.tools.get_bc', x, q, bw)
    V.ensure_shape('length', r, (T.mul(q, bw),))
    if bw == 0:
        return V.ensure_frozen('vector', fz)
    i, j = V.ctx.fresh('i', 'int'), V.ctx.fresh('j', 'int')
    V.assume(T.land(T.le(0, i), T.lt(i, q), T.le(0, j), T.lt(j, bw)))
    V.ensure('boundary rows', T.eq(r.snap()(T.add(T.mul(i, bw), j)), xs(T.add(T.mul(i, n), j))))
    V.ensure_frozen('vector', fz)


@contract('funpy.colloc.adapt.SolverAdaptive.n_disc', 'C15')
def n_disc(V):
    """sizes 1 + 2^k cut off to [lower, upper], increasing, without repetition; one size for constants"""
    kmax = V.int('n_max', 0)
    s = V.new('funpy.colloc.adapt.SolverAdaptive', nw=None, ntol=V.real('tol'), n_min=None, n_max=kmax)
    kmin = V.choose('default', 'any')
    kmin = 2 if kmin == 'default' else V.int('n_min', 0, 7)
    s.fields['n_min'] = kmin
    V.assume(T.le(kmin, kmax))
    fz = freeze_obj(V, s)
    how = V.choose('defaults', 'lower', 'both', 'constant')
    kw = {}
    lo = 17
    up = T.add(1, T.floor(V.ctx.pow2(kmax)))
    if how != 'defaults':
        lo = kw['lower_bd'] = V.int('lower', 1)
    if how == 'both':
        up = kw['upper_bd'] = V.int('upper')
    if how == 'constant':
        kw['constant'] = True
    r = V.call('funpy.colloc.adapt.SolverAdaptive.n_disc', s, **kw)
    ensure_obj_frozen(V, 'solver', fz)
    if how == 'constant':
        V.ensure_array('one size', r, (1,), lambda j: 1)
        return
    m = r.shape[0]
    rs = r.snap()
    V.ensure('at least one size', T.ge(m, 1))
    j = V.ctx.fresh('j', 'int')
    V.assume(T.land(T.ge(j, 0), T.lt(j, m)))
    x = rs(j)
    V.ensure('whole numbers', T.is_int(x))
    V.ensure('not below the lower bound', T.ge(x, lo))
    V.ensure('not above the upper bound', T.le(x, T.maxv(lo, up)))
    V.ensure('increasing', T.implies(T.lt(T.add(j, 1), m), T.lt(x, rs(T.add(j, 1)))))
    k = V.ctx.fresh('k', 'int')
    V.assume(T.land(T.ge(k, kmin), T.le(k, kmax)))
    s0, n0, r0, m0, wh = V.ctx.uniq[-1]
    want = T.maxv(lo, T.minv(up, T.add(1, T.floor(V.ctx.pow2(k)))))
    V.ensure('number of exponents', T.eq(n0, T.sub(T.add(kmax, 1), kmin)))
    i = wh(T.to_z3(T.sub(k, kmin)))
    V.ensure('every nested size appears', T.land(T.ge(i, 0), T.lt(i, m), T.eq(rs(i), want)))


@contract('funpy.colloc.adapt.SolverAdaptive.__init__', 'C15')
def adapt_init(V):
    """bounds from the arguments, the smallest exponent at most 7"""
    kw = {}
    how = V.choose('none', 'some', 'all')
    if how != 'none':
        kw['n_min'] = V.int('n_min', 0)
    if how == 'all':
        kw['n_max'], kw['tol'] = V.int('n_max'), V.real('tol')
    s = V.call('funpy.colloc.adapt.SolverAdaptive', None, **kw)
    V.ensure('smallest exponent', T.eq(s.fields['n_min'], T.minv(7, kw['n_min']) if 'n_min' in kw else 2))
    V.ensure('largest exponent', T.eq(s.fields['n_max'], kw.get('n_max', 14)))
    if how == 'all':
        V.ensure('tolerance', T.eq(s.fields['ntol'], kw['tol']))
