from .lib import *

QB = 'funpy.colloc.quasiOpBlock.QuasiOpBlock'
QO = 'funpy.colloc.quasiOp.QuasiOp'


def cells(V, name, n):
    """n coefficients; a coefficient is represented by its value at an arbitrary point"""
    f = z3.Function(name, z3.IntSort(), z3.RealSort())
    return A.new(V.ctx, (n,), lambda i: f(T.to_z3(i)), 'o')


def block(V, name, d, e, nonlocal_, nl, b):
    """an operator block: d local coefficients, e shifted coefficients (present when nl), k integral terms (when nonlocal_)"""
    k = V.int(name + '.k', 1)
    nlinfo = V.arr(name + '.nl', (e,), 'b') if nl else A.new(V.ctx, (e,), lambda i: False, 'b')
    f = dict(block=b, _info=V.arr(name + '.info', (V.dinfo,), 'b'), _nl_info=nlinfo, coeffs=cells(V, name + '.c', d))
    f['nl_coeffs'] = cells(V, name + '.n', e) if nl else A.new(V.ctx, (1,), lambda i: None, 'o')
    f['icoeffs'] = cells(V, name + '.i', k) if nonlocal_ else None
    f['integrand'] = cells(V, name + '.d', k) if nonlocal_ else None
    if nl:
        q = V.int(name + '.q', 0)
        V.assume(T.lt(q, e))
        V.assume(f['_nl_info'].elem(q))
        V.ctx.__dict__.setdefault('hints', []).append((q,))
    return V.new(QB, **f), k


def sizes(V):
    V.dinfo = V.int('info.n', 1)
    return V.int('d', 1), V.int('e', 1)


def has(o):
    return o.fields['icoeffs'] is not None


def check_block(V, r, args, nl, coef, d, e, ks, what):
    """r = sum of coef[p] * args[p] term by term"""
    f = r.fields
    V.ensure('%s: is a block' % what, isinstance(r, Obj) and r.cls.name == 'QuasiOpBlock')
    V.ensure('%s: same unknown' % what, f['block'] is args[0].fields['block'])
    tot = lambda field, i: _sum([T.mul(c, a.fields[field].elem(i)) for c, a in zip(coef, args)])
    V.ensure_array('%s: local coefficients' % what, f['coeffs'], (d,), lambda i: tot('coeffs', i))
    V.ensure_array('%s: terms that are present' % what, f['_info'], (V.dinfo,), lambda i: T.lor(*[a.fields['_info'].elem(i) for a in args]))
    V.ensure_array('%s: shifted terms that are present' % what, f['_nl_info'], (e,), lambda i: T.lor(*[a.fields['_nl_info'].elem(i) for a in args]))
    if any(nl):
        on = [(c, a) for c, a, x in zip(coef, args, nl) if x]
        V.ensure_array('%s: shifted coefficients' % what, f['nl_coeffs'], (e,), lambda i: _sum([T.mul(c, a.fields['nl_coeffs'].elem(i)) for c, a in on]))
    on = [(c, a, k) for c, a, k in zip(coef, args, ks) if has(a)]
    if not on:
        V.ensure('%s: no integral terms' % what, f['icoeffs'] is None and f['integrand'] is None)
        return
    total = 0
    for _, _, k in on:
        total = T.add(total, k)
    V.ensure_shape('%s: integral terms' % what, f['icoeffs'], (total,))
    V.ensure_shape('%s: integrands' % what, f['integrand'], (total,))
    off = 0
    for c, a, k in on:
        # the part of the list that holds the terms of this operand
        V.ensure_all('%s: integral coefficients' % what, (k,), lambda i: T.eq(f['icoeffs'].elem(T.add(off, i)), T.mul(c, a.fields['icoeffs'].elem(i))))
        V.ensure_all('%s: integrands' % what, (k,), lambda i: T.eq(f['integrand'].elem(T.add(off, i)), a.fields['integrand'].elem(i)))
        off = T.add(off, k)
    own = [x for a in args for x in a.fields.values() if isinstance(x, Arr)]
    fresh_buf(V, '%s: own local coefficients' % what, f['coeffs'], *own)


def _sum(xs):
    r = xs[0]
    for x in xs[1:]:
        r = T.add(r, x)
    return r


@contract(QB + '.algebra#unary', 'C20')
def unary(V):
    """-Q, +Q, c*Q, Q*c: every coefficient (local, shifted, integral) is scaled once, integrands are kept, Q is unchanged"""
    d, e = sizes(V)
    nl, non = V.choose(False, True), V.choose(False, True)
    a, k = block(V, 'a', d, e, non, nl, ghost_block(V))
    fa = freeze_obj(V, a)
    op = V.choose('neg', 'pos', 'mul', 'rmul')
    s = V.real('s')
    if op == 'neg':
        r, c = V.method(a, '__neg__'), -F1
    elif op == 'pos':
        r, c = V.method(a, '__pos__'), F1
    elif op == 'mul':
        r, c = V.method(a, '__mul__', s), s
    else:
        r, c = V.method(a, '__rmul__', s), s
    if r is not a:
        check_block(V, r, [a], [nl], [c], d, e, [k], op)
    else:
        V.ensure('+Q is Q', op == 'pos')
    ensure_obj_frozen(V, 'operand', fa)


@contract(QB + '.algebra#binary', 'C20')
def binary(V):
    """Q + R and Q - R: coefficients add (subtract) term by term, integral terms of both are kept, operands unchanged"""
    d, e = sizes(V)
    nla, nlb, na, nb = (V.choose(False, True) for _ in range(4))
    u = ghost_block(V)
    a, ka = block(V, 'a', d, e, na, nla, u)
    b, kb = block(V, 'b', d, e, nb, nlb, u)
    fa, fb = freeze_obj(V, a), freeze_obj(V, b)
    op = V.choose('__add__', '__sub__')
    r = V.method(a, op, b)
    check_block(V, r, [a, b], [nla, nlb], [F1, F1 if op == '__add__' else -F1], d, e, [ka, kb], op)
    ensure_obj_frozen(V, 'left operand', fa)
    ensure_obj_frozen(V, 'right operand', fb)


@contract(QB + '.algebra#self', 'C20')
def selfops(V):
    """Q + Q and Q - Q, where both operands are the same object"""
    d, e = sizes(V)
    nl, non = V.choose(False, True), V.choose(False, True)
    a, k = block(V, 'a', d, e, non, nl, ghost_block(V))
    fa = freeze_obj(V, a)
    op = V.choose('__add__', '__sub__')
    r = V.method(a, op, a)
    check_block(V, r, [a, a], [nl, nl], [F1, F1 if op == '__add__' else -F1], d, e, [k, k], op)
    ensure_obj_frozen(V, 'operand', fa)


@contract(QB + '.__mul__#scalar', 'C20')
def scalars(V):
    """only numbers scale an operator; += on a block is refused"""
    d, e = sizes(V)
    a, _ = block(V, 'a', d, e, False, False, None)
    b, _ = block(V, 'b', d, e, False, False, None)
    x = V.raises(lambda: V.method(a, '__mul__', b))
    V.ensure('operator times operator is refused', x is not None and x.exc == 'ValueError')
    y = V.raises(lambda: V.method(a, '__iadd__', b))
    V.ensure('+= is refused', y is not None and y.exc == 'RuntimeError')


def ghost_block(V):
    from .newton import ghost
    return ghost(V)


def mat(V, name, shape):
    f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.RealSort())
    b = A.new(V.ctx, shape, lambda i, j: f(T.to_z3(i), T.to_z3(j)), 'o')
    return V.new(QO, blocks=b), b


@contract(QO + '.algebra', 'C20')
def quasi(V):
    """matrices of operators: negation, sum, difference, scaling from either side act block by block (a block is represented
    by a real number, its algebra by that of the reals); operands unchanged, shape mismatch refused"""
    n, m = V.int('n', 1), V.int('m', 1)
    a, ba = mat(V, 'a', (n, m))
    b, bb = mat(V, 'b', (n, m))
    fa, fb = freeze_obj(V, a), freeze_obj(V, b)
    s = V.real('s')
    op = V.choose('neg', 'add', 'sub', 'mul', 'rmul', 'pos')
    if op == 'neg':
        r, want = V.method(a, '__neg__'), lambda i, j: T.neg(ba.elem(i, j))
    elif op == 'pos':
        r, want = V.method(a, '__pos__'), lambda i, j: ba.elem(i, j)
    elif op == 'add':
        r, want = V.method(a, '__add__', b), lambda i, j: T.add(ba.elem(i, j), bb.elem(i, j))
    elif op == 'sub':
        r, want = V.method(a, '__sub__', b), lambda i, j: T.sub(ba.elem(i, j), bb.elem(i, j))
    elif op == 'mul':
        r, want = V.method(a, '__mul__', s), lambda i, j: T.mul(ba.elem(i, j), s)
    else:
        r, want = V.method(a, '__rmul__', s), lambda i, j: T.mul(ba.elem(i, j), s)
    V.ensure('a matrix of operators', isinstance(r, Obj) and r.cls.name == 'QuasiOp')
    V.ensure_array(op, r.fields['blocks'], (n, m), want)
    ensure_obj_frozen(V, 'left operand', fa)
    ensure_obj_frozen(V, 'right operand', fb)


@contract(QO + '.__add__#shapes', 'C20')
def quasi_shapes(V):
    """operators of different block shape cannot be added or subtracted"""
    n, m, p, q = V.int('n', 1), V.int('m', 1), V.int('p', 1), V.int('q', 1)
    V.assume(T.lor(T.ne(n, p), T.ne(m, q)))
    a, _ = mat(V, 'a', (n, m))
    b, _ = mat(V, 'b', (p, q))
    x = V.raises(lambda: V.method(a, V.choose('__add__', '__sub__'), b))
    V.ensure('refused', x is not None and x.exc == 'ValueError')
