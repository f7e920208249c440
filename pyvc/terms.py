"""Scalar terms.

A scalar is one of
  bool / z3 Bool            (Python bool, numpy bool)
  int  / z3 Int             (unbounded integer)
  Fraction / z3 Real        (floating point read as mathematical real)
  Cx(re, im)                (complex; re and im are real scalars)
plus the special float values INF, NINF and NAN (never mixed into arithmetic).
"""
from fractions import Fraction
import math
import z3


class Unsupported(Exception):
    """The text under verification leaves the subset the engine understands."""


class Special:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


INF, NINF, NAN = Special('inf'), Special('-inf'), Special('nan')


class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return 'Cx(%s, %s)' % (self.re, self.im)


def isz3(x):
    return isinstance(x, z3.ExprRef)


def is_bool(x):
    return isinstance(x, bool) or (isz3(x) and z3.is_bool(x))


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isz3(x) and z3.is_int(x))


def is_real(x):
    return isinstance(x, Fraction) or (isz3(x) and z3.is_real(x))


def is_cx(x):
    return isinstance(x, Cx)


def is_scalar(x):
    return isinstance(x, (bool, int, Fraction, Cx, Special)) or (
        isz3(x) and (z3.is_arith(x) or z3.is_bool(x)))


def kind(x):
    if is_bool(x):
        return 'b'
    if is_int(x):
        return 'i'
    if is_real(x) or isinstance(x, Special):
        return 'f'
    if is_cx(x):
        return 'c'
    return 'o'


ORDER = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'o': 4}


def join_kind(a, b):
    return a if ORDER[a] >= ORDER[b] else b


def const(x):
    """Python constant -> scalar"""
    if isinstance(x, bool) or isinstance(x, int):
        return x
    if isinstance(x, float):
        if x != x:
            return NAN
        if x == float('inf'):
            return INF
        if x == float('-inf'):
            return NINF
        return Fraction(x)
    if isinstance(x, complex):
        return Cx(Fraction(x.real), Fraction(x.imag))
    return x


def to_z3(x):
    if isz3(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    raise Unsupported('no z3 term for %r' % (x,))


_folds = z3.Z3_OP_UNINTERPRETED


def fold(t):
    """z3 numeral -> Python number"""
    if isz3(t):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return t


def simp(t):
    if isz3(t):
        return fold(z3.simplify(t))
    return t


def to_int(x):
    if isinstance(x, bool):
        return int(x)
    if isz3(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def to_real(x):
    if isinstance(x, Special):
        return x
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isz3(x):
        if z3.is_bool(x):
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        if z3.is_int(x):
            return z3.ToReal(x)
        return x
    raise Unsupported('real of %r' % (x,))


def to_cx(x):
    if is_cx(x):
        return x
    return Cx(to_real(x), Fraction(0))


def cast(x, k):
    if k == 'o':
        return x
    if k == 'c':
        return to_cx(x)
    if k == 'f':
        if is_cx(x):
            raise Unsupported('complex value stored as real')
        return to_real(x)
    if k == 'i':
        if is_real(x) or is_cx(x):
            raise Unsupported('implicit float to int')
        return to_int(x)
    if k == 'b':
        if is_bool(x):
            return x
        return ne(x, 0)
    raise Unsupported(k)


def _both(a, b):
    """bring to a common kind (i, f or c)"""
    if is_cx(a) or is_cx(b):
        return to_cx(a), to_cx(b), 'c'
    if isinstance(a, Special) or isinstance(b, Special):
        raise Unsupported('arithmetic with inf/nan')
    if is_real(a) or is_real(b):
        return to_real(a), to_real(b), 'f'
    if is_scalar(a) and is_scalar(b):
        return to_int(a), to_int(b), 'i'
    raise Unsupported('arithmetic on %r, %r' % (type(a), type(b)))


def _is0(x):
    return (not isz3(x)) and not isinstance(x, (Cx, Special)) and x == 0


def _is1(x):
    return (not isz3(x)) and not isinstance(x, (Cx, Special)) and x == 1


def add(a, b):
    a, b, k = _both(a, b)
    if k == 'c':
        return Cx(add(a.re, b.re), add(a.im, b.im))
    if not isz3(a) and not isz3(b):
        return a + b
    if _is0(a):
        return b
    if _is0(b):
        return a
    if k == 'i':
        return lin(to_z3(a) + to_z3(b))
    return to_z3(a) + to_z3(b)


def lin(t):
    """light normalisation of integer terms"""
    return fold(z3.simplify(t))


def neg(a):
    if is_cx(a):
        return Cx(neg(a.re), neg(a.im))
    if isinstance(a, Special):
        return {'inf': NINF, '-inf': INF, 'nan': NAN}[a.name]
    if is_bool(a):
        a = to_int(a)
    if not isz3(a):
        return -a
    if z3.is_int(a):
        return lin(-a)
    return -a


def sub(a, b):
    a, b, k = _both(a, b)
    if k == 'c':
        return Cx(sub(a.re, b.re), sub(a.im, b.im))
    if not isz3(a) and not isz3(b):
        return a - b
    if _is0(b):
        return a
    if _is0(a):
        return neg(b)
    if k == 'i':
        return lin(to_z3(a) - to_z3(b))
    return to_z3(a) - to_z3(b)


def mul(a, b):
    a, b, k = _both(a, b)
    if k == 'c':
        return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
    if not isz3(a) and not isz3(b):
        return a * b
    if _is0(a) or _is0(b):
        return 0 if k == 'i' else Fraction(0)
    if _is1(a):
        return b
    if _is1(b):
        return a
    if k == 'i':
        return lin(to_z3(a) * to_z3(b))
    return to_z3(a) * to_z3(b)


def div(a, b):
    """true division; the caller owns the side condition b != 0"""
    if is_cx(a) or is_cx(b):
        a = to_cx(a)
        if not is_cx(b) or _is0(b.im):
            b = to_cx(b)
            return Cx(div(a.re, b.re), div(a.im, b.re))
        d = add(mul(b.re, b.re), mul(b.im, b.im))
        n = mul(a, Cx(b.re, neg(b.im)))
        return Cx(div(n.re, d), div(n.im, d))
    a, b = to_real(a), to_real(b)
    if isinstance(a, Special) or isinstance(b, Special):
        raise Unsupported('inf/nan division')
    if not isz3(b):
        if b == 0:
            raise Unsupported('division by constant zero')
        if not isz3(a):
            return a / b
        if b == 1:
            return a
        return a * z3.RealVal(1 / b)
    if _is0(a):
        return Fraction(0)
    return to_z3(a) / b


def floordiv(a, b):
    a, b, k = _both(a, b)
    if k == 'i':
        if not isz3(a) and not isz3(b):
            if b == 0:
                raise Unsupported('integer division by zero')
            return a // b
        if not isz3(b) and b > 0:
            if b == 1:
                return a
            return lin(to_z3(a) / to_z3(b))
        raise Unsupported('floor division by a symbolic or negative divisor')
    if k == 'f':
        return to_real(floor(div(a, b)))
    raise Unsupported('floordiv')


def adiv(a, b):
    """division of array entries: no exception, nothing is known of the quotient by zero"""
    bb = to_cx(b)
    if not isz3(bb.re) and not isz3(bb.im) and bb.re == 0 and bb.im == 0:
        u = lambda x: to_z3(to_real(x)) / z3.RealVal(0)
        return Cx(u(to_cx(a).re), u(to_cx(a).im)) if is_cx(a) or is_cx(b) else u(a)
    return div(a, b)


def polydiv(a, b):
    """(q, r) with a = q b + r as polynomials (r: the terms without b), b linear with some coefficient 1 or -1; else None"""
    b = simp(to_z3(b))
    if not isz3(b):
        return None
    a = to_z3(a)
    w = b
    back = None
    if not z3.is_const(b):
        for m in (b.children() if z3.is_add(b) else []):
            v, sg = m, 1
            if z3.is_mul(m) and m.num_args() == 2 and z3.is_int_value(m.arg(0)) and m.arg(0).as_long() == -1:
                v, sg = m.arg(1), -1
            if not z3.is_const(v) or z3.is_int_value(v):
                continue
            rest = z3.simplify(b - sg * v)
            if v.get_id() in {t.get_id() for t in _consts(rest)}:
                continue
            w = z3.Int('_polydiv')
            a = z3.substitute(a, (v, sg * (w - rest)))
            back = (w, b)
            break
        else:
            return None
    p = z3.simplify(a, som=True)
    q, r = [], []
    for m in (p.children() if z3.is_add(p) else [p]):
        fs = m.children() if z3.is_mul(m) else [m]
        for i, f in enumerate(fs):
            if f.eq(w):
                q.append(z3.Product(*(fs[:i] + fs[i + 1:])) if len(fs) > 1 else z3.IntVal(1))
                break
        else:
            r.append(m)
    out = []
    for l in (q, r):
        t = z3.Sum(*l) if len(l) > 1 else l[0] if l else z3.IntVal(0)
        out.append(lin(z3.substitute(t, back) if back else t))
    return tuple(out)


def _consts(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if z3.is_const(x):
            out.append(x)
        todo += x.children()
    return out


def mod(a, b):
    a, b, k = _both(a, b)
    if k == 'i':
        if not isz3(a) and not isz3(b):
            return a % b
        if not isz3(b) and b > 0:
            return lin(to_z3(a) % to_z3(b))
        raise Unsupported('modulus by a symbolic or negative divisor')
    if k == 'f':
        if not isz3(a) and not isz3(b):
            return a - b * (a // b)
        return sub(a, mul(b, to_real(floor(div(a, b)))))
    raise Unsupported('mod')


def floor(a):
    if is_int(a):
        return a
    if isinstance(a, Fraction):
        return a.numerator // a.denominator
    a = to_real(a)
    p = _whole(a)
    if p is not None:
        return p[0] if p[1] == 1 else lin(p[0] / p[1])
    return lin(z3.ToInt(a))


def _whole(a):
    """(w, d): the floor of a is w // d, and a is a whole number iff d divides w; for a affine in integer terms"""
    p = affine(a)
    if p is None or not p[1]:
        return None
    d = math.lcm(*[c.denominator for _, c in p[1].values()])
    k = p[0] * d
    w = lin(z3.Sum([z3.IntVal(k.numerator // k.denominator)] + [int(c * d) * x for x, c in p[1].values()]))
    return to_z3(w), d, k.denominator == 1


def integral(a):
    """a formula: the real a is a whole number"""
    if is_int(a):
        return True
    if not isz3(a):
        return a.denominator == 1
    p = _whole(a)
    if p is not None:
        return land(p[2], eq(mod(p[0], p[1]), 0)) if p[1] > 1 else p[2]
    return a == z3.ToReal(z3.ToInt(a))


def affine(t):
    """(constant, {id: (integer term, coefficient)}) of a real term that is affine in integer terms; else None"""
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return (Fraction(t.as_fraction()) if z3.is_rational_value(t) else Fraction(t.as_long())), {}
    if z3.is_to_real(t):
        return affine(t.arg(0))
    if z3.is_add(t) or z3.is_sub(t):
        k, d = Fraction(0), {}
        for i, c in enumerate(t.children()):
            p = affine(c)
            if p is None:
                return None
            s = -1 if i and z3.is_sub(t) else 1
            k += s * p[0]
            for j, (x, v) in p[1].items():
                d[j] = (x, d[j][1] + s * v if j in d else s * v)
        return k, {j: e for j, e in d.items() if e[1]}
    if z3.is_mul(t) or t.decl().kind() == z3.Z3_OP_UMINUS:
        ch = t.children() if z3.is_mul(t) else [z3.IntVal(-1), t.arg(0)]
        f, r = Fraction(1), None
        for c in ch:
            p = affine(c)
            if p is None:
                return None
            if not p[1]:
                f *= p[0]
            elif r is None:
                r = p
            else:
                return None
        if r is None:
            return f, {}
        return f * r[0], {j: (x, f * v) for j, (x, v) in r[1].items() if f * v}
    if z3.is_div(t):
        p, q = affine(t.arg(0)), affine(t.arg(1))
        if p is None or q is None or q[1] or q[0] == 0:
            return None
        return p[0] / q[0], {j: (x, v / q[0]) for j, (x, v) in p[1].items()}
    if z3.is_int(t):
        return Fraction(0), {t.get_id(): (t, Fraction(1))}
    return None


def ceil(a):
    return neg(floor(neg(a)))


def trunc(a):
    if is_int(a) or is_bool(a):
        return to_int(a)
    if isinstance(a, Fraction):
        return int(a)
    return ite(ge(a, 0), floor(a), ceil(a))


def ite(c, a, b):
    c = simp(c) if isz3(c) else c
    if c is True:
        return a
    if c is False:
        return b
    if is_cx(a) or is_cx(b):
        a, b = to_cx(a), to_cx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if is_bool(a) and is_bool(b):
        return z3.If(c, to_z3(a), to_z3(b))
    a, b, k = _both(a, b)
    a, b = to_z3(a), to_z3(b)
    if a.eq(b):
        return fold(a)
    return z3.If(c, a, b)


def land(*cs):
    out = []
    for c in cs:
        c = fold(c)
        if c is False:
            return False
        if c is True:
            continue
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def lor(*cs):
    out = []
    for c in cs:
        c = fold(c)
        if c is True:
            return True
        if c is False:
            continue
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def lnot(c):
    c = fold(c)
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def implies(a, b):
    return lor(lnot(a), b)


def eq(a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        if isinstance(a, Special) and isinstance(b, Special):
            return a is b and a is not NAN
        return False
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return to_z3(a) == to_z3(b)
    a, b, k = _both(a, b)
    if k == 'c':
        return land(eq(a.re, b.re), eq(a.im, b.im))
    if not isz3(a) and not isz3(b):
        return a == b
    a, b = to_z3(a), to_z3(b)
    if a.eq(b):
        return True
    if k == 'i':
        return fold(z3.simplify(a == b))
    return a == b


def ne(a, b):
    return lnot(eq(a, b))


def _cmp(a, b, op):
    if isinstance(a, Special) or isinstance(b, Special):
        fa = float(a.name) if isinstance(a, Special) else 0.0
        fb = float(b.name) if isinstance(b, Special) else 0.0
        return op(fa, fb)
    a, b, k = _both(a, b)
    if k == 'c':
        raise Unsupported('ordering of complex numbers')
    if not isz3(a) and not isz3(b):
        return op(a, b)
    t = op(to_z3(a), to_z3(b))
    if k == 'i':
        return fold(z3.simplify(t))
    return t


def lt(a, b):
    return _cmp(a, b, lambda x, y: x < y)


def le(a, b):
    return _cmp(a, b, lambda x, y: x <= y)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def absv(a):
    if is_cx(a):
        raise Unsupported('abs of complex handled by ctx')
    if isinstance(a, Special):
        return INF if a in (INF, NINF) else NAN
    if not isz3(a):
        return abs(a)
    a = to_int(a)
    return ite(ge(a, 0), a, neg(a))


def maxv(a, b):
    if a is NINF or b is INF:
        return b
    if b is NINF or a is INF:
        return a
    return ite(ge(a, b), a, b)


def minv(a, b):
    if a is INF or b is NINF:
        return b
    if b is INF or a is NINF:
        return a
    return ite(le(a, b), a, b)


def subst(t, old, new):
    if isinstance(t, Cx):
        return Cx(subst(t.re, old, new), subst(t.im, old, new))
    if isz3(t):
        return fold(z3.substitute(t, (old, to_z3(new))))
    return t
