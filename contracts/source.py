"""Generated linearisations and parameter derivatives (C22): the operations of sympy are assumed contracts, equations are arbitrary"""
from .lib import *
from .factor import meth
from pyvc.interp import Native, PyClass

S = 'funpy.colloc.source.'
SRC = S + 'compiler.Source'

SYMPY = 'sympy: replacing u by u + e p in an equation, differentiating with respect to e and setting e to 0 gives its Gateaux derivative in direction p; ' \
        'after expansion it is the sum of coeff(D^k p) D^k p over the orders k that occur and of coeff(I) I over the distinct integrals I that contain p, ' \
        'expand, collect and simplify keep the value (assumed; evaluated at run time against automatic differentiation)'
SIZE = 'bounded: systems of one or two equations and functions, differential order at most 2, at most three integrals in an entry; the equations themselves are arbitrary'


class Sym:
    """a symbolic expression: its kind and the data that identify its value"""

    def __init__(self, sp, kind, *data, **attrs):
        self.sp, self.kind, self.data, self.attrs = sp, kind, data, attrs

    def __repr__(self):
        return '%s%s' % (self.kind, self.data)

    def same(self, o):
        return isinstance(o, Sym) and (o is self or (o.kind == self.kind and len(o.data) == len(self.data) and
                                                     all(a is b or (isinstance(a, Sym) and a.same(b)) or (not isinstance(a, Sym) and not isinstance(b, Sym) and a == b)
                                                         for a, b in zip(self.data, o.data))))

    def vc_isinstance(self, name):
        n = name.split('.')[-1]
        if name.startswith('sympy.') and n == 'Integral':
            return self.kind == 'integral'
        if name.startswith('sympy.') and n in ('Derivative', 'Function', 'Symbol', 'Add', 'Mul', 'Pow', 'Expr', 'Basic'):
            raise Unsupported('kind of an expression: ' + n)
        return False

    def vc_binop(self, M, op, a, b):
        k = lambda x: x.kind if isinstance(x, Sym) else None
        if op in ('mul', 'Mult') and k(a) in ('fun', 'pfun') and k(b) == 'eps':
            a, b = b, a
        if op in ('mul', 'Mult') and k(a) == 'eps' and k(b) == 'pfun':
            return Sym(self.sp, 'step', a, b)
        if op in ('add', 'Add') and k(a) == 'step':
            a, b = b, a
        if op in ('add', 'Add') and k(a) == 'fun' and k(b) == 'step':
            return Sym(self.sp, 'increment', a, b)
        if op in ('mul', 'Mult'):
            for x, y in ((a, b), (b, a)):
                if not isinstance(x, Sym) and T.is_scalar(x) and not T.isz3(x):
                    if x == 1:
                        return y
                    return Sym(self.sp, 'multiple', Fraction(x), y)
        if op in ('Mult', 'Add', 'Sub'):
            return combine(self.sp, op, a, b)
        raise Unsupported('%s of expressions %r, %r' % (op, a, b))

    def vc_getattr(self, M, name):
        if name in self.attrs:
            return self.attrs[name]
        m = getattr(self, 'm_' + name, None)
        if m is None:
            raise Unsupported('attribute %s of an expression' % name)
        return Native(name, lambda *a, **k: m(M, *a, **k))

    def m_replace(self, M, old, new):
        ok = self.kind == 'equation' and isinstance(old, Sym) and isinstance(new, Sym) and new.kind == 'increment'
        if not ok:
            raise Unsupported('replacement in %r' % self)
        M.ctx.oblige(new.data[0].same(old), 'the increment is added to the function it replaces', 'call')
        return Sym(self.sp, 'perturbed', self, old, *new.data[1].data)

    def m_subs(self, M, d, v=None):
        items = list(d.items()) if isinstance(d, dict) else [(d, v)]
        if self.kind != 'derivative' or len(items) != 1:
            raise Unsupported('substitution')
        eq, fun, e, p = self.data
        M.ctx.oblige(items[0][0].same(e) and items[0][1] == 0, 'the derivative is taken at increment zero', 'call')
        return Sym(self.sp, 'linear', eq, fun, p)

    def m_coeff(self, M, t):
        if self.kind == 'multiple':
            r = self.data[1].m_coeff(M, t)
            return Sym(self.sp, 'multiple', self.data[0], r)
        if self.kind == 'expanded':
            return Sym(self.sp, 'coefficient', *self.data, t)
        if self.kind in ('expanded parameter derivative',):
            return Sym(self.sp, 'coefficient', self, t)
        if self.kind == 'integrand':
            return Sym(self.sp, 'coefficient of the integrand', *self.data, t)
        if self.kind == 'linear':
            M.ctx.oblige(False, 'coefficients are read from the expanded expression', 'call')
        raise Unsupported('coefficient of %r' % self)

    def m_has(self, M, t):
        if self.kind == 'integral' and t.kind == 'pfun':
            return self.data[-1] and self.sp['p'](self).same(t)
        raise Unsupported('has')

    def m_expand(self, M, **k):
        return expand(M, self)


def terms(x):
    """an expression as a polynomial in its opaque parts"""
    if isinstance(x, Sym):
        if x.kind == 'polynomial':
            return dict(x.data[0])
        if x.kind == 'multiple':
            return {t: c * x.data[0] for t, c in terms(x.data[1]).items()}
        return {(repr(x),): Fraction(1)}
    if T.is_scalar(x) and not T.isz3(x):
        return {(): Fraction(x)} if x != 0 else {}
    raise Unsupported('term %r' % (x,))


def combine(sp, op, a, b):
    a, b = terms(a), terms(b)
    out = {}
    if op == 'Mult':
        for s, c in a.items():
            for t, d in b.items():
                k = tuple(sorted(s + t))
                out[k] = out.get(k, 0) + c * d
    else:
        out.update(a)
        for t, d in b.items():
            out[t] = out.get(t, 0) + (d if op == 'Add' else -d)
    return Sym(sp, 'polynomial', tuple(sorted((k, v) for k, v in out.items() if v != 0)))


class Mat:
    """a matrix of expressions"""

    def __init__(self, n, m, d=None, free=()):
        self.shape = (n, m)
        self.d = d or {(i, j): Fraction(0) for i in range(n) for j in range(m)}
        self.free = free

    def key(self, k):
        if not isinstance(k, tuple):
            k = divmod(k, self.shape[1])
        if any(T.isz3(i) or not isinstance(i, int) for i in k) or not all(0 <= i < n for i, n in zip(k, self.shape)):
            raise Unsupported('entry of a matrix of expressions')
        return k

    def vc_getitem(self, M, k):
        return self.d[self.key(k)]

    def vc_setitem(self, M, k, v):
        k = self.key(k)
        old = self.d[k]
        M.ctx.log(('matrix', id(self), k), lambda: self.d.__setitem__(k, old))
        self.d[k] = v

    def vc_isinstance(self, name):
        return False

    def vc_iterate(self, M):
        return [self.d[i, j] for i in range(self.shape[0]) for j in range(self.shape[1])]

    def vc_len(self, M):
        return self.shape[0] * self.shape[1]

    def vc_getattr(self, M, name):
        if name == 'shape':
            return self.shape
        if name in ('rows', 'cols'):
            return self.shape[name == 'cols']
        if name == 'free_symbols':
            return list(self.free)
        n, m = self.shape
        if name == 'row':
            return Native(name, lambda i: Mat(1, m, {(0, j): self.d[self.key((i, j))] for j in range(m)}))
        if name == 'dot':
            def dot(o):
                if not isinstance(o, Mat) or 1 not in self.shape or 1 not in o.shape or n * m != o.shape[0] * o.shape[1]:
                    raise Unsupported('product of matrices of expressions')
                r = Fraction(0)
                for x, y in zip(self.vc_iterate(M), o.vc_iterate(M)):
                    r = combine(None, 'Add', r, combine(None, 'Mult', x, y))
                return r
            return Native(name, dot)
        if name in ('transpose', 'T'):
            t = Mat(m, n, {(j, i): x for (i, j), x in self.d.items()})
            return t if name == 'T' else Native(name, lambda: t)
        raise Unsupported('attribute %s of a matrix of expressions' % name)


def matrix(value):
    def f(M, n=None, m=None, rows=None, cols=None, **k):
        n = rows if n is None else n
        m = cols if m is None else m
        return Mat(n, m, {(i, j): Fraction(value) for i in range(n) for j in range(n if m is None else m)})
    return f


def same(a, b):
    return terms(a) == terms(b)


def expand(M, x, **k):
    if isinstance(x, Sym) and x.kind == 'linear':
        return Sym(x.sp, 'expanded', *x.data)
    if isinstance(x, Sym) and x.kind == 'multiple' and isinstance(x.data[1], Sym):
        return Sym(x.sp, 'multiple', x.data[0], expand(M, x.data[1]))
    if isinstance(x, Sym) and x.kind == 'parameter derivative':
        return Sym(x.sp, 'expanded parameter derivative', *x.data)
    if isinstance(x, Sym) and x.kind in ('expanded', 'coefficient', 'expanded parameter derivative'):
        return x
    raise Unsupported('expansion of %r' % (x,))


def diff(M, x, *vs):
    if len(vs) != 1:
        raise Unsupported('diff')
    if isinstance(x, Sym) and x.kind == 'perturbed':
        M.ctx.oblige(x.data[2].same(vs[0]), 'differentiated with respect to the increment', 'call')
        return Sym(x.sp, 'derivative', *x.data)
    if isinstance(vs[0], Sym) and vs[0].kind == 'parameter':
        if isinstance(x, Mat):
            return Mat(*x.shape, {k: diff(M, v, *vs) for k, v in x.d.items()})
        if isinstance(x, Sym):
            return Sym(x.sp, 'parameter derivative', x, vs[0])
    raise Unsupported('derivative of %r' % (x,))


def derivative(M, f, *v):
    if len(v) == 1 and isinstance(v[0], tuple):
        v = v[0]
    if len(v) == 1:
        v = (v[0], 1)
    if len(v) != 2 or not isinstance(f, Sym) or not isinstance(v[0], Sym):
        raise Unsupported('Derivative')
    return Sym(f.sp, 'D', f, v[0], v[1]) if not (isinstance(v[1], int) and v[1] == 0) else f


def keep(M, x, *a, **k):
    if not isinstance(x, (Sym, Mat)):
        raise Unsupported('expression')
    return x


def nodes(M, x):
    if not isinstance(x, Sym) or x.kind not in ('expanded', 'linear'):
        raise Unsupported('nodes of %r' % (x,))
    if x.kind == 'linear':
        M.ctx.oblige(False, 'integrals are read from the expanded expression', 'call')
    return list(x.sp['nodes'](x))


def integral(M, f, x):
    return Sym(None, 'Integral', repr(combine(None, 'Mult', f, 1)), x)


def sympify(M, x, locals=None):
    return Sym(None, 'sympified', x) if isinstance(x, str) else x


def symbols(M, name, **k):
    return Sym(None, 'eps', name)


HOOKS = {'sympy.diff': diff, 'sympy.expand': expand, 'sympy.collect': keep, 'sympy.simplify': keep, 'sympy.Derivative': derivative, 'sympy.preorder_traversal': nodes,
         'sympy.matrices.zeros': matrix(0), 'sympy.matrices.ones': matrix(1), 'sympy.Integral': integral, 'sympy.sympify': sympify, 'sympy.symbols': symbols, 'sympy.Symbol': symbols}


class World:
    """a source with n equations in m functions, compiled as far as the symbols are concerned"""

    def __init__(self, V, n, m, order):
        self.V, self.n, self.m, self.order = V, n, m, order
        ctx = V.ctx
        assumed(ctx, SYMPY)
        assumed(ctx, SIZE)
        sp = self.sp = {}
        self.x = Sym(sp, 'x')
        self.names = ['u', 'v', 'w'][:m]
        self.funs = [Sym(sp, 'fun', j, name=self.names[j]) for j in range(m)]
        self.p = {}
        self.pars = {'a': V.real('a'), 'b': V.real('b')}
        self.par = {k: Sym(sp, 'parameter', k) for k in self.pars}
        self.eqs = [Sym(sp, 'equation', i) for i in range(n)]
        ns = {'x': self.x}
        ns.update(self.par)
        ns.update(zip(self.names, self.funs))
        self.src = V.new(SRC, ns=ns, functions=self.funs, operators=[], pfuns={}, function_names=list(self.names), constant_function_names={}, domain=[-1, 1], ftype='cheb',
                         parameter_names=self.pars, syp_src={}, kernels=[], dp={}, constant_functions=False)

        def dummy(I, name, x):
            j, k = name.split('_')
            ctx.oblige(x is self.x and j in self.names, 'perturbation of a function', 'call')
            o = Obj(PyClass('DummyFunction', [], {}, None))
            o.fields.update(name=name, dummy=x, expr=self.pfun(len(k), self.names.index(j)))
            return o
        V.stub(S + 'function.DummyFunction', dummy)
        V.stub(S + 'support.term_simplify', lambda I, e, *a, **k: keep(None, e), None)
        self.matrix = Mat(n, 1, {(i, 0): e for i, e in enumerate(self.eqs)})
        sp['p'] = lambda I: I.data[0]

    def pfun(self, order, j):
        return self.p.setdefault((order, j), Sym(self.sp, 'pfun', order, j, name=self.names[j]))


def coefficient(e, t):
    return Sym(e.sp, 'coefficient', *(e.data if e.kind == 'linear' else (e,)), t)


def ensure_terms(V, w, osrc, what, entries):
    """entries(i, j) -> (linear form, perturbation, [(coefficient, integrand)])"""
    shape = V.attr(osrc, 'shape')
    V.ensure('%s: shape' % what, tuple(shape) == entries.shape)
    for i in range(entries.shape[0]):
        for j in range(entries.shape[1]):
            lin, p, ints = entries(i, j)
            blk = V.I.np.getitem(osrc, (i, j))
            f = blk.fields
            V.ensure('%s: position of the block' % what, list(f['pos']) == [i, j])
            ops = f['ops']
            if not isinstance(ops, list):
                V.ensure('%s: finished' % what, False)
                return
            d = [o for o in ops if o.cls.name == 'DiffOperatorSource']
            q = [o for o in ops if o.cls.name == 'IntegralOperatorSource']
            V.ensure('%s: one term for every order, by order' % what, [o.fields['order'] for o in d] == list(range(w.order + 1)) and len(d) + len(q) == len(ops) and ops[:len(d)] == d)
            for k, o in enumerate(d):
                want = coefficient(lin, p if k == 0 else Sym(w.sp, 'D', p, w.x, k))
                V.ensure('%s: coefficient of each derivative' % what, same(want, o.fields['coeffs']))
                V.ensure('%s: acts on the perturbation' % what, p.same(o.fields['fun']) and w.x.same(o.fields['dummy']) and list(o.fields['pos']) == [i, j])
            V.ensure('%s: every integral of the perturbation once' % what, len(q) == len(ints))
            for o, (c, g) in zip(q, ints):
                V.ensure('%s: coefficient of each integral' % what, same(c, o.fields['coeffs']))
                V.ensure('%s: integrand' % what, isinstance(o.fields['integrand'], Sym) and g.same(o.fields['integrand']) and p.same(o.fields['fun']))


@contract(SRC + '.linearize', 'C22', hooks=HOOKS, timeout=5)
def linearize(V):
    """entry (i, j) of the operator is the Frechet derivative of equation i with respect to function j: every order up to the order of the system with its
    coefficient, every integral that contains the perturbation once"""
    n, m = V.choose((1, 1), (1, 2), (2, 1), (2, 2))
    order = V.choose(0, 1, 2)
    w = World(V, n, m, order)
    ctx = V.ctx
    cache = {}

    def integrals(lin):
        k = (lin.data[0].data[0], lin.data[1].data[0])
        if k not in cache:
            cache[k] = []
            p = lin.data[2]
            mk = lambda q, has: Sym(w.sp, 'integral', p, k, q, has, function=Sym(w.sp, 'integrand', k, q, has))
            one, two, free = mk(0, True), mk(1, True), mk(2, False)
            cache[k] = V.choose([], [one], [one, one], [free, one], [two, free, one, two]) if k == (0, 0) else [one, free]
        return cache[k]
    w.sp['nodes'] = lambda lin: [lin] + [t for t in integrals(lin)]
    r = V.method(w.src, 'linearize', w.matrix, order)

    def entries(i, j):
        p = w.pfun(1, j)
        lin = Sym(w.sp, 'linear', w.eqs[i], w.funs[j], p)
        out = [t for t in dict.fromkeys(integrals(lin)) if t.data[-1]]
        return lin, p, [(Sym(w.sp, 'coefficient', *lin.data, t), Sym(w.sp, 'coefficient of the integrand', *t.attrs['function'].data, p)) for t in out]
    entries.shape = (n, m)
    ensure_terms(V, w, r, 'linearisation', entries)


@contract(SRC + '.get_diff_order', 'C22', timeout=5)
def get_diff_order(V):
    """at least the order of every function in every equation"""
    n, m = V.choose((1, 1), (1, 2), (2, 2), (2, 3), (3, 2))
    w = World(V, n, m, 0)
    o = {(i, j): V.int('order%d%d' % (i, j), 0) for i in range(n) for j in range(m)}
    seen = {}

    def ode_order(M, e, f):
        return o[e.data[0], f.data[0]]
    V.I.np.hooks['sympy.solvers.deutils.ode_order'] = ode_order
    r = V.method(w.src, 'get_diff_order', w.eqs)
    r = V.I.np.b_max(r)
    for k, v in o.items():
        V.ensure('order of every function in every equation', T.ge(r, v))


@contract(S + 'OperatorSource.OperatorSource.action', 'C22', hooks=HOOKS, timeout=5)
def action(V):
    """the action adds up coefficient times derivative and coefficient times integral over all the terms of a row; expr and biaction likewise"""
    w = World(V, 1, 2, 2)
    n, m = V.choose((1, 1), (1, 2), (2, 1), (2, 2))
    build = V.choose('orders', 'integrals')
    src = V.call(S + 'OperatorSource.OperatorSource', (n, m), name='f')
    want = {}
    for i in range(n):
        for j in range(m):
            blk = V.I.np.getitem(src, (i, j))
            p = w.pfun(1, j)
            tot = Fraction(0)
            for k in (2, 0, 1) if build == 'orders' else (0,):
                c = Sym(w.sp, 'c', i, j, k)
                op = V.call(S + 'DiffOperatorSource.DiffOperatorSource', fun=p, coeffs=c, dummy=w.x, order=k)
                V.method(blk, 'append', op)
                tot = combine(w.sp, 'Add', tot, combine(w.sp, 'Mult', c, p if k == 0 else Sym(w.sp, 'D', p, w.x, k)))
            for q in range(2 if build == 'integrals' else 0):
                c, d = Sym(w.sp, 'ic', i, j, q), Sym(w.sp, 'ii', i, j, q)
                op = V.call(S + 'IntegralOperatorSource.IntegralOperatorSource', fun=p, coeffs=c, dummy=w.x, integrand=d)
                V.method(blk, 'append', op)
                tot = combine(w.sp, 'Add', tot, combine(w.sp, 'Mult', c, integral(None, combine(w.sp, 'Mult', d, p), w.x)))
            want[i, j] = tot
    V.method(src, 'finish')
    for i in range(n):
        for j in range(m):
            q = [o.fields['offset'] for o in V.I.np.getitem(src, (i, j)).fields['ops'] if 'offset' in o.fields]
            V.ensure('integral terms of a block are told apart', len(set(q)) == len(q))
    e = V.attr(src, 'expr')
    for k, t in want.items():
        V.ensure('expression of a block', same(V.I.np.getitem(e, k), t))
    a = V.attr(src, 'action')
    V.ensure('one entry per row', tuple(V.attr(a, 'shape')) == (n, 1))
    tot = Fraction(0)
    for i in range(n):
        row = Fraction(0)
        for j in range(m):
            row = combine(w.sp, 'Add', row, want[i, j])
        tot = combine(w.sp, 'Add', tot, row)
        V.ensure('action of a row', same(V.I.np.getitem(a, (i, 0)), row))
    V.ensure('biaction', same(V.attr(src, 'biaction'), tot))


@contract(SRC + '.compile_dp', 'C22', hooks=HOOKS, timeout=5)
def compile_dp(V):
    """the parameter derivative is the derivative of the equations where the parameter occurs, of the constraints otherwise"""
    w = World(V, 2, 2, 1)
    inn = V.choose(True, False)
    cts = Mat(1, 1, {(0, 0): Sym(w.sp, 'constraint', 0)}, free=[w.par['a']])
    eqn = Mat(2, 1, w.matrix.d, free=[w.par['a']] if inn else [])
    w.src.fields['syp_src'] = {'eqn': eqn, 'cts': cts}
    V.method(w.src, 'compile_dp', ['a'], list(w.names))
    r = w.src.fields['dp']
    V.ensure('the parameters asked for', list(r) == ['a'])
    fs = r['a'].fields['functions']
    src = eqn if inn else cts
    V.ensure('one function per equation', len(fs) == src.shape[0])
    for i, f in enumerate(fs):
        V.ensure('derivative of each equation', Sym(w.sp, 'parameter derivative', src.d[i, 0], w.par['a']).same(f.fields['src']) and f.fields['idx'] == i)
    V.ensure('arguments of the generated functions', r['a'].fields['function_names'] == w.names)


@contract(SRC + '.bilinear_dp', 'C22', hooks=HOOKS, timeout=5)
def bilinear_dp(V):
    """the derivative of the linearisation with respect to a parameter, applied to the perturbation"""
    n = V.choose(1, 2)
    order = V.choose(0, 1, 2)
    w = World(V, n, n, order)
    ent = {(i, j): Sym(w.sp, 'entry', i, j) for i in range(n) for j in range(n)}
    o = Opaque_source(V, ent, (n, n))
    w.src.fields['syp_src'] = {'deqn': o}
    V.method(w.src, 'bilinear_dp', order, ['a'])
    r = w.src.fields['ddp']
    V.ensure('the parameters asked for', list(r) == ['a'])
    fs = r['a'].fields['functions']
    V.ensure('one function per equation', len(fs) == n)
    for i, f in enumerate(fs):
        row = Fraction(0)
        for j in range(n):
            e = Sym(w.sp, 'expanded parameter derivative', ent[i, j], w.par['a'])
            p = w.pfun(1, j)
            for k in range(order + 1):
                t = p if k == 0 else Sym(w.sp, 'D', p, w.x, k)
                row = combine(w.sp, 'Add', row, combine(w.sp, 'Mult', coefficient(e, t), t))
        V.ensure('action of the parameter derivative', same(row, f.fields['src']) and f.fields['idx'] == i)


class Opaque_source:
    """an operator source of which only the expressions of the blocks are known"""

    def __init__(self, V, ent, shape):
        self.ent, self.shape = ent, shape

    def vc_getattr(self, M, name):
        if name == 'shape':
            return self.shape
        if name == 'expr':
            return Mat(*self.shape, dict(self.ent))
        raise Unsupported('attribute %s of an operator source' % name)

    def vc_getitem(self, M, k):
        o = Obj(PyClass('Block', [], {}, None))
        o.fields['expr'] = self.ent[tuple(k)]
        return o


@contract(SRC + '.bilinear', 'C22', hooks=HOOKS, timeout=5)
def bilinear(V):
    """entry (j, k) of the i-th form is the derivative with respect to function k of block (i, j) of the linearisation: every order with its coefficient"""
    n = V.choose(1, 2)
    order = V.choose(0, 1, 2)
    w = World(V, n, n, order)
    ent = {(i, j): Sym(w.sp, 'equation', i, j) for i in range(n) for j in range(n)}
    r = V.method(w.src, 'bilinear', Opaque_source(V, ent, (n, n)), order)
    V.ensure('one form per equation', sorted(r) == list(range(n)))
    for i in range(n):
        def entries(j, k):
            p = w.pfun(2, k)
            return Sym(w.sp, 'linear', ent[i, j], w.funs[k], p), p, []
        entries.shape = (n, n)
        ensure_terms(V, w, r[i], 'second derivative', entries)


@contract(SRC + '.sympify', 'C22', hooks=HOOKS, timeout=5)
def sympify_equations(V):
    """entry i is equation i, an empty equation is zero"""
    w = World(V, 1, 1, 0)
    src = V.choose([], ['u'], ['u', ''], ['u + 1', 'diff(u, x)', 'u*v'])
    r = V.method(w.src, 'sympify', src, w.src.fields['ns'])
    V.ensure('shape', tuple(V.attr(r, 'shape')) == (len(src), 1))
    for i, e in enumerate(src):
        g = V.I.np.getitem(r, (i, 0))
        V.ensure('equation', isinstance(g, Sym) and g.kind == 'sympified' and (g.data[0] == e if e else float(g.data[0]) == 0))


@contract(SRC + '.compile', 'C22', hooks=HOOKS, timeout=5)
def compile_source(V):
    """equations and constraints are sympified, emitted and linearised up to their differential order; parameter derivatives for the parameters asked for"""
    w = World(V, 2, 2, 1)
    ctx = V.ctx
    f = w.src.fields
    f.update(diffOrder=V.int('diffOrder', 0), operator_names=[], integration_kernels=[], compiled_pars=[], symbol_names={'eqn': 'f', 'cts': 'c'}, d_spcode={},
             eqn_src=['e0', 'e1'], cts_src=V.choose(['c0'], None), bcs_src=[])
    par = V.choose(True, False)
    mats = {}
    calls = []
    orders = {}

    def sympify_(I, self, src, ns, *a, **k):
        n = len(src)
        m = Mat(n, 1, {(i, 0): Sym(w.sp, 'equation', src[i]) for i in range(n)})
        mats[tuple(src)] = m
        return m

    def order_(I, self, m):
        orders[id(m)] = [V.int('order%d' % len(orders), 0), V.int('order%dx' % len(orders), 0)]
        return list(orders[id(m)])

    def linearize_(I, self, m, order, *a, **k):
        o = Obj(PyClass('OperatorSource', [], {}, None))
        o.fields.update(matrix=m)
        for q in orders.get(id(m), [None]):
            ctx.oblige(q is not None and T.ge(order, q), 'the linearisation reaches the order of the system', 'call')
        calls.append(o)
        return o
    dp = []
    V.stub(SRC + '.init', lambda I, self, *a, **k: None, None)
    V.stub(SRC + '._Source__emit_common', lambda I, self, *a, **k: '<str>', None)
    V.stub(SRC + '.__emit_common', lambda I, self, *a, **k: '<str>', None)
    V.stub(SRC + '.sympify', sympify_)
    V.stub(SRC + '.get_diff_order', order_, SRC + '.get_diff_order')
    V.stub(SRC + '.linearize', linearize_, SRC + '.linearize')
    V.stub(SRC + '.compile_bcs', lambda I, self, *a, **k: None, None)
    V.stub(SRC + '.compile_dp', lambda I, self, c, names, *a, **k: dp.append((list(c), list(names))), SRC + '.compile_dp')
    V.method(w.src, 'compile', cpars=['a'], par=par)
    for t, src in (('eqn', f['eqn_src']), ('cts', f['cts_src'])):
        if src is None:
            continue
        m = mats.get(tuple(src))
        V.ensure('%s: sympified' % t, m is not None and f['syp_src'].get(t) is m)
        d = f['syp_src'].get('d' + t)
        V.ensure('%s: linearisation of these equations' % t, d is not None and d.fields.get('matrix') is m and f['d_spcode'].get(t) is d)
        fn = f.get(t)
        ok = isinstance(fn, Obj) and len(fn.fields['functions']) == len(src) and all(x.fields['src'] is m.d[i, 0] and x.fields['idx'] == i for i, x in enumerate(fn.fields['functions']))
        V.ensure('%s: the emitted functions are the equations' % t, ok and fn.fields['function_names'] == w.names)
    for q in orders.values():
        for o in q:
            V.ensure('the order covers equations and constraints', T.ge(f['diffOrder'], o))
    V.ensure('parameter derivatives', dp == ([(['a'], w.names)] if par else []))


@contract(S + 'support.term_simplify', 'C22', hooks=HOOKS, timeout=5)
def term_simplify(V):
    """the sum of the simplified terms, which is the expression"""
    assumed(V.ctx, SYMPY)
    k = V.choose(0, 1, 2, 3)
    ts = [Sym(None, 'term', i) for i in range(k)]
    tot = Fraction(0)
    for t in ts:
        tot = combine(None, 'Add', tot, t)
    e = Sym(None, 'expression')
    e.m_as_terms = lambda M: ([(t, None) for t in ts], [])
    e.m_simplify = lambda M, **kw: tot
    V.I.np.hooks['sympy.core.numbers.Zero'] = lambda M: Fraction(0)
    V.I.np.hooks['sympy.simplify'] = lambda M, x, **kw: tot if x is e else x
    V.ensure('value of the expression', same(V.call(S + 'support.term_simplify', e), tot))
