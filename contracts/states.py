from .lib import *

VS = 'funpy.vectorspaces.'
PAR = VS + 'parameter.Parameter'
KINDS = {'cont': (VS + 'cont_state.ContinuationState', 1, 1), 'tp': (VS + 'tp_state.TwoParameterState', 2, 2),
         'tpc': (VS + 'tp_cont_state.TwoParContState', 1, 2), 'defl': (VS + 'deflation_state.DeflationState', 1, 0)}
NAMES = ('lam', 'rho')


def par(V, name, value=None):
    return V.new(PAR, name=name, value=V.real('par!%d' % _n(V)) if value is None else value)


def _n(V):
    V.ctx.counter += 1
    return V.ctx.counter


def ovec(V, xs):
    return A.new(V.ctx, (len(xs),), A._pick(list(xs)), 'o') if xs else A.new(V.ctx, (0,), lambda i: None, 'o')


class St:
    """an arbitrary state of the given kind: functions are represented by their values at N arbitrary points"""

    def __init__(self, V, kind, name, N):
        self.V, self.kind, self.N = V, kind, N
        cls, nf, nr = KINDS[kind]
        self.nf, self.nr = nf, nr
        self.f = [V.arr('%s.f%d' % (name, i), (N,), 'f') for i in range(nf)]
        self.p = [V.real('%s.p%d' % (name, i)) for i in range(nr)]
        self.pars = [par(V, NAMES[i], self.p[i]) for i in range(nr)]
        self.w = V.arr(name + '.w', (nf + nr,), 'f')
        self.ns = {'mu': V.real(name + '.mu'), 'nu': V.real(name + '.nu')}
        self.nsv = dict(self.ns)
        sig = V.get(VS + 'base_state.BaseState')
        self.o = V.new(cls, weights=self.w, funcs=ovec(V, self.f), reals=ovec(V, self.pars), ns=self.ns, signature=['F'] * nf + ['R'] * nr)
        self.fz = [V.freeze(a) for a in self.f]
        self.fw = V.freeze(self.w)
        self.fs = [a.snap() for a in self.f]
        self.ws = self.w.snap()

    def unchanged(self, what, functions=True):
        V = self.V
        o = self.o.fields
        for i in range(self.nf):
            V.ensure('%s: same function object' % what, o['funcs'].elem(i) is self.f[i])
            if functions:
                V.ensure_frozen('%s: function' % what, self.fz[i])
        for i in range(self.nr):
            V.ensure('%s: same parameter' % what, o['reals'].elem(i) is self.pars[i])
            V.ensure('%s: name of the parameter' % what, self.pars[i].fields['name'] == NAMES[i])
            if functions:
                V.ensure('%s: value of the parameter' % what, T.eq(V.scalar(self.pars[i].fields['value']), self.p[i]))
        V.ensure_frozen('%s: weights' % what, self.fw)
        V.ensure('%s: namespace' % what, o['ns'] is self.ns and list(self.ns) == list(self.nsv) and all(self.ns[k] is self.nsv[k] for k in self.nsv))


def scalar(v):
    return v.elem(*[0] * v.ndim) if isinstance(v, Arr) else v


V.scalar = staticmethod(scalar)


def check_state(V, r, s, fv, pv, what, ns=True, weights=True):
    """r is a state of the kind of s with function values fv(i, k), parameter values pv(i), parts of its own"""
    V.ensure('%s: kind' % what, isinstance(r, Obj) and r.cls is s.o.cls)
    if not isinstance(r, Obj):
        return
    fs, rs, w = r.fields['funcs'], r.fields['reals'], r.fields['weights']
    V.ensure('%s: number of parts' % what, isinstance(fs, Arr) and fs.shape == (s.nf,) and isinstance(rs, Arr) and rs.shape == (s.nr,))
    for i in range(s.nf):
        g = fs.elem(i)
        if not isinstance(g, Arr):
            V.ensure('%s: function %d' % (what, i), False)
            continue
        V.ensure_array('%s: function %d' % (what, i), g, (s.N,), lambda k: fv(i, k))
        V.ensure('%s: function %d has its own storage' % (what, i), all(g.buf is not x.buf for x in s.f), 'ownership')
    for i in range(s.nr):
        q = rs.elem(i)
        V.ensure('%s: parameter %d' % (what, i), isinstance(q, Obj) and q.cls.name == 'Parameter' and q.fields['name'] == NAMES[i] and all(q is not x for x in s.pars))
        if isinstance(q, Obj):
            V.ensure('%s: value of parameter %d' % (what, i), T.eq(scalar(q.fields['value']), pv(i)))
    if weights:
        V.ensure_array('%s: weights' % what, w, (s.nf + s.nr,), lambda k: s.ws(k))
    V.ensure('%s: own weights' % what, w.buf is not s.w.buf, 'ownership')
    if ns:
        n = r.fields['ns']
        V.ensure('%s: parameter values of the namespace' % what, isinstance(n, dict) and list(n) == list(s.nsv) and all(n[k] is s.nsv[k] for k in s.nsv))


OPS = {'add': T.add, 'subtract': T.sub, 'multiply': T.mul, 'divide': T.div}


def kinds(V):
    return V.choose(*KINDS)


@contract(VS + 'base_state.BaseState.__array_ufunc__#states', 'C11')
def ufunc_states(V):
    """s op t acts part by part on functions and parameters, keeps kind, names, weights and namespace; operands unchanged"""
    N = V.int('N', 2)
    k = kinds(V)
    s, t = St(V, k, 's', N), St(V, k, 't', N)
    op = V.choose('add', 'subtract')
    same = V.choose(False, True)
    if same:
        t = s
    f = OPS[op]
    r = V.numpy(op, s.o, t.o)
    check_state(V, r, s, lambda i, q: f(s.fs[i](q), t.fs[i](q)), lambda i: f(s.p[i], t.p[i]), op)
    s.unchanged('left operand')
    t.unchanged('right operand')


@contract(VS + 'base_state.BaseState.__array_ufunc__#scalars', 'C11')
def ufunc_scalars(V):
    """c*s, s*c, s/c, -s act part by part; the operand is unchanged"""
    N = V.int('N', 2)
    s = St(V, kinds(V), 's', N)
    c = V.real('c')
    op = V.choose('c*s', 's*c', 's/c', '-s', 'c-s', 's-c', 'c+s')
    if op == 'c*s':
        r, g = V.numpy('multiply', c, s.o), lambda x: T.mul(c, x)
    elif op == 's*c':
        r, g = V.numpy('multiply', s.o, c), lambda x: T.mul(c, x)
    elif op == 's/c':
        V.assume(T.ne(c, 0))
        r, g = V.numpy('divide', s.o, c), lambda x: T.div(x, c)
    elif op == 'c-s':
        r, g = V.numpy('subtract', c, s.o), lambda x: T.sub(c, x)
    elif op == 's-c':
        r, g = V.numpy('subtract', s.o, c), lambda x: T.sub(x, c)
    elif op == 'c+s':
        r, g = V.numpy('add', c, s.o), lambda x: T.add(c, x)
    else:
        r, g = V.numpy('negative', s.o), lambda x: T.neg(x)
    check_state(V, r, s, lambda i, q: g(s.fs[i](q)), lambda i: g(s.p[i]), op)
    s.unchanged('operand')


@contract(VS + 'base_state.BaseState.__array_ufunc__#inplace', 'C11')
def ufunc_inplace(V):
    """s += t, s -= t, s *= c, s /= c change the parts of s to the right values and nothing of t"""
    N = V.int('N', 2)
    k = kinds(V)
    s, t = St(V, k, 's', N), St(V, k, 't', N)
    c = V.real('c')
    op = V.choose('add', 'subtract', 'multiply', 'divide')
    f = OPS[op]
    if op in ('add', 'subtract'):
        r = V.numpy(op, s.o, t.o, out=(s.o,))
        fv, pv = (lambda i, q: f(s.fs[i](q), t.fs[i](q))), (lambda i: f(s.p[i], t.p[i]))
    else:
        V.assume(T.ne(c, 0))
        r = V.numpy(op, s.o, c, out=(s.o,))
        fv, pv = (lambda i, q: f(s.fs[i](q), c)), (lambda i: f(s.p[i], c))
    V.ensure('result is the left operand', r is s.o)
    for i in range(s.nf):
        V.ensure_array('function %d' % i, s.o.fields['funcs'].elem(i), (N,), lambda q: fv(i, q))
    for i in range(s.nr):
        V.ensure('parameter %d' % i, T.eq(scalar(s.o.fields['reals'].elem(i).fields['value']), pv(i)))
    s.unchanged('left operand', functions=False)
    t.unchanged('right operand')


@contract(VS + 'base_state.real_imag_conj', 'C11')
def parts(V):
    """real part, imaginary part and conjugate of a real state; kind, weights and namespace kept; operand unchanged"""
    N = V.int('N', 2)
    s = St(V, kinds(V), 's', N)
    op = V.choose('real', 'imag', 'conj')
    r = V.numpy(op, s.o)
    if op == 'imag':
        fv, pv = (lambda i, q: F0), (lambda i: F0)
    else:
        fv, pv = (lambda i, q: s.fs[i](q)), (lambda i: s.p[i])
    V.ensure('kind', isinstance(r, Obj) and r.cls is s.o.cls)
    for i in range(s.nf):
        V.ensure_array('function %d' % i, r.fields['funcs'].elem(i), (N,), lambda q: fv(i, q))
    for i in range(s.nr):
        V.ensure('parameter %d' % i, T.eq(scalar(r.fields['reals'].elem(i).fields['value']), pv(i)))
        V.ensure('name of parameter %d' % i, r.fields['reals'].elem(i).fields['name'] == NAMES[i])
    V.ensure_array('weights', r.fields['weights'], (s.nf + s.nr,), lambda k: s.ws(k))
    V.ensure('namespace', isinstance(r.fields['ns'], dict) and list(r.fields['ns']) == list(s.nsv) and all(r.fields['ns'][k] is s.nsv[k] for k in s.nsv))
    s.unchanged('operand')


@contract(VS + 'base_state.zeros_ones', 'C11')
def zeros_ones(V):
    """zeros_like / ones_like: a state of the same kind, names and weights with constant parts; operand unchanged"""
    N = V.int('N', 2)
    s = St(V, kinds(V), 's', N)
    op, c = V.choose(('zeros_like', F0), ('ones_like', F1))
    r = V.numpy(op, s.o)
    check_state(V, r, s, lambda i, q: c, lambda i: c, op, ns=False)
    s.unchanged('operand')


def weighted(V, s, t):
    ctx = V.ctx
    tot = F0
    for i in range(s.nf):
        tot = T.add(tot, T.mul(s.ws(i), ctx.Sum(0, T.sub(s.N, 1), lambda k: T.mul(s.fs[i](k), t.fs[i](k)))))
    for i in range(s.nr):
        tot = T.add(tot, T.mul(s.ws(s.nf + i), T.mul(s.p[i], t.p[i])))
    return tot


@contract(VS + 'base_state.inner', 'C11')
def inner(V):
    """<s, t> = sum of weight * <function parts> + sum of weight * product of parameters (so symmetric and bilinear when the
    inner product of functions is); operands unchanged"""
    N = V.int('N', 2)
    k = kinds(V)
    s, t = St(V, k, 's', N), St(V, k, 't', N)
    fn = V.choose('inner', 'dot')
    r = V.numpy(fn, s.o, t.o)
    V.ensure('weighted sum', T.eq(scalar(r), weighted(V, s, t)))
    s.unchanged('left operand')
    t.unchanged('right operand')


@contract(VS + 'base_state.inner#columns', 'C11')
def inner_columns(V):
    """for array-valued functions the function part is the sum of the inner products of equal columns (the diagonal of the
    matrix of inner products of the columns)"""
    N, k = V.int('N', 2), kinds(V)
    s, t = St(V, k, 's', N), St(V, k, 't', N)
    m = V.int('m', 1)
    IP = z3.Function('ip', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
    for q in (s, t):
        q.f = [V.new('funpy.fun.Fun', onefun=None, mapping=None, domain=None) for _ in range(q.nf)]
        q.o.fields['funcs'] = ovec(V, q.f)

    def ip(I, f, g):
        i = next(q for q in range(s.nf) if f is s.f[q])
        I.ctx.oblige(g is t.f[i], 'corresponding parts', 'call')
        return A.new(I.ctx, (m, m), lambda a, b: IP(i, T.to_z3(a), T.to_z3(b)), 'f')
    V.stub('funpy.fun.inner', ip)
    r = V.numpy('inner', s.o, t.o)
    tot = F0
    for i in range(s.nf):
        tot = T.add(tot, T.mul(s.ws(i), V.ctx.Sum(0, T.sub(m, 1), lambda k: IP(i, T.to_z3(k), T.to_z3(k)))))
    for i in range(s.nr):
        tot = T.add(tot, T.mul(s.ws(s.nf + i), T.mul(s.p[i], t.p[i])))
    V.ensure('weighted sum over equal columns', T.eq(scalar(r), tot))


@contract(VS + 'base_state.BaseState.norm', 'C11')
def norm(V):
    """norm(2)**2 is the weighted sum of the squared norms of the parts; operand unchanged"""
    N = V.int('N', 2)
    s = St(V, kinds(V), 's', N)
    sq = z3.Function('norm2', z3.IntSort(), z3.RealSort())
    seen = []

    def norm2(I, f, p=2, **k):
        i = next(q for q in range(s.nf) if f is s.f[q])
        seen.append(i)
        I.ctx.oblige(p == 2, 'the norm of a part is taken with the exponent of the state norm', 'call')
        return sq(i)
    V.stub('funpy.fun.norm2', norm2)
    for i in range(s.nf + s.nr):
        V.assume(T.ge(s.ws(i), 0))
        if i < s.nf:
            V.assume(sq(i) >= 0)
    r = V.method(s.o, 'norm')
    tot = F0
    for i in range(s.nf):
        tot = T.add(tot, T.mul(s.ws(i), sq(i)))
    for i in range(s.nr):
        tot = T.add(tot, T.mul(s.ws(s.nf + i), T.mul(s.p[i], s.p[i])))
    V.ensure('norm squared', T.eq(T.mul(scalar(r), scalar(r)), tot))
    V.ensure('not negative', T.ge(scalar(r), 0))
    V.ensure('every part once', seen == list(range(s.nf)))
    s.unchanged('operand')


@contract(VS + 'base_state.BaseState.__deepcopy__', 'C18')
def copy_state(V):
    """a deep copy is a state of the same kind with equal parts of its own"""
    N = V.int('N', 2)
    s = St(V, kinds(V), 's', N)
    r = V.I.np.call('copy.deepcopy', (s.o,), {})
    V.called = True
    check_state(V, r, s, lambda i, q: s.fs[i](q), lambda i: s.p[i], 'copy')
    V.ensure('own namespace', r.fields['ns'] is not s.ns)
    V.ensure('own containers', r.fields['funcs'].buf is not s.o.fields['funcs'].buf and r.fields['reals'].buf is not s.o.fields['reals'].buf)
    s.unchanged('original')


@contract(PAR + '.arithmetic', ('C11', 'C18'))
def parameter(V):
    """parameters add, subtract, negate, scale, divide in plain and in-place form, keep their name, copy independently"""
    a, b = V.real('a'), V.real('b')
    p, q = par(V, 'lam', a), par(V, 'lam', b)
    c = V.real('c')
    V.assume(T.ne(c, 0))
    op = V.choose('p+q', 'p-q', 'c*p', 'p*c', 'p/c', '-p', 'p+=q', 'p*=c', 'copy', 'zero', 'one', 'real', 'inner')
    want = {'p+q': T.add(a, b), 'p-q': T.sub(a, b), 'c*p': T.mul(c, a), 'p*c': T.mul(a, c), 'p/c': T.div(a, c), '-p': T.neg(a), 'p+=q': T.add(a, b), 'p*=c': T.mul(a, c),
            'copy': a, 'zero': F0, 'one': F1, 'real': a, 'inner': T.mul(a, b)}[op]
    r = {'p+q': lambda: V.numpy('add', p, q), 'p-q': lambda: V.numpy('subtract', p, q), 'c*p': lambda: V.numpy('multiply', c, p), 'p*c': lambda: V.numpy('multiply', p, c),
         'p/c': lambda: V.numpy('divide', p, c), '-p': lambda: V.numpy('negative', p), 'p+=q': lambda: V.numpy('add', p, q, out=(p,)), 'p*=c': lambda: V.numpy('multiply', p, c, out=(p,)),
         'copy': lambda: V.I.np.call('copy.deepcopy', (p,), {}), 'zero': lambda: V.numpy('zeros_like', p), 'one': lambda: V.numpy('ones_like', p), 'real': lambda: V.numpy('real', p),
         'inner': lambda: V.numpy('inner', p, q)}[op]()
    V.called = True
    if op == 'inner':
        V.ensure('value', T.eq(scalar(r), want))
    else:
        V.ensure('a parameter of the same name', isinstance(r, Obj) and r.cls.name == 'Parameter' and r.fields['name'] == 'lam')
        V.ensure('value', T.eq(scalar(r.fields['value']), want))
    V.ensure('identity', (r is p) == (op in ('p+=q', 'p*=c')))
    if op not in ('p+=q', 'p*=c'):
        V.ensure('left operand unchanged', T.eq(scalar(p.fields['value']), a))
    V.ensure('right operand unchanged', T.eq(scalar(q.fields['value']), b))
