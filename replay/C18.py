"""Copies and stored functions"""
from chebgen import *
import triggen
import C11
from copy import deepcopy


class Attrs(dict):
    """what an HDF5 attribute store gives back: arrays, scalars and text"""
    def __setitem__(self, k, v):
        if isinstance(v, (str, bytes)):
            dict.__setitem__(self, k, str(v))
            return
        a = np.array(v, copy=True)
        if a.dtype == object:
            raise TypeError('Object dtype has no native HDF5 equivalent')
        dict.__setitem__(self, k, a[()])

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        return v.copy() if isinstance(v, np.ndarray) else v


class Dataset:
    def __init__(self, data):
        self.data = np.array(data, copy=True, order='C')
        if self.data.dtype == object:
            raise TypeError('Object dtype has no native HDF5 equivalent')
        self.attrs = Attrs()

    shape = property(lambda self: self.data.shape)
    dtype = property(lambda self: self.data.dtype)

    def __getitem__(self, i):
        r = self.data[i]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __array__(self, *a, **k):
        return self.data.copy()


class Group:
    def __init__(self):
        self.attrs, self.d = Attrs(), {}

    def create_group(self, name):
        if name in self.d:
            raise ValueError('name already exists')
        self.d[name] = Group()
        return self.d[name]

    def create_dataset(self, name, data=None, **kw):
        if name in self.d:
            raise ValueError('name already exists')
        self.d[name] = Dataset(data)
        return self.d[name]

    def __getitem__(self, k):
        return self.d[k]

    def __contains__(self, k):
        return k in self.d

    def keys(self):
        return sorted(self.d)

    def items(self):
        return [(k, self.d[k]) for k in sorted(self.d)]

    def __iter__(self):
        return iter(sorted(self.d))


FLD = ['eps', 'hscale', 'maxLength', 'ishappy']


def tsnap(f):
    d = {k: getattr(f, k) for k in FLD}
    d['coeffs'], d['values'] = np.array(f.coeffs), np.array(f.values)
    d['cls'] = type(f)
    if f.istrig:
        d['isReal'], d['vscale'] = np.array(f.isReal), np.array(f.vscale)
    return d


def eqsnap(a, b, what, fields=None):
    check(set(a) == set(b), what + ': kind')
    for k in (fields or a):
        x, y = a[k], b[k]
        ok = (x is y) if k == 'cls' else (np.shape(x) == np.shape(y) and np.array_equal(x, y))
        check(ok, '%s: %s is %s, was %s' % (what, k, brief(y) if k != 'cls' else y, brief(x) if k != 'cls' else x))


def rtech(rng):
    """a function object on [-1, 1] with unusual attributes"""
    if rng.randint(2):
        f = tech(mat(rng), eps=float(10.0 ** rng.randint(-15, -3)), hscale=float(rng.choice([1.0, 3.5])), maxLength=int(rng.choice([65537, 16385, 1025])))
    else:
        c, real = triggen.coef(rng)
        f = triggen.tech(c, eps=float(10.0 ** rng.randint(-15, -3)), hscale=float(rng.choice([1.0, 3.5])))
        if rng.randint(2):
            f.maxLength = int(rng.choice([65536, 1024]))
    if rng.randint(3) == 0:
        f.ishappy = bool(rng.randint(2))
    return f


def rfun(rng):
    Fun = need('funpy.fun', 'Fun')
    a = float(rng.choice([-1.0, 0.0, -2.5, 3.0]))
    return Fun(onefun=rtech(rng), domain=np.array([a, a + float(rng.choice([1.0, 2.0, 0.25]))]))


def scribble(rng, f):
    f.coeffs += 1.0 + rng.uniform()
    if f.istrig:
        f.values += 3.0
    f.eps, f.hscale, f.maxLength, f.ishappy = 1e-3, 77.0, 33, not f.ishappy


def fsnap(f):
    return dict(tsnap(f.onefun), domain=np.array(f.domain, copy=True), ends=np.array(f.mapping.ends, copy=True), mid=np.array(f.mapping.fwd(np.array([-1.0, 0.3, 1.0]))),
                back=np.array(f.mapping.bwd(np.array([0.1, 0.7]))), der=np.array(f.mapping.der(np.array([0.2]))))


@case('C18', quick=150, contracts=('copies', '__deepcopy__'))
def functions(rng, i):
    f = rtech(rng) if rng.randint(2) else None
    F = None if f is not None else rfun(rng)
    sn = tsnap if F is None else fsnap
    o = f if F is None else F
    s0 = sn(o)
    how = 'deepcopy' if (f or F).istrig else ['deepcopy', 'np.copy'][rng.randint(2)]
    g = deepcopy(o) if how == 'deepcopy' else np.copy(o)
    fields = None
    if how == 'np.copy':
        fields = [k for k in s0 if k not in ('maxLength', 'ishappy', 'vscale', 'hscale')]
    eqsnap(s0, sn(g), how, fields)
    eqsnap(s0, sn(o), 'original after ' + how)
    check(type(g) is type(o), 'kind of the copy')
    x = np.linspace(-1, 1, 7) if F is None else np.linspace(F.domain[0], F.domain[1], 7)
    same(np.asarray(g(x)), np.asarray(o(x)), 'values of the copy')
    eqsnap(s0, sn(o), 'original after evaluation')
    a, b = (g, o) if rng.randint(2) else (o, g)
    sb = sn(b)
    scribble(rng, a if F is None else a.onefun)
    if F is not None and how == 'deepcopy':
        a.domain[...] = [100.0, 300.0]
    eqsnap(sb, sn(b), 'the other one after changing ' + ('the copy' if a is g else 'the original') + ' (%s)' % how)


@case('C18', quick=60, contracts=('__deepcopy__',))
def shared(rng, i):
    """what is shared inside one object stays shared inside its copy"""
    F = rfun(rng)
    l = [F, F, [F.onefun]]
    c = deepcopy(l)
    check(c[0] is c[1] and c[0] is not F, 'sharing of functions in the copy of a list')
    check(c[0].onefun is c[2][0], 'sharing of the representation in the copy of a list')
    eqsnap(fsnap(F), fsnap(c[0]), 'function copied inside a list')


def ssnap(s):
    d = C11.snap(s)
    d['fs'] = [fsnap(f) for f in s.funcs]
    d['vals'] = [r.value for r in s.reals]
    d['sig'] = list(s.signature)
    return d


def eqstate(a, b, what):
    for k in ('cls', 'cols', 'reals', 'ns', 'sig'):
        check(a[k] == b[k], '%s: %s is %s, was %s' % (what, k, b[k], a[k]))
    same(b['w'], a['w'], what + ': weights')
    for x, y in zip(a['fs'], b['fs']):
        eqsnap(x, y, what + ': function')


@case('C18', quick=150, contracts=('__deepcopy__',))
def states(rng, i):
    MP = need('funpy.vectorspaces.mp_state', 'MoorePenroseState')
    s = C11.state(rng, dom=[0.0, 2.0] if rng.randint(2) else None)
    for f in s.funcs:
        if rng.randint(3) == 0:
            f.onefun.eps = 1e-7
            f.onefun.ishappy = bool(rng.randint(2))
    mp = rng.randint(3) == 0
    t = C11.state(rng, kind=[k for k in C11.KINDS if True][0]) if mp else None
    s0 = ssnap(s)
    if mp:
        t0 = ssnap(t)
        w = MP(u=s, v=t)
        c = deepcopy(w)
        eqstate(t0, ssnap(c.v), 'copy of the tangent')
        d = c.u
        check(type(c) is MP and c.v is not t, 'kind of the copy')
    else:
        d = deepcopy(s)
    eqstate(s0, ssnap(d), 'copy')
    eqstate(s0, ssnap(s), 'original after copying')
    a, b = (d, s) if rng.randint(2) else (s, d)
    sb = ssnap(b)
    k = rng.randint(6)
    for f in a.funcs:
        scribble(rng, f.onefun) if k != 5 else None
    for r in a.reals:
        r.value = 17.25
    a.weights[...] = 9.0
    a.ns['mu'] = 4.0
    a.ns['extra'] = 5.0
    if k == 0 and len(a.reals):
        a.reals[0] = need('funpy.vectorspaces.parameter', 'Parameter')(zeta=1.0)
    if k == 1:
        a.funcs[0] = a.funcs[-1]
    eqstate(sb, ssnap(b), 'the other one after a change')


@case('C18', quick=60, contracts=('__deepcopy__',))
def parameters(rng, i):
    P = need('funpy.vectorspaces.parameter', 'Parameter')
    v = [1.5, 2, 3.5 + 1j, np.float64(0.25), np.array(2.5)][rng.randint(5)]
    p = P(alpha=v)
    q = deepcopy(p)
    check(type(q) is P and q.name == 'alpha' and q.value == p.value, 'copy of a parameter')
    a, b = (p, q) if rng.randint(2) else (q, p)
    if isinstance(a.value, np.ndarray):
        a.value[...] = 7.0
    else:
        a.value = 7.0
    a.name = 'beta'
    check(b.value == np.asarray(v if b is q and not isinstance(v, np.ndarray) else (2.5 if isinstance(v, np.ndarray) else v)) and b.name == 'alpha', 'the other parameter after a change: %r' % (b.value,))


@case('C18', quick=120, contracts=('writeHDF5', 'from_hdf5'))
def stored_functions(rng, i):
    Fun = need('funpy.fun', 'Fun')
    F = rfun(rng)
    s0 = fsnap(F)
    g = Group()
    F.writeHDF5(g)
    eqsnap(s0, fsnap(F), 'function after writing')
    G = Fun.from_hdf5(g)
    check(type(G) is Fun and type(G.onefun) is type(F.onefun), 'kind read back')
    eqsnap(s0, fsnap(G), 'read back', [k for k in s0 if k not in ('vscale', 'ishappy')] + (['ishappy'] if F.ishappy else []))
    x = np.linspace(F.domain[0], F.domain[1], 5)
    same(np.asarray(G(x)), np.asarray(F(x)), 'values read back')
    r = np.asarray(G(x)).copy()
    scribble(rng, F.onefun)
    same(np.asarray(G(x)), r, 'function read back after changing the written one')


@case('C18', quick=80, contracts=('writeHDF5', 'from_hdf5'))
def stored_states(rng, i):
    CS = need('funpy.vectorspaces.cont_state', 'ContinuationState')
    MP = need('funpy.vectorspaces.mp_state', 'MoorePenroseState')
    s = C11.state(rng, kind='cont', dom=[0.0, 2.0] if rng.randint(2) else None)
    if rng.randint(2):
        s.funcs[0] = rfun(rng)
    s0 = ssnap(s)
    g = Group()
    if rng.randint(3) == 0:
        MP(u=s, v=C11.state(rng, kind='cont')).writeHDF5(g)
        g = g['u']
    else:
        s.writeHDF5(g)
    eqstate(s0, ssnap(s), 'state after writing')
    t = CS.from_hdf5(g)
    t0 = ssnap(t)
    for a in s0['fs'] + t0['fs']:
        a.pop('vscale', None)
        a.pop('ishappy', None)
    eqstate(s0, t0, 'state read back')
    check(dict(s.items()) == dict(t.items()), 'items read back %s, written %s' % (dict(t.items()), dict(s.items())))
