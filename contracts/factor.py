"""Determinants, permutation parity, plane rotations, factorisations (C13)"""
from .lib import *
from pyvc.interp import PyClass, Native, POISON

H = 'funpy.linalg.helpers.'

SIGN = ('the sign of a permutation changes under every transposition and is one for the identity; an injective map of a finite set '
        'into itself is onto (standard mathematics, not proved here)')


def meth(name, f):
    n = Native(name, f)
    n.method = True
    return n


# ------------------------------------------------------------------ permutations
class Perm:
    """ghost permutations: identifiers with their values and signs; swp(p, i, j) is p with the values at i and j exchanged"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.app, self.sgn = ctx.func('app', 'ii', 'i'), ctx.func('sgn', 'i', 'i')
        self.pm = ctx.func('pm', 'i', 'i')          # (-1)^i
        ctx.schema(self.pm, lambda a: [z3.Implies(a[0] == 0, self.pm(a[0]) == 1), z3.Implies(a[0] > 0, self.pm(a[0]) == -self.pm(a[0] - 1))])
        ctx.schema(self.sgn, lambda a: [z3.Or(self.sgn(a[0]) == 1, self.sgn(a[0]) == -1)])

    def at(self, p, i):
        return self.app(T.to_z3(p), T.to_z3(i))

    def swap(self, p, i, j, n):
        """a permutation and what is known of it"""
        ctx = self.ctx
        q = ctx.fresh('perm', 'int')
        i, j = T.to_z3(i), T.to_z3(j)
        ctx.forall(n, lambda l: T.eq(self.at(q, l), T.ite(T.eq(l, i), self.at(p, j), T.ite(T.eq(l, j), self.at(p, i), self.at(p, l)))))
        for l in (i, j):
            ctx.assume(self.at(q, l) == z3.If(l == i, self.at(p, j), self.at(p, i)))
        ctx.assume(self.sgn(q) == z3.If(i == j, self.sgn(p), -self.sgn(p)))
        return q


def swaps_inv(I, fr, st, o, loops):
    ctx = I.ctx
    g = ctx.perm
    mem = {}

    def inv(env):
        k, n = env.k, g.n
        maps = [v for v in env.fr.vars.values() if hasattr(v, 'vals')]
        if len(maps) != 2:
            raise Unsupported('two dictionaries')
        # values are those of the permutation, the other dictionary is its inverse
        a, b = (maps[0], maps[1]) if hasattr(maps[0], 'vc_symiter') else (maps[1], maps[0])
        if 'count' not in mem:
            zero = [x for x, v in env.fr.vars.items() if T.is_scalar(v) and not T.isz3(v) and v == 0]
            if len(zero) != 1:
                raise Unsupported('one counter')
            mem['count'] = zero[0]
        c = env.fr.vars[mem['count']]
        if 'entered' not in mem:
            mem['entered'] = True
            p = g.p0
        elif env.step:
            p = mem['p'] = ctx.fresh('perm', 'int')
            mem['y'] = T.to_z3(b.vals.elem(k))
            mem['k'] = k
        elif 'p' in mem:
            p = g.swap(mem['p'], mem['k'], mem['y'], n)
        else:
            p = g.last = ctx.fresh('perm', 'int')
        av, bv = a.vals, b.vals
        return [('count', T.ge(c, 0)),
                ('sorted part', lambda j: T.eq(g.at(p, j), j), k),
                ('open part', lambda j: T.land(T.eq(g.at(p, j), av.elem(j)), T.ge(av.elem(j), k), T.lt(av.elem(j), n)), n, k),
                ('inverse', lambda j: T.land(T.ge(bv.elem(j), k), T.lt(bv.elem(j), n), T.eq(av.elem(bv.elem(j)), j)), n, k),
                ('inverse of the open part', lambda j: T.eq(bv.elem(av.elem(j)), j), n, k),
                ('sign', T.eq(T.mul(g.pm(T.to_z3(c)), g.sgn(p)), g.sgn(g.p0)))]
    return inv


@contract(H + 'minimumSwaps', 'C13', inv={H + 'minimumSwaps': swaps_inv})
def swaps(V):
    """(-1) to the number of swaps is the sign of the permutation, which is not changed"""
    ctx, n = V.ctx, V.int('n', 1)
    assumed(ctx, SIGN)
    g = ctx.perm = Perm(ctx)
    g.n, g.p0 = n, ctx.fresh('perm', 'int')
    a = V.arr('arr', (n,), 'i')
    s = a.snap()
    inv = ctx.func('arr inverse', 'i', 'i')
    # a permutation: values in range, with an inverse
    ctx.forall(n, lambda j: T.land(T.ge(s(j), 0), T.lt(s(j), n), T.eq(inv(T.to_z3(s(j))), j), T.eq(g.at(g.p0, j), s(j))))
    z = V.freeze(a)
    r = V.call(H + 'minimumSwaps', a)
    if not hasattr(g, 'last'):
        raise Unsupported('the loop of minimumSwaps')
    q = ctx.fresh('q', 'int')
    V.lemma('the permutation is sorted', T.implies(T.land(T.ge(q, 0), T.lt(q, n)), T.eq(g.at(g.last, q), q)))
    ctx.assume(g.sgn(g.last) == 1)
    V.ensure('not negative', T.ge(r, 0))
    V.ensure('parity', T.eq(g.pm(T.to_z3(r)), g.sgn(g.p0)))
    V.ensure_frozen('permutation', z)


# ------------------------------------------------------------------ plane rotations
def givens_inv(I, fr, st, o, loops):
    import ast
    ctx = I.ctx
    f, g = ctx.giv
    eps = Fraction(1, 2 ** 52)
    mem = {}
    down = ctx.func('eps^', 'i', 'f')
    if 'eps^' not in ctx.schemas:
        ctx.schema(down, lambda a: [down(a[0]) > 0, z3.Implies(a[0] == 0, down(a[0]) == 1),
                                    z3.Implies(a[0] > 0, down(a[0]) == down(a[0] - 1) * T.to_z3(eps))])
    E = lambda k: down(T.to_z3(k))

    def find(env, v):
        out = [x for x, w in env.fr.vars.items() if x in mem['names'] and T.is_scalar(w) and not isinstance(w, bool) and same(w, v)]
        if len(out) != 1:
            raise Unsupported('roles of the scaling loop')
        return out[0]

    def same(w, v):
        return w.eq(v) if T.isz3(w) and T.isz3(v) else not T.isz3(w) and not T.isz3(v) and w == v

    from pyvc.interp import assigned_names
    mem['names'] = set(assigned_names(st.body))
    if isinstance(st, ast.While):
        big = ctx.prove(T.ge(T.maxv(T.absv(f), T.absv(g)), 1))

        def inv(env):
            if 'c' not in mem:
                mem['c'] = find(env, 0)
                mem['f'], mem['g'] = find(env, f), find(env, g)
            v = env.fr.vars
            c, F, G = v[mem['c']], v[mem['f']], v[mem['g']]
            ctx.scaled = (c, F, G, big)
            if big:
                return [('count', T.ge(c, 0)), ('first', T.eq(F, T.mul(f, E(c)))), ('second', T.eq(G, T.mul(g, E(c))))]
            return [('count', T.ge(c, 0)), ('first', T.eq(T.mul(F, E(c)), f)), ('second', T.eq(T.mul(G, E(c)), g))]
        return inv

    def inv(env):
        if 'r' not in mem:
            ns = [x for x in mem['names'] if T.is_scalar(env.fr.vars.get(x)) and env.fr.vars[x] is not POISON]
            if len(ns) != 1:
                raise Unsupported('one number is scaled back')
            mem['r'] = ns[0]
            ctx.r0 = env.fr.vars[mem['r']]
        r = env.fr.vars[mem['r']]
        if ctx.scaled[3]:
            return [('scaled back', T.eq(T.mul(r, E(env.k)), ctx.r0))]
        return [('scaled back', T.eq(r, T.mul(ctx.r0, E(env.k))))]
    return inv


def givens_spec(V):
    ctx = V.ctx
    f, g = V.real('f'), V.real('g')
    ctx.giv = (f, g)
    ctx.scaled = ctx.r0 = None
    c, s, r = V.call(H + 'givensAlgorithm', f, g)
    for nm, v in zip('csr', (c, s, r)):
        if not T.is_scalar(v):
            V.ensure('numbers', False)
            return
    return f, g, c, s, r


@contract(H + 'givensAlgorithm', 'C13', inv={H + 'givensAlgorithm': givens_inv}, budget=200)
def givens(V):
    """a rotation that sends (f, g) to (r, 0)"""
    f, g, c, s, r = givens_spec(V)
    V.ensure('rotation', T.eq(T.add(T.mul(c, c), T.mul(s, s)), 1))
    V.ensure('first entry', T.eq(T.add(T.mul(c, f), T.mul(s, g)), r))
    V.ensure('second entry is annihilated', T.eq(T.sub(T.mul(c, g), T.mul(s, f)), 0))


# ------------------------------------------------------------------ determinants from factorisations
LUTHM = ('for P_r A P_c = L U (row scaling R > 0: A = R P_r^T L U P_c^T) with permutation matrices of the vectors perm_r, perm_c: '
         'sign det A = sgn(perm_r) sgn(perm_c) prod sign L_kk prod sign U_kk, log |det A| = sum log |L_kk| + sum log |U_kk| (+ sum log R_k) '
         '(standard mathematics, not proved here); SuperLU / UMFPACK factors are assumed to be such a factorisation')


def lnabs(ctx):
    """log |x| as the model of numpy has it"""
    f = ctx.func('log', 'f', 'f')
    return lambda x: f(T.to_z3(T.absv(x)))


def signs(x):
    return T.ite(T.gt(x, 0), F1, T.ite(T.lt(x, 0), -F1, F0))


class Factorisation:
    """a sparse factorisation object; contract of minimumSwaps: (-1)^swaps is the sign of the permutation"""

    def __init__(self, V, n, scaled):
        ctx, self.n = V.ctx, n
        self.L, self.U, self.R = V.arr('diagL', (n,), 'f'), V.arr('diagU', (n,), 'f'), V.arr('R', (n,), 'f')
        self.pr, self.pc = V.arr('perm_r', (n,), 'i'), V.arr('perm_c', (n,), 'i')
        l, u, r = self.L.snap(), self.U.snap(), self.R.snap()
        self.l, self.u, self.r = l, u, r
        ctx.forall(n, lambda i: T.land(T.ne(l(i), 0), T.ne(u(i), 0), T.gt(r(i), 0)))

        def fac(nm, d):
            o = Obj(PyClass('Factor' + nm, [], {'diagonal': meth('diagonal', lambda self: fresh(d))}, None))
            o.fields.update(shape=(n, n))
            return o

        def fresh(d):
            s = d.snap()
            return A.new(ctx, (n,), lambda i: s(i), 'f')
        self.obj = Obj(PyClass('Factorisation', [], {}, None))
        self.obj.fields.update(L=fac('L', self.L), U=fac('U', self.U), perm_r=self.pr, perm_c=self.pc, shape=(n, n))
        if scaled:
            self.obj.fields['R'] = self.R
        self.fz = [V.freeze(x) for x in (self.L, self.U, self.R, self.pr, self.pc)]
        sw = {}

        def swaps(I, arr):
            for nm, p in (('r', self.pr), ('c', self.pc)):
                if isinstance(arr, Arr) and arr.buf is p.buf and arr.whole:
                    return sw[nm]
            raise Unsupported('swaps of another vector')
        V.stub(H + 'minimumSwaps', swaps, H + 'minimumSwaps')
        # the ghost signs of the two permutations
        self.sr, self.sc = ctx.fresh('sgn', 'int'), ctx.fresh('sgn', 'int')
        for nm, s in (('r', self.sr), ('c', self.sc)):
            sw[nm] = ctx.fresh('swaps', 'int')
            ctx.assume(z3.And(sw[nm] >= 0, s == z3.If(sw[nm] % 2 == 0, 1, -1)))

    def want(self, ctx, scaled):
        n, ln = self.n, lnabs(ctx)
        sg = T.mul(T.to_real(T.mul(self.sr, self.sc)), T.mul(ctx.prod(n, lambda i: signs(self.l(i))), ctx.prod(n, lambda i: signs(self.u(i)))))
        ld = ctx.Sum(0, T.sub(n, 1), lambda i: T.add(T.add(ln(self.l(i)), ln(self.u(i))), ln(self.r(i)) if scaled else 0))
        return sg, ld


def two(V, r):
    if not (isinstance(r, tuple) and len(r) == 2 and all(T.is_scalar(x) for x in r)):
        V.ensure('sign and logarithm', False)
        raise PathDone()
    return r


def detail_spec(name, scaled):
    def spec(V):
        """sign and logarithm of the determinant from the factors and the permutations"""
        ctx, n = V.ctx, V.int('n', 1)
        assumed(ctx, LUTHM)
        F = Factorisation(V, n, scaled)
        sg, ld = two(V, V.call(H + name, F.obj))
        ws, wl = F.want(ctx, scaled)
        V.ensure('sign', T.eq(sg, ws))
        V.ensure('logarithm', T.eq(ld, wl))
        for z in F.fz:
            V.ensure_frozen('factors', z)
    return spec


contract(H + 'logdet_detail_superlu', 'C13')(detail_spec('logdet_detail_superlu', False))
contract(H + 'logdet_detail_umfpack', 'C13')(detail_spec('logdet_detail_umfpack', True))


@contract(H + 'logdet', 'C13', uses=(H + 'logdet_detail_superlu',), hooks={'scipy.sparse.linalg.splu': lambda M, A_: M.ctx.splu(A_)})
def logdet(V):
    """sign and logarithm of the SuperLU factors of the matrix (SuperLU assumed)"""
    ctx = V.ctx
    assumed(ctx, LUTHM)
    m = Obj(PyClass('Sparse', [], {'tocsc': meth('tocsc', lambda self: csc)}, None))
    csc = Obj(PyClass('SparseCsc', [], {'tocsc': meth('tocsc', lambda self: csc)}, None))
    lu = Obj(PyClass('SuperLU', [], {}, None))

    def splu(a):
        ctx.oblige(a is csc or a is m, 'the matrix is factored', 'call')
        return lu
    ctx.splu = splu
    s, l = V.real('sign'), V.real('logdet')

    def detail(I, o):
        ctx.oblige(o is lu, 'the factors of the matrix', 'call')
        return (s, l)
    V.stub(H + 'logdet_detail_superlu', detail, H + 'logdet_detail_superlu')
    a, b = two(V, V.call(H + 'logdet', m))
    V.ensure('sign', T.eq(a, s))
    V.ensure('logarithm', T.eq(b, l))


@contract(H + 'Determinant', 'C13', uses=(H + 'logdet_detail_umfpack',))
def determinant(V):
    """computes sign and logarithm once, det = sign exp(logarithm)"""
    ctx = V.ctx
    lu = Obj(PyClass('Lu', [], {}, None))
    s, l = V.real('sign'), V.real('logdet')

    def detail(I, o):
        ctx.oblige(o is lu, 'the factors given to the constructor', 'call')
        return (s, l)
    V.stub(H + 'logdet_detail_umfpack', detail, H + 'logdet_detail_umfpack')
    known = V.choose(False, True)
    cls = V.get(H + 'Determinant')
    d = V.call(cls, l, s) if known else V.call(cls, lu=lu)
    want = T.mul(s, V.numpy('exp', l))
    first = V.choose('det', 'call')
    if first == 'det':
        V.ensure('det', T.eq(V.method(d, 'det'), want))
    a, b = two(V, V.I.call(d, [], {}))
    V.ensure('sign', T.eq(a, s))
    V.ensure('logarithm', T.eq(b, l))
    V.ensure('det afterwards', T.eq(V.method(d, 'det'), want))


# ------------------------------------------------------------------ Hessenberg determinants
HESS = ('leading principal minors of an upper Hessenberg matrix satisfy D_0 = 1, D_{k+1} = a_kk D_k + sum_{j<k} (-1)^{k-j} a_jk '
        '(prod_{l=j+1..k} a_{l,l-1}) D_j (expansion of the determinant, not proved here)')


class Minors:
    """D(k): leading principal minors of an upper Hessenberg matrix; pp(j, k) = prod_{l=j+1..k} a_{l,l-1}"""

    def __init__(self, ctx, a):
        self.ctx = ctx
        self.D, self.pp = ctx.func('D', 'i', 'f'), ctx.func('pp', 'ii', 'f')
        ctx.schema(self.pp, lambda q: [z3.Implies(q[0] == q[1], self.pp(*q) == 1),
                                       z3.Implies(q[0] < q[1], self.pp(*q) == self.pp(q[0], q[1] - 1) * T.to_z3(a(q[1], T.sub(q[1], 1))))])

    def rec(self, a, k):
        """what is known of D(k + 1)"""
        ctx, tz = self.ctx, T.to_z3
        sg = parity(ctx)
        s = ctx.Sum(0, T.sub(k, 1), lambda j: T.mul(T.mul(sg(T.sub(k, j)), a(j, k)), T.mul(self.pp(tz(j), tz(k)), self.D(tz(j)))))
        return T.eq(self.D(tz(T.add(k, 1))), T.add(T.mul(a(k, k), self.D(tz(k))), s))


def vecs(env):
    return [(nm, v) for nm, v in env.fr.vars.items() if isinstance(v, Arr) and v.buf in env.W and v.ndim == 1 and v.whole]


def detH_inv(I, fr, st, o, loops):
    if o != 0 or len(loops) < 2:
        return None
    ctx = I.ctx
    mn, a, n = ctx.minors, ctx.mat, ctx.size
    tz = T.to_z3

    def inv(env):
        k = env.item(env.k)              # the next row
        d = [v for _, v in vecs(env) if ctx.prove(T.eq(v.shape[0], T.add(n, 1)))]
        p = [v for _, v in vecs(env) if ctx.prove(T.eq(v.shape[0], n))]
        if len(d) != 1 or len(p) != 1:
            raise Unsupported('minors and products')
        d, p = d[0], p[0]
        if env.step:
            ctx.assume(tz(mn.rec(a, k)))
        return [('minors', lambda i: T.eq(d.elem(i), mn.D(tz(i))), T.add(k, 1)),
                ('products', lambda j: T.eq(p.elem(j), mn.pp(tz(j), tz(T.sub(k, 1)))), k)] + \
               [('ones', lambda j: T.eq(p.elem(j), 1), n, k)]
    return inv


@contract(H + 'detH', 'C13', inv={H + 'detH': detH_inv})
def detH(V):
    """the last leading minor by the recurrence of Hessenberg determinants"""
    ctx, n = V.ctx, V.int('n', 1)
    assumed(ctx, HESS)
    m = V.arr('A', (n, n), 'f')
    z = V.freeze(m)
    a = m.snap()
    ctx.mat, ctx.size = a, n
    mn = ctx.minors = Minors(ctx, a)
    ctx.assume(mn.D(0) == 1)
    ctx.assume(T.to_z3(mn.rec(a, 0)))
    r = V.call(H + 'detH', m)
    if not T.is_scalar(r):
        V.ensure('a number', False)
        return
    V.ensure('determinant', T.eq(r, mn.D(T.to_z3(n))))
    V.ensure_frozen('matrix', z)


ROT = ('a rotation of two columns keeps the determinant, and a last row that is zero up to its last entry r gives det = r times the '
       'leading minor (standard mathematics, not proved here): with Dt(g, k) the determinant of the leading k+1 columns whose last one is '
       'replaced by g, Dt(g, 0) = g_0 and Dt(g, k) = r Dt(g\', k-1) for a rotation c, s of g_k, a_{k,k-1} to r, 0 and g\'_j = c a_{j,k-1} - s g_j')
LOG = 'log |a b| = log |a| + log |b| for nonzero a, b'


class Rotations:
    def __init__(self, V, a, n):
        ctx = self.ctx = V.ctx
        self.a, self.n = a, n
        self.col, self.Dt = ctx.func('col', 'ii', 'f'), ctx.func('Dt', 'ii', 'f')
        self.ln = lnabs(ctx)
        self.last = None

        def rot(I, f, g):
            c, s, r = (ctx.fresh(x, 'real') for x in 'csr')
            f, g = T.to_real(f), T.to_real(g)
            ctx.assume(T.to_z3(T.land(T.eq(T.add(T.mul(c, c), T.mul(s, s)), 1), T.eq(T.add(T.mul(c, f), T.mul(s, g)), r),
                                      T.eq(T.sub(T.mul(c, g), T.mul(s, f)), 0))))
            self.last = (f, g, c, s, r)
            return (c, s, r)
        V.stub(H + 'givensAlgorithm', rot, H + 'givensAlgorithm')

    def C(self, g, j):
        return self.col(T.to_z3(g), T.to_z3(j))

    def D(self, g, k):
        return self.Dt(T.to_z3(g), T.to_z3(k))

    def logs(self, x, y):
        self.ctx.assume(z3.Implies(z3.And(T.to_z3(x) != 0, T.to_z3(y) != 0), T.to_z3(T.eq(self.ln(T.mul(x, y)), T.add(self.ln(x), self.ln(y))))))


def hess_inv(I, fr, st, o, loops):
    import ast
    if not any(isinstance(x, (ast.For, ast.While)) for x in ast.walk(st) if x is not st):
        return None
    ctx = I.ctx
    R, mem = ctx.rotations, {}
    a, n = R.a, R.n

    def role(env, val):
        out = [x for x, w in env.fr.vars.items() if T.is_scalar(w) and not isinstance(w, bool) and not T.isz3(w) and not T.is_int(w) and w == val]
        if len(out) != 1:
            raise Unsupported('sign and logarithm')
        return out[0]

    def inv(env):
        kk = T.sub(T.sub(n, 1), env.k)
        gs = [v for _, v in vecs(env)]
        if len(gs) != 1:
            raise Unsupported('one working column')
        g = gs[0]
        if 'P' not in mem:
            mem['P'], mem['l'] = role(env, 1), role(env, 0)
            ctx.assume(T.to_z3(T.eq(R.ln(F1), 0)))
            q, rho = R.g0, F1
        elif env.step:
            q, rho = mem['q'], mem['rho'] = ctx.fresh('col', 'int'), ctx.fresh('rho', 'real')
            ctx.assume(z3.Implies(T.to_z3(kk) == 0, T.to_z3(T.eq(R.D(q, 0), R.C(q, 0)))))
            mem['old'], mem['kk'] = g.snap(), kk
        elif 'q' in mem:
            if R.last is None:
                ctx.oblige(False, 'a rotation in every step', 'invariant')
                raise PathDone()
            f, h, c, s, r = R.last
            k, old = mem['kk'], mem['old']
            ctx.oblige(T.land(T.eq(f, old(k)), T.eq(h, a(k, T.sub(k, 1)))), 'the last row is rotated', 'invariant')
            q = ctx.fresh('col', 'int')
            j = ctx.fresh('j', 'int')
            new = g.snap()
            nxt = lambda j: T.sub(T.mul(c, a(j, T.sub(k, 1))), T.mul(s, old(j)))
            ctx.oblige(T.implies(T.land(T.ge(j, 0), T.lt(j, k)), T.eq(new(j), nxt(j))), 'the other rows are rotated alike', 'invariant')
            ctx.forall(k, lambda j: T.eq(R.C(q, j), nxt(j)))
            ctx.assume(T.to_z3(T.eq(R.D(mem['q'], k), T.mul(r, R.D(q, T.sub(k, 1))))))
            ctx.assume(z3.Implies(T.to_z3(k) == 1, T.to_z3(T.eq(R.D(q, 0), R.C(q, 0)))))
            rho = T.mul(mem['rho'], r)
            R.logs(mem['rho'], r)
        else:
            q, rho = ctx.fresh('col', 'int'), ctx.fresh('rho', 'real')
            ctx.assume(T.to_z3(T.eq(R.D(q, 0), R.C(q, 0))))
            R.end = (q, rho)
        P, l = env.fr.vars[mem['P']], env.fr.vars[mem['l']]
        return [('working column', lambda j: T.eq(g.elem(j), R.C(q, j)), T.add(kk, 1)),
                ('factors', T.ne(rho, 0)), ('determinant', T.eq(R.D0, T.mul(rho, R.D(q, kk)))),
                ('sign', T.eq(P, signs(rho))), ('logarithm', T.eq(l, R.ln(rho)))]
    return inv


@contract(H + 'slogdet_hessenberg', 'C13', uses=(H + 'givensAlgorithm',), inv={H + 'slogdet_hessenberg': hess_inv})
def slogdet(V):
    """sign and logarithm of the determinant of a nonsingular Hessenberg matrix"""
    ctx, n = V.ctx, V.int('n', 0)
    assumed(ctx, ROT)
    assumed(ctx, LOG)
    if V.choose('any', 'empty') == 'empty':
        V.assume(T.eq(n, 0))
        n = 0
    else:
        V.assume(T.ge(n, 1))
    m = V.arr('A', (n, n), 'f')
    z = V.freeze(m)
    if n == 0 and not T.isz3(n):
        sg, ld = two(V, V.call(H + 'slogdet_hessenberg', m))
        V.ensure('sign of the empty determinant', T.eq(sg, 1))
        V.ensure('logarithm of the empty determinant', T.eq(ld, 0))
        return
    R = ctx.rotations = Rotations(V, m.snap(), n)
    a = R.a
    R.g0 = ctx.fresh('col', 'int')
    ctx.forall(n, lambda j: T.eq(R.C(R.g0, j), a(j, T.sub(n, 1))))
    R.D0 = R.D(R.g0, T.sub(n, 1))
    V.assume(T.ne(R.D0, 0))
    ctx.assume(z3.Implies(T.to_z3(n) == 1, T.to_z3(T.eq(R.D0, R.C(R.g0, 0)))))
    R.end = (R.g0, F1)
    ctx.assume(T.to_z3(T.eq(R.ln(F1), 0)))
    sg, ld = two(V, V.call(H + 'slogdet_hessenberg', m))
    q, rho = R.end
    R.logs(rho, R.C(q, 0))
    V.ensure('sign', T.eq(sg, signs(R.D0)))
    V.ensure('logarithm', T.eq(ld, R.ln(R.D0)))
    V.ensure_frozen('matrix', z)


# ------------------------------------------------------------------ QR
QR_ = 'funpy.linalg.qr_solve.'
LAPACK = ('LAPACK: qr(A, pivoting) returns reflectors (q, tau) of an orthogonal Q, upper triangular R and a permutation C with '
          'A[:, C] = Q R; ormqr applies Q or Q^T, trtrs solves with a triangular matrix or its transpose; the determinant of Q is -1 to the '
          'number of non-zero scalars tau (the last one of a square real matrix is zero); argsort of a permutation is its inverse')


class Qr:
    """factors of an arbitrary square matrix, with the LAPACK routines that use them"""

    def __init__(self, V, n, singular=False):
        ctx = self.ctx = V.ctx
        self.V, self.n = V, n
        self.Q, self.R = ctx.func('Q', 'ii', 'f'), ctx.func('R', 'ii', 'f')
        self.tau, self.qq = V.arr('tau', (n,), 'f'), V.arr('q', (n, n), 'f')
        N = T.to_z3(n)
        rr = lambda i, j: T.ite(T.le(i, j), self.R(T.to_z3(i), T.to_z3(j)), F0)
        self.r = rr
        self.Rarr = A.new(ctx, (n, n), rr, 'f')
        cf, pf = ctx.func('C', 'i', 'i'), ctx.func('P', 'i', 'i')
        self.c, self.p = (lambda i: cf(T.to_z3(i))), (lambda i: pf(T.to_z3(i)))
        inr = lambda v: z3.And(v >= 0, v < N)
        ctx.schema(cf, lambda a: [z3.Implies(inr(a[0]), z3.And(inr(cf(a[0])), pf(cf(a[0])) == a[0]))])
        ctx.schema(pf, lambda a: [z3.Implies(inr(a[0]), z3.And(inr(pf(a[0])), cf(pf(a[0])) == a[0]))])
        self.C, self.P = A.new(ctx, (n,), self.c, 'i'), A.new(ctx, (n,), self.p, 'i')
        self.tri = []               # (size, transposed, solution, right hand side)
        assumed(ctx, LAPACK)

    def ormqr(self, side, trans, q, tau, c, lwork=None, **kw):
        ctx = self.ctx
        ctx.oblige(side == 'L' and trans in ('T', 'N') and q is self.qq and tau is self.tau, 'ormqr: the reflectors of the matrix', 'call')
        ctx.oblige(isinstance(c, Arr) and c.ndim == 1 and bool(ctx.prove(T.eq(c.shape[0], self.n))), 'ormqr: a vector of the size of the matrix', 'call')
        s = c.snap()
        out = A.new(ctx, (self.n,), lambda i: self.ortho(i, s, trans), 'f')
        return (out, A.new(ctx, (1,), lambda i: T.to_real(self.n), 'f'), 0)

    def ortho(self, i, s, trans):
        i = T.to_z3(i)
        return self.ctx.Sum(0, T.sub(self.n, 1), lambda l: T.mul(self.Q(T.to_z3(l), i) if trans == 'T' else self.Q(i, T.to_z3(l)), s(l)))

    def trtrs(self, a, b, lower=0, trans=0, **kw):
        """solves with the leading part of R (or its transpose)"""
        ctx = self.ctx
        ctx.oblige(not T.isz3(lower) and lower == 0 and not T.isz3(trans) and trans in (0, 1), 'trtrs: upper triangle', 'call')
        if not (isinstance(a, Arr) and a.ndim == 2 and isinstance(b, Arr) and b.ndim == 1):
            raise Unsupported('trtrs')
        k = a.shape[0]
        ctx.oblige(T.land(T.eq(a.shape[1], k), T.eq(b.shape[0], k)), 'trtrs: sizes', 'call')
        i, j = ctx.fresh('i', 'int'), ctx.fresh('j', 'int')
        ctx.oblige(T.implies(T.land(T.le(0, i), T.le(i, j), T.lt(j, k)), T.eq(a.elem(i, j), self.r(i, j))), 'trtrs: the factor R', 'call')
        x = ctx.func('x!%d' % len(self.tri), 'i', 'f')
        f, s = (lambda i: x(T.to_z3(i))), b.snap()
        self.tri.append((k, bool(trans), f, s))
        return (A.new(ctx, (k,), f, 'f'), 0)

    def row(self, i):
        """row i of the triangular systems that were solved"""
        ctx, out = self.ctx, []
        for k, tr, f, s in self.tri:
            e = T.eq(ctx.Sum(0, T.sub(k, 1), lambda l: T.mul(self.r(l, i) if tr else self.r(i, l), f(l))), s(i))
            out.append(T.implies(T.land(T.le(0, i), T.lt(i, k)), e))
        return T.land(*out)

    def fields(self, **kw):
        n = self.n
        d = dict(shape=(n, n), tol=self.V.real('tol', Fraction(1, 10 ** 20)), sparse=False, R=self.Rarr, C=self.C, P=self.P, q=self.qq, tau=self.tau,
                 phi=None, psi=None, ormqr=Native('ormqr', self.ormqr), trtrs=Native('trtrs', self.trtrs))
        d.update(kw)
        return d


def qr_case(V, lo=1):
    n = V.int('n', lo)
    F = Qr(V, n)
    b = V.arr('b', (n,), 'f')
    return n, F, V.new(QR_ + 'QR', **F.fields()), b


def vector(V, name, x, n):
    if not isinstance(x, Arr) or x.ndim != 1:
        V.ensure(name + ': a vector', False)
        raise PathDone()
    V.ensure(name + ': size', T.eq(x.shape[0], n))
    return x.snap()


def index(V, n, name='i'):
    i = V.ctx.fresh(name, 'int')
    V.assume(z3.And(i >= 0, i < T.to_z3(n)))
    return i


@contract(QR_ + 'QR.solve', 'C13')
def qr_solve(V):
    """R y = Q^T b for y the entries of the solution in the order of the pivots: A x = Q R y = b"""
    n, F, o, b = qr_case(V)
    z, s = V.freeze(b), b.snap()
    x = vector(V, 'solution', V.method(o, 'solve', b), n)
    i = index(V, n)
    V.assume(F.row(i))
    V.ensure('R x[C] = Q^T b', T.eq(V.ctx.Sum(0, T.sub(n, 1), lambda l: T.mul(F.r(i, l), x(F.c(l)))), F.ortho(i, s, 'T')))
    V.ensure_frozen('right hand side', z)


@contract(QR_ + 'QR.solve_adj', 'C13')
def qr_solve_adj(V):
    """x = Q w with R^T w = b[C]: A^T x restricted to the pivot order is R^T Q^T x = b[C]"""
    ctx = V.ctx
    n, F, o, b = qr_case(V)
    z, s = V.freeze(b), b.snap()
    x = vector(V, 'solution', V.method(o, 'solve_adj', b), n)
    i = index(V, n)
    V.assume(F.row(i))
    if len(F.tri) != 1:
        V.ensure('one triangular solve', False)
        return
    w = F.tri[0][2]
    V.ensure('R^T w = b[C]', T.eq(ctx.Sum(0, T.sub(n, 1), lambda l: T.mul(F.r(l, i), w(l))), s(F.c(i))))
    V.ensure('x = Q w', T.eq(x(i), F.ortho(i, w, 'N')))
    V.ensure_frozen('right hand side', z)


def outcome(f):
    try:
        return f()
    except PyRaise as e:
        return e


def singular_case(V):
    n = V.int('n', 2)
    F = Qr(V, n)
    m = T.sub(n, 1)
    V.assume(T.eq(F.r(m, m), 0))
    R = F.Rarr
    o = V.new(QR_ + 'QR', **F.fields(Rbar=A.view(V.ctx, R, (slice(None, -1), slice(None, -1))), Sbar=A.view(V.ctx, R, (slice(None, -1), -1)), is_singular=True))
    return n, F, o, m



@contract(QR_ + 'QR._null', 'C13')
def qr_null(V):
    """R phi[C] = 0 and psi the last column of Q, where R^T e_n = 0"""
    ctx = V.ctx
    n, F, o, m = singular_case(V)
    which = V.choose('_null', 'null')
    phi, psi = V.method(o, which)
    f, g = vector(V, 'right null vector', phi, n), vector(V, 'left null vector', psi, n)
    i = index(V, n)
    V.assume(T.lt(i, m))            # the last row of R is zero
    V.assume(F.row(i))
    V.ensure('R phi[C] = 0', T.eq(T.add(ctx.Sum(0, T.sub(m, 1), lambda l: T.mul(F.r(i, l), f(F.c(l)))), T.mul(F.r(i, m), f(F.c(m)))), 0))
    V.ensure('not zero', T.ne(f(F.c(m)), 0))
    V.ensure('psi is the last column of Q', T.eq(g(i), F.Q(i, T.to_z3(m))))
    V.ensure('R^T e_n = 0', T.eq(F.r(m, i), 0))
    if which == '_null':
        return
    p2, q2 = V.method(o, 'null')
    V.ensure_equal('again', p2, phi)
    V.ensure_equal('again', q2, psi)


@contract(QR_ + 'QR.particular', 'C13')
def qr_particular(V):
    """R x[C] = Q^T b up to the last row, where the right-hand side is below the tolerance; otherwise RuntimeWarning"""
    ctx = V.ctx
    n, F, o, m = singular_case(V)
    b = V.arr('b', (n,), 'f')
    z, s = V.freeze(b), b.snap()
    V.ensure_frozen('right hand side', z)
    last = F.ortho(m, s, 'T')
    x = outcome(lambda: V.method(o, 'particular', b))
    if isinstance(x, PyRaise):
        V.ensure('only for right-hand sides outside the range', T.gt(T.absv(last), o.fields['tol']))
        return
    V.ensure('in the range up to the tolerance', T.le(T.absv(last), o.fields['tol']))
    x = vector(V, 'solution', x, n)
    i = index(V, n)
    V.assume(F.row(i))
    V.ensure('free variable', T.eq(x(F.c(m)), 0))
    V.ensure('R x[C] = Q^T b', T.implies(T.lt(i, m), T.eq(ctx.Sum(0, T.sub(m, 1), lambda l: T.mul(F.r(i, l), x(F.c(l)))), F.ortho(i, s, 'T'))))


@contract(QR_ + 'QR.particular_adj', 'C13')
def qr_particular_adj(V):
    """x = Q w with w_n = 0, R^T w = b[C] in all rows, the last one up to the tolerance; otherwise RuntimeWarning"""
    ctx = V.ctx
    n, F, o, m = singular_case(V)
    b = V.arr('b', (n,), 'f')
    z, s = V.freeze(b), b.snap()
    x = outcome(lambda: V.method(o, 'particular_adj', b))
    if len(F.tri) != 1:
        V.ensure('one triangular solve', False)
        return
    w = F.tri[0][2]
    gap = T.sub(ctx.Sum(0, T.sub(m, 1), lambda l: T.mul(F.r(l, m), w(l))), s(F.c(m)))
    V.ensure_frozen('right hand side', z)
    if isinstance(x, PyRaise):
        V.ensure('only for right-hand sides outside the range', T.gt(T.absv(gap), o.fields['tol']))
        return
    V.ensure('in the range up to the tolerance', T.le(T.absv(gap), o.fields['tol']))
    x = vector(V, 'solution', x, n)
    i = index(V, n)
    V.assume(F.row(i))
    V.ensure('R^T w = b[C]', T.implies(T.lt(i, m), T.eq(ctx.Sum(0, T.sub(m, 1), lambda l: T.mul(F.r(l, i), w(l))), s(F.c(i)))))
    V.ensure('x = Q (w, 0)', T.eq(x(i), F.ortho(i, lambda l: T.ite(T.lt(l, m), w(l), F0), 'N')))


def qr_det_spec(name):
    def spec(V):
        """sign det A = (-1)^reflections sgn(C) prod sign R_kk, |det A| = exp(sum log |R_kk|)"""
        ctx, n = V.ctx, V.int('n', 1)
        assumed(ctx, SIGN)
        F = Qr(V, n)
        k = V.int('k', 0)
        o = V.new(QR_ + 'QR', **F.fields(k=k))
        sw = V.int('swaps', 0)

        def swaps(I, arr):
            i = ctx.fresh('i', 'int')
            rng = T.land(T.le(0, i), T.lt(i, n))
            if not (isinstance(arr, Arr) and arr.ndim == 1):
                raise Unsupported('swaps')
            # a permutation and its inverse have the same sign
            ctx.oblige(T.lor(ctx.prove(T.implies(rng, T.eq(arr.elem(i), F.c(i)))), ctx.prove(T.implies(rng, T.eq(arr.elem(i), F.p(i))))),
                       'the column permutation or its inverse', 'call')
            return sw
        V.stub(H + 'minimumSwaps', swaps, H + 'minimumSwaps')
        r = V.method(o, name)
        if not T.is_scalar(r):
            V.ensure('a number', False)
            return
        sg = T.mul(T.to_real(ctx.powi(-1, T.add(k, sw))), ctx.prod(n, lambda i: signs(F.r(i, i))))
        if name == 'det_sign':
            V.ensure('sign', T.eq(r, sg))
        else:
            ln = lnabs(ctx)
            ld = ctx.Sum(0, T.sub(n, 1), lambda i: ln(F.r(i, i)))
            V.ensure('determinant', T.eq(r, T.mul(sg, V.numpy('exp', ld))))
    return spec


for _m in ('det_sign', 'det'):
    contract(QR_ + 'QR.' + _m, 'C13')(qr_det_spec(_m))


@contract(QR_ + 'QR.__init__', 'C13', hooks={
    'scipy.linalg.qr': lambda M, a, pivoting=False, mode='full', **k: M.ctx.qrcall(a, pivoting, mode),
    'scipy.linalg.lapack.get_lapack_funcs': lambda M, names, arrays=(), **k: M.ctx.lapack(names),
    'numpy.argsort': lambda M, a, **k: M.ctx.argsorted(a), 'numpy.count_nonzero': lambda M, a, **k: M.ctx.nonzeros(a)})
def qr_init(V):
    """keeps the factors of the matrix, the inverse of the column permutation, the number of reflectors and the leading block"""
    ctx, n = V.ctx, V.int('n', 2)
    F = Qr(V, n)
    a = V.arr('A', (n, n), 'f')
    tol = V.real('tol', Fraction(1, 10 ** 20))
    cnt = ctx.fresh('reflectors', 'int')
    got = []

    def qrcall(x, pivoting, mode):
        ctx.oblige(isinstance(x, Arr) and x.buf is a.buf and x.whole and pivoting is True and mode == 'raw', 'factors of the matrix', 'call')
        return ((F.qq, F.tau), F.Rarr, F.C)

    def argsorted(x):
        ctx.oblige(x is F.C, 'inverse of the column permutation', 'call')
        return F.P

    def nonzeros(x):
        i = ctx.fresh('i', 'int')
        m = T.sub(n, 1)
        if not isinstance(x, Arr) or x.ndim != 1:
            raise Unsupported('count of something else')
        ctx.oblige(T.eq(x.shape[0], m), 'all reflectors but the last are counted', 'call')
        ctx.oblige(T.implies(T.land(T.le(0, i), T.lt(i, m)), T.eq(x.elem(i), F.tau.elem(i))), 'reflectors are counted', 'call')
        return cnt

    def lapack(names):
        f = {'ormqr': Native('ormqr', F.ormqr), 'trtrs': Native('trtrs', F.trtrs)}
        if isinstance(names, str):
            return f[names]
        return [f[x] for x in names]
    ctx.qrcall, ctx.argsorted, ctx.nonzeros, ctx.lapack = qrcall, argsorted, nonzeros, lapack
    z = V.freeze(a)
    o = V.call(V.get(QR_ + 'QR'), a, tol)
    f = o.fields
    V.ensure('factors', f.get('q') is F.qq and f.get('tau') is F.tau and f.get('R') is F.Rarr and f.get('C') is F.C)
    V.ensure('inverse permutation', f.get('P') is F.P)
    V.ensure('reflections', T.eq(f.get('k'), cnt))
    V.ensure('singular', T.eq(f.get('is_singular'), T.lt(T.absv(F.r(T.sub(n, 1), T.sub(n, 1))), tol)))
    m = T.sub(n, 1)
    V.ensure_array('leading block', f.get('Rbar'), (m, m), lambda i, j: F.r(i, j))
    V.ensure_array('last column', f.get('Sbar'), (m,), lambda i: F.r(i, m))
    V.ensure('nothing is known of the null vectors', f.get('phi') is None and f.get('psi') is None)
    V.ensure_frozen('matrix', z)
