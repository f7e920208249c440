"""Lists and dictionaries of symbolic size.  Dictionaries of symbolic size whose keys are 0, 1, ..., n-1 (in this order): dict(enumerate(array)) and comprehensions that send
every item of such a dictionary to an item under a new key (a bijection of the keys)."""
import z3
from . import terms as T
from . import arrays as A
from .terms import Unsupported


class Enumerated:
    def __init__(self, a):
        self.a = a

    def vc_dict(self, M):
        s = self.a.snap()
        return SymDict(M.ctx, A.new(M.ctx, self.a.shape, lambda i: s(i), self.a.kind))

    def vc_symiter(self, I):
        s = self.a.snap()
        return self.a.shape[0], lambda k: (k, s(k))

    def vc_dictcomp(self, I, pair):
        return comprehension(I, self.a.shape[0], self.a.snap(), pair)


class Items:
    def __init__(self, d):
        self.d = d

    def vc_symiter(self, I):
        return self.d.n, lambda k: (k, self.d.vals.elem(k))

    def vc_dictcomp(self, I, pair):
        return comprehension(I, self.d.n, self.d.vals.snap(), pair)

    def vc_dict(self, M):
        return self.d.copy()


class Mapping:
    """without iteration"""

    def __init__(self, ctx, vals):
        self.ctx, self.vals, self.n = ctx, vals, vals.shape[0]

    def copy(self):
        s = self.vals.snap()
        return SymDict(self.ctx, A.new(self.ctx, self.vals.shape, lambda i: s(i), self.vals.kind))

    def has(self, k):
        return T.land(T.le(0, k), T.lt(k, self.n))

    def vc_dict(self, M):
        return self.copy()

    def vc_len(self, M):
        return self.n

    def vc_getitem(self, M, k):
        self.ctx.oblige(self.has(k), 'key of the dictionary', 'call')
        return self.vals.elem(k)

    def vc_setitem(self, M, k, v):
        self.ctx.oblige(self.has(k), 'key of the dictionary (new keys are outside the model)', 'call')
        M.setitem(self.vals, k, v)

    def vc_getattr(self, M, name):
        from .interp import Native
        if name == 'items':
            return Native('items', lambda: Items(self))
        if name == 'keys':
            return Native('keys', lambda: Keys(self))
        if name == 'copy':
            return Native('copy', self.copy)
        if name == 'get':
            return Native('get', lambda k: self.vc_getitem(M, k))
        raise Unsupported('dictionary method ' + name)


class SymDict(Mapping):
    def vc_symiter(self, I):
        return self.n, lambda k: k


class Keys:
    def __init__(self, d):
        self.d = d

    def vc_symiter(self, I):
        return self.d.n, lambda k: k


def comprehension(I, n, s, pair):
    """{key(k, v): value(k, v) for the items k < n}: the keys have to be a bijection of 0..n-1 (an injective map of a finite set into
    itself is onto), whose inverse is the index function"""
    ctx = I.ctx
    i, j = ctx.fresh('key', 'int'), ctx.fresh('key', 'int')
    np_ = ctx.push()
    try:
        for x in (i, j):
            ctx.assume(z3.And(x >= 0, x < T.to_z3(n)))
        ki, kj = pair((i, s(i)))[0], pair((j, s(j)))[0]
        ctx.oblige(T.land(T.le(0, ki), T.lt(ki, n)), 'the keys of the comprehension are 0..n-1', 'call')
        ctx.oblige(T.implies(T.eq(ki, kj), T.eq(i, j)), 'the keys of the comprehension are distinct', 'call')
    finally:
        ctx.pop(np_)
    ctx.counter += 1
    g = ctx.func('inverse!%d' % ctx.counter, 'i', 'i')
    key = lambda k: T.to_z3(pair((k, s(k)))[0])
    N = T.to_z3(n)
    # value(k) = the item whose key it is
    facts = lambda q: z3.Implies(z3.And(q >= 0, q < N), z3.And(g(q) >= 0, g(q) < N, key(g(q)) == q))
    ctx.schema(g, lambda q: [facts(q[0])])
    ctx.forall(n, lambda k: T.eq(g(key(k)), k))
    kind = T.kind(pair((i, s(i)))[1])
    # iteration in the order of insertion is outside the model
    return Mapping(ctx, A.new(ctx, (n,), lambda q: pair((g(T.to_z3(q)), s(g(T.to_z3(q)))))[1], kind))


class SymSeq:
    """a list of n objects, item(k) the k-th one; a comprehension over it that gives numbers is an array"""

    def __init__(self, ctx, n, item):
        self.ctx, self.n, self.item = ctx, n, item

    def vc_len(self, M):
        return self.n

    def vc_symiter(self, I):
        return self.n, self.item

    def vc_getitem(self, M, k):
        if not T.is_int(k):
            raise Unsupported('part of a list of symbolic length')
        self.ctx.oblige(T.land(T.le(0, k), T.lt(k, self.n)), 'list index', 'call')
        return self.item(k)

    def vc_listcomp(self, I, item):
        ctx = I.ctx
        if ctx.prove(T.le(self.n, 0)):
            return []
        k = ctx.fresh('elem', 'int')
        np_ = ctx.push()
        try:
            ctx.assume(z3.And(k >= 0, k < T.to_z3(self.n)))
            v = item(self.item(k))
            v = I.np.item(v) if isinstance(v, A.Arr) and v.ndim == 0 else v
        finally:
            ctx.pop(np_)
        if not T.is_scalar(v) or T.is_cx(v):
            raise Unsupported('comprehension that does not give real numbers')
        t = T.to_z3(v)
        return A.new(ctx, (self.n,), lambda i: T.fold(z3.substitute(t, (k, T.to_z3(i)))), T.kind(v))
