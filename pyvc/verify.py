"""Contracts, path exploration and verdicts for one function."""
import time
import traceback
import z3

from . import terms as T
from . import arrays as A
from . import solve
from .arrays import Arr, PyRaise
from .ctx import Ctx, Infeasible, PathDone
from .interp import World, Interp, ClsMeth, Obj, Bound, Native, SymFun, PyClass, Frame, Return
from .terms import Unsupported, Cx
from .loops import Restart

CONTRACTS = {}      # name -> Contract


class Contract:
    """name: qualified name of the function under contract (suffix after '#' distinguishes cases)
    spec(V): symbolic precondition, call, postconditions; apply(I, *args): what callers may assume;
    inv: loop invariants {qualname: provider}; uses: names of contracts used instead of bodies."""

    def __init__(self, name, spec, prop=(), apply=None, inv=None, uses=(), hooks=None, timeout=8.0, budget=90, doc='', optional=False, maxpaths=200):
        self.maxpaths = maxpaths
        self.name, self.spec, self.apply_, self.inv = name, spec, apply, inv or {}
        self.props = (prop,) if isinstance(prop, str) else tuple(prop)
        self.uses, self.hooks, self.timeout, self.budget, self.doc = uses, hooks or {}, timeout, budget, doc
        self.apply = apply
        self.optional = optional

    @property
    def func(self):
        return self.name.split('#')[0]


def contract(name, prop, **kw):
    def deco(f):
        c = Contract(name, f, prop, doc=(f.__doc__ or '').strip(), **kw)
        assert name not in CONTRACTS, name
        CONTRACTS[name] = c
        f.contract = c
        return f
    return deco


class V:
    """what a specification sees"""

    def __init__(self, I, ctx, c):
        self.I, self.ctx, self.c = I, ctx, c
        self.called = False

    # inputs
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None:
            self.ctx.assume(v >= T.to_z3(lo))
        if hi is not None:
            self.ctx.assume(v <= T.to_z3(hi))
        return v

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        if lo is not None:
            self.ctx.assume(v >= T.to_z3(T.to_real(lo)))
        if hi is not None:
            self.ctx.assume(v <= T.to_z3(T.to_real(hi)))
        return v

    def bool(self, name):
        return z3.Bool(name)

    def arr(self, name, shape, kind='f'):
        return A.symbolic(self.ctx, name, shape, kind)

    def choose(self, *alts, label='case'):
        return alts[self.ctx.decide(len(alts), label)]

    def assume(self, f):
        f = T.fold(f)
        self.ctx.assume(f if isinstance(f, bool) else T.to_z3(f))

    # code
    def get(self, dotted):
        """object of the code base by dotted name"""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            if self.I.world.find('.'.join(parts[:i])):
                m = self.I.module('.'.join(parts[:i]))
                o = m
                for p in parts[i:]:
                    if isinstance(o, PyClass):
                        v, _ = o.find(p)
                        if v is None:
                            raise Unsupported('no %s' % dotted)
                        o = Bound(v.f, o) if isinstance(v, ClsMeth) else v
                    else:
                        if p not in o.vars:
                            raise Unsupported('no %s' % dotted)
                        o = o.vars[p]
                return o
        raise Unsupported('no %s' % dotted)

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.get(f)
        self.called = True
        return self.I.call(f, args, kw)

    def method(self, o, name, *args, **kw):
        self.called = True
        return self.I.call(self.I.np.getattr(o, name), args, kw)

    def numpy(self, name, *args, **kw):
        self.called = True
        return self.I.np.call('numpy.' + name, args, kw)

    def attr(self, o, name):
        return self.I.np.getattr(o, name)

    def new(self, cls, **fields):
        """an arbitrary object of the class in the given state (no constructor run)"""
        c = self.get(cls)
        o = Obj(c)
        self.ctx.counter += 1
        o.born = self.ctx.counter
        self.ctx.reg[o.born] = o
        o.fields.update(fields)
        return o

    def raises(self, f):
        try:
            f()
        except PyRaise as e:
            return e
        return None

    def stub(self, func, apply, contract=None):
        """calls of func are judged by apply (what the callee's contract promises); contract: the proved contract it abbreviates"""
        if contract is not None and contract not in CONTRACTS:
            raise Unsupported('no contract ' + contract)
        self.I.contracts[func] = Contract(contract or func, None, (), apply=apply)

    # outputs
    def lemma(self, name, formula):
        """an obligation of its own, then available"""
        self.ensure(name, formula, 'lemma')
        self.assume(formula)

    def ensure(self, name, goal, kind='post'):
        if isinstance(goal, Arr):
            raise Unsupported('array as a goal')
        self.ctx.oblige(goal if isinstance(goal, bool) else T.fold(goal), name, kind)

    def ensure_all(self, name, shape, fn):
        """for all indices in shape: fn(*idx)"""
        ctx = self.ctx
        n = ctx.push()
        try:
            idx = A.fresh_index(ctx, shape)
            r = A.in_shape(idx, shape)
            if r is False:
                return
            if r is not True:
                ctx.assume(T.to_z3(r))
            m = ctx.mark()
            ctx.oblige(fn(*idx), name, 'post')
            ctx.rollback(m)
        except Infeasible:
            pass
        finally:
            ctx.pop(n)

    def ensure_shape(self, name, a, shape):
        if not isinstance(a, Arr) or len(a.shape) != len(shape):
            self.ensure(name + ' [rank]', False)
            return False
        for p, (x, y) in enumerate(zip(a.shape, shape)):
            self.ensure(name + ' [axis %d]' % p, T.eq(x, y))
        return True

    def ensure_array(self, name, a, shape, fn):
        """a has the shape and the entries fn(*idx)"""
        if not self.ensure_shape(name + ' shape', a, shape):
            return
        self.ensure_all(name, shape, lambda *i: T.eq(a.elem(*i), fn(*i)))

    def ensure_equal(self, name, a, b):
        A.oblige_equal(self.ctx, a, b, name)

    def freeze(self, a):
        return (a, a.snap(), a.shape, a.buf)

    def ensure_frozen(self, name, fz):
        a, s, sh, buf = fz
        if a.buf.fn is s and a.whole:
            self.ctx.oblige(True, name, 'frame')
            return
        self.ensure_all(name, sh, lambda *i: T.eq(a.elem(*i), s(*i)))


class Result:
    def __init__(self, c):
        self.name, self.func, self.props = c.name, c.func, c.props
        self.status = 'proved'      # proved / failed / undecided / error
        self.obligations = 0
        self.discharged = 0
        self.backends = {}
        self.failed = []            # (ident, kind, status, detail)
        self.paths = 0
        self.notes = set()
        self.reason = ''
        self.time = 0.0
        self.solver_time = 0.0
        self.covered = False
        self.inlined = set()
        self.used = set()
        self.names = []
        self.assumed = set()

    def as_dict(self):
        d = dict(self.__dict__)
        for k in ('notes', 'inlined', 'used', 'assumed'):
            d[k] = sorted(map(str, d[k]))
        return d


WORLDS = {}


def world(root):
    if root not in WORLDS:
        WORLDS[root] = World(root)
    return WORLDS[root]


def verify(c, root='/repo', debug=False, maxpaths=200, verbose=False, hpoison=None):
    t0 = time.time()
    R = Result(c)
    w = world(root)
    deadline = t0 + c.budget
    pend, hcache = [[]], {}
    hpoison = {} if hpoison is None else hpoison
    abstracted = set()
    try:
        while pend:
            prefix = pend.pop()
            R.paths += 1
            if R.paths > max(maxpaths, c.maxpaths):
                raise Unsupported('too many paths')
            if time.time() > deadline:
                raise Unsupported('time budget used up')
            ctx = Ctx(prefix)
            ctx.deadline = deadline
            ctx.hcache, ctx.hpoison = hcache, hpoison
            ctx.get_pi()
            used = {k: CONTRACTS[k] for k in c.uses}
            I = Interp(w, ctx, {x.func: x for x in used.values()})
            I.verifying = c
            I.loopinvs = dict(c.inv)
            I.np.hooks.update(c.hooks)
            v = V(I, ctx, c)
            end = 'ok'
            try:
                c.spec(v)
            except PathDone:
                end = 'cut'
            except Infeasible:
                end = 'dead'
            except PyRaise as e:
                if ctx.solver.check() != z3.unsat:
                    ctx.oblige(False, 'no exception escapes: %s %s' % (e.exc, e.msg), 'exception')
                else:
                    end = 'dead'
            pend += ctx.pending
            R.notes |= ctx.notes
            R.inlined |= I.inlined
            R.used |= I.used_contracts
            R.assumed |= set(getattr(ctx, 'assumed', ()))
            if end == 'dead':
                continue
            if end == 'ok' and not R.covered:
                r = ctx.solver.check()
                if r != z3.unsat:
                    R.covered = True
            for o in ctx.obls:
                R.obligations += 1
                R.names.append(o.name)
                tt = time.time()
                left = max(1.0, deadline - tt)
                solve.discharge(o, timeout=min(c.timeout, left))
                R.solver_time += time.time() - tt
                if verbose:
                    print('   ', o.status, o.backend, '%.2fs' % o.time, o.ident())
                if o.status == 'proved':
                    R.discharged += 1
                    R.backends[o.backend] = R.backends.get(o.backend, 0) + 1
                else:
                    det = ''
                    if o.model is not None:
                        det = str(o.model)[:1500]
                    g = getattr(o, 'failed_part', o.goal)
                    txt = str(g)[:1500]
                    if not isinstance(g, bool):
                        for sn, se in solve.sums_in([g], ctx.sums).items():
                            txt += '\n   where %s = sum[%s..%s] %s' % (sn, se.lo, se.hi, str(se.body)[:400])
                    R.failed.append((o.ident(), o.kind, o.status, det, txt[:4000]))
                    if debug:
                        return R, o
    except Restart:
        if sum(len(x) for x in hpoison.values()) > 6:
            R.status, R.reason = 'undecided', 'loop variables without a fixed kind'
        else:
            return verify(c, root, debug, maxpaths, verbose, hpoison)
    except Unsupported as e:
        R.status, R.reason = 'undecided', 'outside the verified subset: %s (at %s)' % (e, ctx.loc)
        if debug:
            traceback.print_exc()
    except z3.Z3Exception as e:
        R.status, R.reason = 'undecided', 'solver: %s' % e
        if debug:
            traceback.print_exc()
    except RecursionError as e:
        R.status, R.reason = 'undecided', 'recursion limit'
    except (KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError, NotImplementedError, ZeroDivisionError) as e:
        R.status, R.reason = 'undecided', 'engine: %s: %s' % (type(e).__name__, e)
        if debug:
            traceback.print_exc()
    if R.failed:
        if any(f[2] == 'refuted' for f in R.failed):
            R.status = 'failed'
        elif R.status == 'proved':
            R.status = 'undecided'
            R.reason = 'solver gave up on %d obligations' % len(R.failed)
        R.abstracted = bool([n for n in R.notes if 'abstracted' in n])
    elif R.status == 'proved':
        if R.obligations == 0:
            R.status, R.reason = 'undecided', 'no obligation was generated'
        elif not R.covered:
            R.status, R.reason = 'undecided', 'precondition unsatisfiable or no path reaches the end'
    R.time = time.time() - t0
    return (R, None) if debug else R
