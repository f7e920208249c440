"""Discharging obligations: axiom instantiation, sums by extensionality, z3, cvc5."""
import os
import subprocess
import tempfile
import time
from fractions import Fraction
import z3

from . import terms as T
from .ctx import subterms, contains


def instantiate(facts, schemas, sums, rounds=2, limit=400):
    out = []
    done = set()
    keep = []
    work = list(facts)
    for _ in range(rounds):
        new = []
        for t in subterms(work):
            if not z3.is_app(t) or t.num_args() == 0:
                continue
            n = t.decl().name()
            if n not in schemas or t.get_id() in done:
                continue
            if any(has_bound(a) for a in t.children()):
                continue
            done.add(t.get_id())
            keep.append(t)
            for fn in schemas[n]:
                for f in fn(t.children()):
                    f = T.fold(f)
                    if f is True:
                        continue
                    new.append(T.to_z3(f))
            if len(out) + len(new) > limit:
                return out + new
        if not new:
            break
        out += new
        work = new
    return out


def has_bound(t):
    for s in subterms([t]):
        if z3.is_const(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.decl().name().startswith('_k'):
            return True
    return False


def sums_in(ts, sums):
    found = {}
    work = list(ts)
    while work:
        nxt = []
        for t in subterms(work):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                if n in sums and t.num_args() == 0 and n not in found:
                    found[n] = sums[n]
                    nxt.append(sums[n].body)
        work = nxt
    return found


def check(facts, timeout, extra=()):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.add(*facts)
    if extra:
        s.add(*extra)
    r = s.check()
    return r, s


class Stats:
    def __init__(self):
        self.backends = {}
        self.time = 0.0
        self.queries = 0


STATS = Stats()


def normalise_sums(facts, goal, schemas, ctx, deadline):
    """rewrite the bodies of sums using the range of the bound variable; peel end terms when the
    body is different there.  Returns equations  sum = normal form."""
    from .algebra import Core, Simplifier
    out = []
    found = sums_in([goal], ctx.sums)
    for n in sorted(found, key=lambda n: int(n.split('!')[1])):
        e = found[n]
        if time.time() > deadline or e.const.num_args() > 0:
            continue
        k = e.bound

        def resolve(lo, hi):
            f2 = list(facts) + [lo <= k, k <= hi]
            core = Core(f2, min(deadline, time.time() + 1.5))
            if core.model is None and core.s.check() == z3.unsat:
                return 'empty', None, 0
            sm = Simplifier(core)
            b = sm.go(e.body)
            return ('ok' if not sm.undecided else 'und'), b, len({c.get_id() for c in sm.undecided})
        st, b, u0 = resolve(e.lo, e.hi)
        if st == 'empty':
            out.append(e.const == 0)
            continue
        if st == 'ok':
            if not b.eq(e.body):
                r = T.to_z3(T.to_real(ctx._sum1(T.fold(e.lo), T.fold(e.hi), b, k)))
                if not r.eq(e.const):
                    out.append(e.const == r)
            continue
        best = None
        for (dl, dh) in ((1, 0), (0, 1), (1, 1), (2, 0), (0, 2)):
            lo, hi = z3.simplify(e.lo + dl), z3.simplify(e.hi - dh)
            st, b2, u = resolve(lo, hi)
            if st != 'und':
                best = (0, dl, dh, st, b2, lo, hi)
                break
            if u < u0 and (best is None or u < best[0]):
                best = (u, dl, dh, st, b2, lo, hi)
        if best is not None:
            u, dl, dh, st, b2, lo, hi = best
            r = z3.RealVal(0)
            if st != 'empty':
                r = T.to_z3(T.to_real(ctx._sum1(T.fold(lo), T.fold(hi), b2, k)))
            for d in range(dl):
                r = r + T.to_z3(T.to_real(e.at(z3.simplify(e.lo + d))))
            for d in range(dh):
                r = r + T.to_z3(T.to_real(e.at(z3.simplify(e.hi - d))))
            out.append(z3.Implies(e.hi - e.lo + 1 >= dl + dh, e.const == r))
    return out


def sum_lemmas(facts, goal, schemas, sums, budget, ctx=None):
    """equalities between sum constants, by extensionality"""
    pre = []
    if ctx is not None:
        pre = normalise_sums(facts, goal, schemas, ctx, time.time() + budget)
    if pre:
        found = sums_in(pre + [goal] + list(facts), sums)
        goal = z3.And(goal, *pre)
    else:
        found = sums_in([goal] + list(facts), sums)
    names = sorted(found, key=lambda n: int(n.split('!')[1]))
    lem = list(pre)
    for n in names:
        e = found[n]
        lem.append(z3.Implies(e.hi < e.lo, e.const == 0))
        lem.append(z3.Implies(e.hi == e.lo, e.const == T.to_z3(T.to_real(e.at(e.lo)))))
    t0 = time.time()
    goalsums = sums_in([goal], sums)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            if a not in goalsums and b not in goalsums:
                continue
            if time.time() - t0 > budget:
                return lem
            ea, eb = found[a], found[b]
            # same range and body
            k = z3.Int('ext!k')
            rng = [ea.lo <= k, k <= ea.hi]
            r = entails(facts, [z3.And(ea.lo == eb.lo, ea.hi == eb.hi)], schemas, 0.8)
            if r:
                if entails(list(facts) + rng, [T.to_z3(T.eq(ea.at(k), eb.at(k)))], schemas, 3):
                    lem.append(ea.const == eb.const)
                    continue
                if entails(list(facts) + rng, [T.to_z3(T.eq(ea.at(k), T.neg(eb.at(k))))], schemas, 1):
                    lem.append(ea.const == -eb.const)
                    continue
            else:
                # shifted range: body_a(k) == body_b(k + d)
                d = z3.simplify(eb.lo - ea.lo)
                if entails(facts, [eb.hi - ea.hi == d], schemas, 0.8):
                    if entails(list(facts) + rng, [T.to_z3(T.eq(ea.at(k), eb.at(k + d)))], schemas, 2):
                        lem.append(ea.const == eb.const)
                        continue
                # reversed range: body_a(k) == body_b(lo_b + hi_a - k)
                # one range extends the other
                for (x, y) in ((ea, eb), (eb, ea)):
                    if entails(facts, [z3.And(x.lo == y.lo, x.hi == y.hi + 1)], schemas, 0.8):
                        rng2 = [y.lo <= k, k <= y.hi]
                        if entails(list(facts) + rng2, [T.to_z3(T.eq(x.at(k), y.at(k)))], schemas, 2):
                            lem.append(z3.Implies(x.hi >= x.lo, x.const == y.const + T.to_z3(T.to_real(x.at(x.hi)))))
                    if entails(facts, [z3.And(x.hi == y.hi + 1, x.lo == y.lo - 1)], schemas, 0.8):
                        rng2 = [y.lo <= k, k <= y.hi]
                        if entails(list(facts) + rng2, [T.to_z3(T.eq(x.at(k), y.at(k)))], schemas, 2):
                            lem.append(z3.Implies(x.hi > x.lo, x.const == y.const + T.to_z3(T.to_real(x.at(x.lo))) + T.to_z3(T.to_real(x.at(x.hi)))))
                    if entails(facts, [z3.And(x.hi == y.hi, x.lo == y.lo - 1)], schemas, 0.8):
                        rng2 = [y.lo <= k, k <= y.hi]
                        if entails(list(facts) + rng2, [T.to_z3(T.eq(x.at(k), y.at(k)))], schemas, 2):
                            lem.append(z3.Implies(x.hi >= x.lo, x.const == y.const + T.to_z3(T.to_real(x.at(x.lo)))))
            d = z3.simplify(ea.lo + eb.hi)
            if entails(facts, [ea.hi - ea.lo == eb.hi - eb.lo], schemas, 0.5):
                if entails(list(facts) + rng, [T.to_z3(T.eq(ea.at(k), eb.at(d - k)))], schemas, 1.0):
                    lem.append(ea.const == eb.const)
    return lem


def entails(facts, goals, schemas, timeout):
    g = z3.And(*goals) if len(goals) > 1 else goals[0]
    base = list(facts) + [z3.Not(g)]
    r, _ = check(base, timeout)
    if r == z3.unsat:
        return True
    ax = instantiate(base, schemas, {}, 2)
    if ax:
        r, _ = check(base + ax, timeout)
        if r == z3.unsat:
            return True
    return False


def relevant(facts, goal):
    """facts connected to the goal through shared symbols"""
    def syms(t):
        return {s.decl().name() for s in subterms([t]) if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED}
    fs = [(f, syms(f)) for f in facts]
    cur = syms(goal)
    picked = [False] * len(fs)
    changed = True
    while changed:
        changed = False
        for i, (f, s) in enumerate(fs):
            if not picked[i] and (s & cur or not s or (z3.is_const(f) and f.decl().name().startswith('guard!'))):
                picked[i] = True
                cur |= s
                changed = True
    return [f for p, (f, s) in zip(picked, fs) if p]


def purify(fs):
    """Ackermann: replace uninterpreted applications by constants, adding congruence."""
    table = {}
    apps = {}
    cong = []

    cache = {}

    def go(t):
        i = t.get_id()
        if i in cache:
            return cache[i]
        if not z3.is_app(t):
            r = t
        else:
            ch = [go(c) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                ch = [z3.simplify(c, som=True) for c in ch]
                key = (t.decl().name(), tuple(c.get_id() for c in ch))
                if key not in table:
                    c = z3.Const('ack!%d' % len(table), t.sort())
                    table[key] = (c, ch)
                    for (c2, ch2) in apps.get(t.decl().name(), []):
                        eqs = [z3.simplify(x == y) for x, y in zip(ch, ch2)]
                        if any(z3.is_false(e) for e in eqs):
                            continue
                        cong.append(z3.Implies(z3.And(*eqs), c == c2))
                    apps.setdefault(t.decl().name(), []).append((c, ch))
                r = table[key][0]
            elif ch:
                r = rebuild(t, ch)
            else:
                r = t
        cache[i] = r
        keep.append(t)
        return r

    keep = []
    out = [go(f) for f in fs]
    return out + cong


def rebuild(t, ch):
    d = t.decl()
    k = d.kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(ch)
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return d(*ch)


def cvc5_check(facts, timeout):
    s = z3.Solver()
    s.add(*facts)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True,
                           timeout=timeout + 5)
        return p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


def split_goal(goal):
    if z3.is_and(goal):
        out = []
        for c in goal.children():
            out += split_goal(c)
        return out
    return [goal]


def discharge(o, timeout=8.0, use_cvc5=True):
    t0 = time.time()
    goal = o.goal
    if not getattr(o, 'merged', False):
        o.facts = list(o.facts) + list(getattr(o, 'axioms', []))
        o.merged = True
    if goal is True:
        o.status, o.backend = 'proved', 'evaluation'
        return o
    if goal is False:
        r, _ = check(o.facts, min(timeout, 2))
        if r == z3.unsat:
            o.status, o.backend = 'proved', 'z3'
            o.time = time.time() - t0
            return o
        goal = z3.BoolVal(False)
    worst = 'proved'
    back = set()
    for g in split_goal(goal):
        st, be, model = discharge1(o.facts, g, o.schemas, getattr(o, 'sums', {}), timeout, use_cvc5, getattr(o, 'ctx', None))
        back.add(be)
        if st != 'proved':
            worst = st
            o.model = model
            o.failed_part = g
            break
    o.status, o.backend = worst, '+'.join(sorted(b for b in back if b))
    o.time = time.time() - t0
    STATS.time += o.time
    STATS.queries += 1
    return o


def discharge1(facts, goal, schemas, sums, timeout, use_cvc5, ctx=None, depth=0):
    """'refuted' is only answered when no stage ran out of time: otherwise 'unknown'"""
    gave = []

    def timed(secs, f, *a, **k):
        t = time.time()
        r = f(*a, **k)
        if time.time() - t > 0.8 * secs:
            gave.append(f.__name__)
        return r

    r = discharge2(facts, goal, schemas, sums, timeout, use_cvc5, ctx, depth, timed)
    if r[0] == 'refuted' and gave:
        return 'unknown', r[1], r[2]
    return r


def discharge2(facts, goal, schemas, sums, timeout, use_cvc5, ctx, depth, timed):
    sg = z3.simplify(goal)
    if z3.is_true(sg):
        return 'proved', 'z3-simplify', None
    ng = z3.Not(goal)
    fs = list(facts) if z3.is_false(sg) else relevant(facts, goal)
    base = fs + [ng]
    # 1. plain
    r, s = check(base, min(timeout, 0.8))
    if r == z3.unsat:
        return 'proved', 'z3', None
    from . import algebra
    if schemas or (sums and sums_in([goal], sums)):
        fs = list(facts)
        base = fs + [ng]
    # 2. sums and axiom schemas
    lem = []
    hassums = sums and sums_in([goal] + fs, sums)
    if not hassums and timed(min(5.0, timeout), algebra.prove, fs, goal, schemas, budget=min(5.0, timeout)):
        return 'proved', 'algebra', None
    if hassums and depth < 5:
        core = algebra.Core(fs, time.time() + 3)
        if core.model is None and core.s.check() == z3.unsat:
            return 'proved', 'z3', None
        sm = algebra.Simplifier(core)
        g2 = sm.go(goal)
        und = [c for c in sm.undecided if not has_bound(c)]
        if und:
            c = und[0]
            worst = ('proved', 'algebra', None)
            for x in (c, z3.Not(c)):
                r = discharge1(fs + [x], g2, schemas, sums, timeout, use_cvc5, ctx, depth + 1)
                if r[0] != 'proved':
                    return r
                if r[1] and r[1] not in worst[1]:
                    worst = ('proved', worst[1] + '+' + r[1], None)
            return worst
        if not g2.eq(goal):
            goal = g2
            ng = z3.Not(goal)
            base = fs + [ng]
            if z3.is_true(z3.simplify(goal)):
                return 'proved', 'z3-simplify', None
    if hassums or any(n.startswith('sum!') for n in schemas):
        # sums that only instances of universally quantified facts mention
        known = sums_in([goal] + fs, sums) if hassums else {}
        more = [f for f in instantiate(base, schemas, sums, 3) if any(n not in known for n in sums_in([f], sums))]
        if more:
            fs = fs + more
            base = fs + [ng]
            hassums = True
    if hassums:
        lem = timed(timeout * 2, sum_lemmas, fs, goal, schemas, sums, timeout * 2, ctx)
        if timed(min(5.0, timeout), algebra.prove, fs + lem, goal, schemas, budget=min(5.0, timeout)):
            return 'proved', 'algebra', None
    ax = []
    for rounds in (1, 2, 3, 5):
        ax2 = instantiate(base + lem, schemas, sums, rounds)
        if rounds > 1 and len(ax2) == len(ax):
            break
        ax = ax2
        if not ax and not lem:
            break
        r, s = check(base + lem + ax, timeout / 2)
        if r == z3.unsat:
            return 'proved', 'z3', None
    full = base + lem + ax
    # 3. purified, nonlinear core
    pur = purify(full)
    for tac in ('default', 'qfnra-nlsat'):
        try:
            if tac == 'default':
                s2 = z3.Solver()
            else:
                if any(z3.is_int(t) for f in pur for t in subterms([f])):
                    continue
                s2 = z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat').solver()
            s2.set('timeout', int(timeout * 500))
            s2.add(*pur)
            r2 = s2.check()
        except z3.Z3Exception:
            continue
        if r2 == z3.unsat:
            return 'proved', 'z3-purified', None
    if use_cvc5:
        c = cvc5_check(full, timeout)
        if c == 'unsat':
            return 'proved', 'cvc5', None
    if r == z3.sat:
        m = s.model()
        if all(z3.is_true(m.eval(f, model_completion=True)) for f in full):
            return 'refuted', 'z3', m
    return 'unknown', 'z3', None
