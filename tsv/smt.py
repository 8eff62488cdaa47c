"""z3 back end: bit-vector validity of conditions under the facts of a path."""
import time
import z3
from . import term as tm
from .term import T

stats = {'queries': 0, 'proved': 0, 'refuted': 0, 'unknown': 0, 'time': 0.0}
_memo = {}
TIMEOUT = 20000


def ex(t, w=None):
    if type(t) is int:
        return z3.BitVecVal(t, w)
    r = _memo.get(t)
    if r is not None:
        return r
    k = t.k
    w = t.w
    if k in ('var', 'app'):
        r = z3.BitVec('t%d' % t.id, w)
    elif k == 'bits':
        ps = []
        for pw, c, m in t.a:
            acc = None
            for mon in m:
                pr = None
                for (b, lo) in mon:
                    e = ex(b)
                    if lo != 0 or b.w != pw:
                        e = z3.Extract(lo + pw - 1, lo, e)
                    pr = e if pr is None else pr & e
                acc = pr if acc is None else acc ^ pr
            if acc is None:
                acc = z3.BitVecVal(c, pw)
            elif c:
                acc = acc ^ z3.BitVecVal(c, pw)
            ps.append(acc)
        r = ps[0] if len(ps) == 1 else z3.Concat(*ps)
    elif k == 'add':
        c, ts = t.a
        r = z3.BitVecVal(c, w)
        for co, x in ts:
            e = ex(x)
            if x.w < w:
                e = z3.ZeroExt(w - x.w, e)
            r = r + (e if co == 1 else e * z3.BitVecVal(co, w))
    elif k == 'ite':
        r = z3.If(ex(t.a[0]) == 1, ex(t.a[1], w), ex(t.a[2], w))
    elif k == 'opq':
        r = ex(t.a[0])
    else:
        a, b = t.a
        ow = a.w if type(a) is T else b.w
        x = ex(a, ow)
        y = ex(b, ow)
        one = z3.BitVecVal(1, 1)
        zero = z3.BitVecVal(0, 1)
        if k == 'eq':
            r = z3.If(x == y, one, zero)
        elif k == 'ult':
            r = z3.If(z3.ULT(x, y), one, zero)
        elif k == 'slt':
            r = z3.If(x < y, one, zero)
        elif k == 'mul':
            r = x * y
        elif k == 'udiv':
            r = z3.UDiv(x, y)
        elif k == 'urem':
            r = z3.URem(x, y)
        else:
            raise KeyError(k)
    _memo[t] = r
    return r


def facts_constraints(f, only=None):
    cs = []

    def rel(t):
        if only is None:
            return True
        acc = set()
        tm.atoms(t, acc, set())
        return bool(acc & only)
    for p, v in f.bools.items():
        if p not in f.whole and rel(p) and f.implied(p) != v:
            cs.append(ex(p) == v)
    for (b, lo, w), d in f.dom.items():
        if rel(b):
            e = z3.Extract(lo + w - 1, lo, ex(b)) if (lo or w != b.w) else ex(b)
            cs.append(z3.Or([e == i for i in range(1 << w) if (d >> i) & 1]))
    for (b, lo, w), v in f.single.items():
        if rel(b):
            e = z3.Extract(lo + w - 1, lo, ex(b)) if (lo or w != b.w) else ex(b)
            cs.append(e == v)
    for x, s in f.subst.items():
        if rel(x):
            cs.append(ex(x) == ex(s, x.w))
    for key, (lo, hi) in f.ivl.items():
        if not any(rel(x) for _, x in key):
            continue
        # integer interval of the linear form, over wide enough bit-vectors
        w = max(x.w for _, x in key) + 16
        full = max(x.w for _, x in key)
        r = z3.BitVecVal(0, w)
        for co, x in key:
            if co >> (full - 1) and full >= x.w and co > (1 << (full - 1)):
                co -= 1 << full
            r = r + z3.ZeroExt(w - x.w, ex(x)) * z3.BitVecVal(co, w)
        cs.append(r >= z3.BitVecVal(lo, w))
        cs.append(r <= z3.BitVecVal(hi, w))
    for e in f.extra:
        cs.append(ex(e) == 1)
    return cs


def relevant(f, t):
    """atoms connected to t through the facts"""
    acc = set()
    tm.atoms(t, acc, set())
    groups = []
    for p in f.bools:
        a = set()
        tm.atoms(p, a, set())
        groups.append(a)
    for (b, lo, w) in list(f.dom) + list(f.single):
        a = set()
        tm.atoms(b, a, set())
        groups.append(a)
    for key in f.ivl:
        a = set()
        for _, x in key:
            tm.atoms(x, a, set())
        groups.append(a)
    for x, s in f.subst.items():
        a = set([x])
        tm.atoms(s, a, set())
        groups.append(a)
    for e in f.extra:
        a = set()
        tm.atoms(e, a, set())
        groups.append(a)
    ch = True
    while ch:
        ch = False
        for g in groups:
            if g & acc and not g <= acc:
                acc |= g
                ch = True
    return acc


def _solve(cs, timeout=None):
    s = z3.SolverFor('QF_BV')
    s.set('timeout', timeout or TIMEOUT)
    s.add(cs)
    t0 = time.time()
    r = s.check()
    stats['queries'] += 1
    stats['time'] += time.time() - t0
    return r, s


def prove(f, cond, timeout=None):
    """(True, None) valid; (False, model) refuted; (None, None) unknown"""
    if type(cond) is int:
        return (True, None) if cond else (False, {})
    only = relevant(f, cond)
    cs = facts_constraints(f, only) + [ex(cond) == 0]
    r, s = _solve(cs, timeout)
    if r == z3.unsat:
        stats['proved'] += 1
        return True, None
    if r == z3.sat:
        stats['refuted'] += 1
        m = s.model()
        acc = set()
        tm.atoms(cond, acc, set())
        env = {}
        for a in acc | only:
            v = m.eval(ex(a), model_completion=True)
            env[a] = v.as_long()
        return False, env
    stats['unknown'] += 1
    return None, None


def feasible(f):
    r, s = _solve(facts_constraints(f))
    if r == z3.unsat:
        return False
    return True


def admitted(f, only, env):
    """do these values satisfy every fact about the atoms?"""
    memo = {}

    def about(x):
        acc = set()
        tm.atoms(x, acc, set())
        return bool(only & acc)
    for key, (lo, hi) in f.ivl.items():
        if any(about(x) for _, x in key):
            full = max(x.w for _, x in key)
            r = 0
            for co, x in key:
                if co > (1 << (full - 1)):
                    co -= 1 << full
                r += co * tm.evaluate(x, env, memo)
            if not lo <= r <= hi:
                return False
    for p, v in f.bools.items():
        if about(p) and f.implied(p) != v and tm.evaluate(p, env, memo) != v:
            return False
    for (b, lo, w), d in f.dom.items():
        if about(b) and not d >> (tm.evaluate(b, env, memo) >> lo & tm.mask(w)) & 1:
            return False
    for (b, lo, w), v in f.single.items():
        if about(b) and (tm.evaluate(b, env, memo) >> lo & tm.mask(w)) != v:
            return False
    for x, t in f.subst.items():
        if x in only and tm.evaluate(x, env, memo) != (t if type(t) is int else tm.evaluate(t, env, memo)):
            return False
    for e in f.extra:
        if about(e) and tm.evaluate(e, env, memo) != 1:
            return False
    return True


def samples(f, p):
    """outcomes of p for a few values the facts admit: some of {0, 1}"""
    acc = set()
    tm.atoms(p, acc, set())
    if len(acc) > 3:
        return set()
    only = relevant(f, p)
    if len(only) > 3 or any(x.k != 'var' or x.w > 64 for x in only):
        return set()
    out = set()
    full = {x: f.ivl.get(((1, x),), (0, tm.mask(x.w))) for x in only}
    links = [(k, v) for k, v in f.ivl.items() if len(k) == 2 and all(x in only for _, x in k)]
    for k, (lo, hi) in links:
        for co, x in k:
            if co != 1:
                continue
            (c2, y), = [q for q in k if q[1] is not x]
            if y.w != x.w:
                continue
            if c2 > tm.mask(x.w) >> 1:
                c2 -= 1 << x.w
            for yv in (full[y][0], full[y][0] + 1, full[y][0] + 40):
                for v in (lo, hi):
                    env = {z: full[z][0] for z in only}
                    env[y] = yv
                    env[x] = v - c2 * yv
                    if not 0 <= env[x] <= tm.mask(x.w) or yv > full[y][1]:
                        continue
                    r = tm.evaluate(p, env, {})
                    if r not in out and admitted(f, only, env):
                        out.add(r)
                        if len(out) == 2:
                            return out
    return out


def decide(f, p):
    if p.k == 'ult':
        s = samples(f, p)
        if len(s) == 2:
            stats['sampled'] = stats.get('sampled', 0) + 1
            return None
    r, _ = prove(f, p, 3000)
    if r is True:
        return 1
    r, _ = prove(f, tm.not_(1, p), 3000)
    if r is True:
        return 0
    return None


def nooverflow(f, op, w, a, b):
    x = z3.SignExt(w, ex(a, w))
    y = z3.SignExt(w, ex(b, w))
    r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
    h = 1 << (w - 1)
    bad = z3.Or(r < z3.BitVecVal(-h, 2 * w), r >= z3.BitVecVal(h, 2 * w))
    res, s = _solve(facts_constraints(f) + [bad])
    return res == z3.unsat


def equal(f, a, b, w, timeout=None):
    """are two values equal under the facts: True, (False, env), None"""
    a = f.simplify(a)
    b = f.simplify(b)
    if a is b or (type(a) is int and type(b) is int and a == b):
        return True, None
    return prove(f, tm.eq(w, a, b), timeout)


def within(ts):
    """variables and applications in terms, arguments of applications included"""
    acc = set()
    todo = [t for t in ts if type(t) is T]
    seen = set()
    while todo:
        new = set()
        for t in todo:
            tm.atoms(t, new, seen)
        todo = []

        def args(a):
            for x in a:
                if type(x) is T:
                    todo.append(x)
                elif type(x) is tuple:
                    args(x)
        for a in new - acc:
            if a.k == 'app':
                args(a.a[1])
        acc |= new
    return acc


def differ(f, a, b, timeout=4000):
    """are a and b different values for some inputs the facts admit: 'eq', 'ne' or 'unknown', and the inputs.
    Applications are functions of their arguments (equal arguments, equal values) and nothing else is known of them."""
    a, b = f.simplify(a), f.simplify(b)
    if a is b or type(a) is int and type(b) is int:
        return ('eq' if a is b or a == b else 'ne'), {}
    w = a.w if type(a) is T else b.w
    if type(a) is T and type(b) is T and a.w != b.w:
        return 'unknown', {}
    if tm.sub(w, a, b) == 0:
        return 'eq', {}
    cond = tm.eq(w, a, b)
    if type(cond) is int:
        return ('eq' if cond else 'ne'), {}
    only = relevant(f, cond) | within([a, b])
    try:
        cs = facts_constraints(f, only) + [ex(cond) == 0]
    except KeyError:
        return 'unknown', {}
    apps = [x for x in only if x.k == 'app']
    for _ in range(12):
        r, s = _solve(cs, timeout)
        if r == z3.unsat:
            stats['proved'] += 1
            return 'eq', {}
        if r != z3.sat:
            return 'unknown', {}
        m = s.model()
        env = {x: m.eval(ex(x), model_completion=True).as_long() for x in only}
        memo = {}
        groups = {}
        more = 0
        for x in apps:
            k = (x.a[0], x.w, tm.eval_args(x.a[1], env, memo))
            y = groups.setdefault(k, x)
            if y is not x and env[y] != env[x]:
                c = congruence(x.a[1], y.a[1])
                if c is None:
                    return 'unknown', {}
                cs.append(z3.Implies(c, ex(x) == ex(y)))
                more += 1
                if more > 40:
                    break
        if not more:
            # a model may be at odds with how folds unfold and what comparisons mean
            sets = [set((x.a[0], tm.eval_args(x.a[1], env, memo)) for x in within([t]) if x.k == 'app' and x.a[0] in ('FOLD', 'ITER', 'memcmp')) for t in (a, b)]
            if sets[0] != sets[1]:
                return 'unknown', {}
            stats['refuted'] += 1
            return 'ne', env
    return 'unknown', {}


def congruence(a, b):
    """the arguments are equal"""
    if len(a) != len(b):
        return None
    out = []
    for x, y in zip(a, b):
        if type(x) is tuple and type(y) is tuple:
            c = congruence(x, y)
            if c is None:
                return None
            out.append(c)
        elif type(x) in (int, T) and type(y) in (int, T):
            if type(x) is int and type(y) is int:
                if x != y:
                    return z3.BoolVal(False)
                continue
            w = x.w if type(x) is T else y.w
            if type(x) is T and type(y) is T and x.w != y.w:
                return z3.BoolVal(False)
            out.append(ex(x, w) == ex(y, w))
        elif x is not y and x != y:
            return z3.BoolVal(False)
    return z3.And(out) if out else z3.BoolVal(True)


def alldiffer(f, pairs, most=6):
    """of pairs that are not equal by normalisation: the indices that differ for some inputs.
    Raises Limit when that is not settled"""
    from .facts import Limit
    unknown = None
    n = 0
    for i, (a, b) in pairs:
        if n >= most and unknown is None:
            timeout = 1000
        else:
            timeout = 4000
        v, env = differ(f, a, b, timeout)
        n += 1
        if v == 'ne':
            return [i], env
        if v == 'unknown':
            unknown = i
            if n >= most:
                break
    if unknown is not None:
        raise Limit('values %d neither proved equal nor different' % unknown)
    return [], {}
