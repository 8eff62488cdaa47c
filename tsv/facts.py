"""What is known on a path: truth values of conditions, domains of narrow fields, integer intervals of
linear forms.  decide/conc/prove answer from these and fall back to z3 (bit-vectors)."""
from . import term as tm
from .term import T


class NeedSplit(Exception):
    """the path must be split on the values of a unit before execution can continue"""

    def __init__(self, unit, vals):
        Exception.__init__(self, 'split %r' % (unit,))
        self.unit = unit
        self.vals = vals
        self.resumed = False


class Limit(Exception):
    """outside what the executor decides (not a verdict on the code)"""


_truth = {}
SMALL = 8


def lin(t):
    """(const, key) with key = sorted tuple of (coef, atom)"""
    if t.k == 'add':
        return t.a
    if t.k == 'bits':
        # zero-extended full leaf
        ps = t.a
        if len(ps) == 2 and not ps[0][2] and ps[0][1] == 0:
            w, c, m = ps[1]
            if c == 0 and len(m) == 1:
                (mon,) = m
                if len(mon) == 1:
                    ((b, lo),) = mon
                    if lo == 0 and b.w == w:
                        return lin(b)
    return 0, ((1, t),)


def window(lo, hi, w):
    """the range as unsigned w-bit values when it does not wrap: (lo, hi, shift) or None"""
    k = lo >> w
    if hi >> w != k:
        return None
    k <<= w
    return lo - k, hi - k, k


def lift(key):
    """the 64-bit linear form of which a 32-bit one is the low half"""
    out = []
    for co, x in key:
        if x.k != 'bits' or len(x.a) != 1:
            return None
        w, c, m = x.a[0]
        if c or len(m) != 1:
            return None
        (mon,) = m
        if len(mon) != 1:
            return None
        ((b, lo),) = mon
        if lo or b.w != 64:
            return None
        if co >> 31:
            co += M64 - M32
        out.append((co, b))
    t = 0
    for co, b in out:
        t = tm.add(64, t, tm.mulc(64, b, co))
    if type(t) is int:
        return None
    c, k = lin(t)
    return k if c == 0 else None


M32 = (1 << 32) - 1
M64 = (1 << 64) - 1


class Facts(object):
    # ivl[key] = (lo, hi): some integer V congruent to the linear form key modulo 2^w has lo <= V <= hi
    __slots__ = ('bools', 'dom', 'ivl', 'subst', 'single', 'extra', 'whole')

    def __init__(self):
        self.bools = {}
        self.dom = {}
        self.ivl = {}
        self.subst = {}
        self.single = {}
        self.extra = []
        self.whole = frozenset()     # conditions of which all parts are known as well

    def copy(self):
        f = Facts.__new__(Facts)
        f.bools = dict(self.bools)
        f.dom = dict(self.dom)
        f.ivl = dict(self.ivl)
        f.subst = dict(self.subst)
        f.single = dict(self.single)
        f.extra = list(self.extra)
        f.whole = self.whole
        return f

    # ------------------------------------------------------------ bounds
    def bound(self, t):
        if type(t) is int:
            return t, t
        w = t.w
        full = tm.mask(w)
        c, key = lin(t)
        r = self.ivl.get(key)
        if r is None and w == 32 and t.k == 'add':
            k64 = lift(key)
            if k64 is not None:
                r = self.ivl.get(k64)
        if r is not None:
            win = window(r[0] + c, r[1] + c, w)
            if win is not None:
                return win[0], win[1]
        if t.k == 'bits':
            if key[0][1] is not t:
                return self.bound(key[0][1]) if len(key) == 1 and key[0][0] == 1 and c == 0 else (tm.minval(t), tm.maxval(t))
            lo = hi = 0
            for w1, c1, m in t.a:
                a, b = c1, c1
                if m:
                    a, b = 0, tm.mask(w1)
                    if len(m) == 1:
                        (mon,) = m
                        if len(mon) == 1:
                            ((x, l),) = mon
                            if c1 == 0:
                                a, b = self.leafbound(x, l, w1)
                        else:
                            b = c1 | b
                lo = (lo << w1) | a
                hi = (hi << w1) | b
            return lo, hi
        if t.k == 'add':
            lo = hi = c
            for co, x in key:
                a, b = self.bound(x)
                if co > full >> 1:
                    co -= full + 1
                lo += min(co * a, co * b)
                hi += max(co * a, co * b)
            if lo >> w == hi >> w:
                return lo & full, hi & full
            return 0, full
        if t.k == 'ite':
            a, b = self.bound(t.a[1])
            d, e = self.bound(t.a[2])
            return min(a, d), max(b, e)
        return tm.minval(t), tm.maxval(t)

    def leafbound(self, x, l, w):
        full = tm.mask(w)
        v = self.single.get((x, l, w))
        if v is not None:
            return v, v
        d = self.dom.get((x, l, w))
        if d is not None:
            return (d & -d).bit_length() - 1, d.bit_length() - 1
        if x.k != 'bits':
            lo, hi = self.bound(x)
            lo >>= l
            hi >>= l
            if hi <= full:
                return lo, hi
        return 0, full

    # ------------------------------------------------------------ simplification
    def simplify(self, t, memo=None):
        if type(t) is not T:
            return t
        if not self.single and not self.subst:
            return t
        single = self.single
        byb = {}
        for (b, lo, w), v in single.items():
            byb.setdefault(b, []).append((lo, w, v))
        subst = self.subst
        facts = self

        def f(b, lo, w):
            s = subst.get(b)
            if s is not None:
                return tm.ext(facts.simplify(s), lo, w)
            L = byb.get(b)
            if L is None:
                return None
            for (l, pw, v) in L:
                if l <= lo and lo + w <= l + pw:
                    return (v >> (lo - l)) & tm.mask(w)
            for (l, pw, v) in L:
                a = max(l, lo)
                e = min(l + pw, lo + w)
                if a < e:
                    parts = []
                    if e < lo + w:
                        h = f(b, e, lo + w - e)
                        parts.append((tm.ext(b, e, lo + w - e) if h is None else h, lo + w - e))
                    parts.append(((v >> (a - l)) & tm.mask(e - a), e - a))
                    if a > lo:
                        h = f(b, lo, a - lo)
                        parts.append((tm.ext(b, lo, a - lo) if h is None else h, a - lo))
                    return tm.cat(*parts)
            return None
        return tm.rebuild(t, f, {} if memo is None else memo)

    # ------------------------------------------------------------ deciding conditions
    @staticmethod
    def split(cond):
        """(positive condition, parity)"""
        if cond.k == 'bits':
            w, c, m = cond.a[0]
            if c:
                return tm.frompieces(((1, 0, m),)), 1
        return cond, 0

    def decide(self, cond):
        if type(cond) is int:
            return cond
        p, par = self.split(cond)
        v = self.bools.get(p)
        if v is not None:
            return v ^ par
        if self.single or self.subst:
            q = self.simplify(p)
            if type(q) is int:
                return q ^ par
            if q is not p:
                r = self.decide(q)
                return None if r is None else r ^ par
        r = self._decide(p)
        if r is None:
            return None
        return r ^ par

    def truth(self, p):
        """(unit, mask of values making p true) when p depends on one small unit"""
        r = _truth.get(p)
        if r is None:
            u = list(tm.units(p))
            r = (None, None)
            if len(u) == 1 and u[0][2] <= SMALL:
                unit = u[0]
                mk = 0
                for val in range(1 << unit[2]):
                    x = tm.subst_pieces(p, {unit: val})
                    if type(x) is not int:
                        mk = None
                        break
                    mk |= x << val
                if mk is not None:
                    r = (unit, mk)
            _truth[p] = r
        return r

    def _decide(self, p):
        unit, mk = self.truth(p)
        if unit is not None:
            full = (1 << (1 << unit[2])) - 1
            d = self.dom.get(unit, full)
            t = d & mk
            if t == d:
                return 1
            if t == 0:
                return 0
        k = p.k
        if k == 'eq':
            a, b = p.a
            if type(b) is int:
                lo, hi = self.bound(a)
                if b < lo or b > hi:
                    return 0
                if lo == hi:
                    return 1
            else:
                l1, h1 = self.bound(a)
                l2, h2 = self.bound(b)
                if h1 < l2 or h2 < l1:
                    return 0
        elif k == 'ult':
            l1, h1 = self.bound(p.a[0])
            l2, h2 = self.bound(p.a[1])
            if h1 < l2:
                return 1
            if l1 >= h2:
                return 0
            r = self.apart(p.a[0], p.a[1])
            if r is not None:
                return r
        elif k == 'slt':
            a, b = p.a
            w = a.w if type(a) is T else b.w
            l1, h1 = self.sbound(a, w)
            l2, h2 = self.sbound(b, w)
            if h1 < l2:
                return 1
            if l1 >= h2:
                return 0
        elif k == 'bits':
            # a boolean combination: use what is known about its parts
            m = {}
            for mon in p.a[0][2]:
                for (b, lo) in mon:
                    if b.w == 1 and b is not p:
                        v = self.decide(b)
                        if v is not None:
                            m[b] = v
            if m:
                q = tm.subst_vars(p, m)
                if type(q) is int:
                    return q
        # symbolic comparison of related unknowns: let z3 look at it when there are facts about them
        if k in ('ult', 'eq', 'slt') and type(p.a[0]) is T and type(p.a[1]) is T and (self.bools or self.ivl):
            from . import smt
            r = smt.decide(self, p)
            if r is not None:
                return r
        return None

    def distance(self, a, b):
        """(key, sign, c, lo, hi): b - a = sign * V + c for the integer V of an interval, neither end wrapping, with lo and hi
        the bounds of b - a; None when nothing is known"""
        if type(a) is not T or type(b) is not T or a.w != b.w:
            return None
        w = a.w
        d = tm.sub(w, b, a)
        if type(d) is int:
            return None
        sg = 1
        c, key = lin(d)
        iv = self.ivl.get(key)
        if iv is None:
            sg = -1
            c, key = lin(tm.sub(w, a, b))
            iv = self.ivl.get(key)
            if iv is None:
                return None
        if len(key) == 1:
            return None
        c = c - (1 << w) if c >> (w - 1) else c
        lo, hi = iv[0] + c, iv[1] + c
        if sg < 0:
            lo, hi, c = -hi, -lo, -c
        la, ha = self.bound(a)
        # b = a + V + c modulo 2^w; over the integers when the sum stays within the word
        if la + lo < 0 or ha + hi > tm.mask(w):
            return None
        return key, sg, c, lo, hi

    def apart(self, a, b):
        """a < b, when the distance is known and neither end wraps"""
        r = self.distance(a, b)
        if r is None:
            return None
        if r[3] > 0:
            return 1
        if r[4] <= 0:
            return 0
        return None

    def implied(self, p):
        """the value of a comparison that follows from one interval alone"""
        if p.k == 'ult':
            return self.apart(p.a[0], p.a[1])
        return None

    def sbound(self, t, w):
        lo, hi = self.bound(t)
        h = 1 << (w - 1)
        if hi < h:
            return lo, hi
        if lo >= h:
            return lo - 2 * h, hi - 2 * h
        return -h, h - 1

    def assume(self, cond, val):
        """record cond == val; False if that is contradictory"""
        if type(cond) is int:
            return cond == val
        p, par = self.split(cond)
        val ^= par
        known = self.bools.get(p)
        if known is not None:
            return known == val
        self.bools[p] = val
        unit, mk = self.truth(p)
        if unit is not None:
            full = (1 << (1 << unit[2])) - 1
            d = self.dom.get(unit, full)
            d = d & mk if val else d & ~mk
            return self.setdom(unit, d)
        k = p.k
        if k == 'eq':
            a, b = p.a
            if type(b) is int:
                if val:
                    return self.takeapart(p, 1) and self.refine(a, b, b)
                if not self.takeapart(p, 0):
                    return False
                lo, hi = self.bound(a)
                if lo == b:
                    return self.refine(a, b + 1, hi)
                if hi == b:
                    return self.refine(a, lo, b - 1)
        elif k == 'ult':
            a, b = p.a
            l1, h1 = self.bound(a)
            l2, h2 = self.bound(b)
            r = self.distance(a, b)
            if r is not None:
                key, sg, c, lo, hi = r
                lo, hi = (max(lo, 1), hi) if val else (lo, min(hi, 0))
                if lo > hi:
                    return False
                lo, hi = lo - c, hi - c
                self.ivl[key] = (lo, hi) if sg > 0 else (-hi, -lo)
                if lo == hi:
                    self.elim(key, self.ivl[key][0], a.w)
            if val:
                return (type(a) is int or self.refine(a, l1, min(h1, h2 - 1))) and (type(b) is int or self.refine(b, max(l2, l1 + 1), h2))
            return (type(a) is int or self.refine(a, max(l1, l2), h1)) and (type(b) is int or self.refine(b, l2, min(h2, h1)))
        elif k == 'bits':
            ms = p.a[0][2]
            if len(ms) == 1 and val:
                (mon,) = ms
                for (b, lo) in mon:
                    if not self.assume(tm.ext(b, lo, 1), 1):
                        return False
        return True

    @staticmethod
    def conjuncts(cond):
        """conditions that together say the same: a product that has to be all ones is taken apart"""
        p, par = Facts.split(cond) if type(cond) is T else (None, 0)
        if p is None or par or p.k != 'eq':
            return [cond]
        a, v = p.a
        if type(v) is not int or a.k != 'bits':
            return [cond]
        out = []
        some = False
        lo = a.w
        for w, c, m in a.a:
            lo -= w
            full = (1 << w) - 1
            common = frozenset.intersection(*m) if m else None
            if not common or (v >> lo & full) ^ c != full:
                out.append(tm.eq(w, tm.frompieces(((w, c, m),)), v >> lo & full))
                continue
            some = some or len(m) > 1 or len(common) > 1 or any(b.k == 'opq' for b, o in common)
            for b, o in common:
                b = b.a[0] if b.k == 'opq' and o == 0 and b.w == w else tm.ext(b, o, w)
                out += Facts.conjuncts(tm.eq(w, b, full))
            rest = frozenset(x - common for x in m)
            if len(rest) > 1:
                k = full if frozenset() in rest else 0
                out += Facts.conjuncts(tm.eq(w, tm.frompieces(((w, k, rest - {frozenset()}),)), full))
        return out if some else [cond]

    def takeapart(self, p, val):
        """p == val by its conjuncts, where it has several"""
        cs = Facts.conjuncts(p)
        if len(cs) < 2:
            return True
        self.whole |= {p}
        if val:
            return all(self.assume(c, 1) for c in cs)
        x = 1
        for c in cs:
            x = tm.and_(1, x, c)
        if type(x) is int:
            return not x
        self.extra.append(tm.not_(1, x))
        return True

    def setdom(self, unit, d):
        if d == 0:
            return False
        self.dom[unit] = d
        if d & (d - 1) == 0:
            self.single[unit] = d.bit_length() - 1
        return True

    def refine(self, t, lo, hi):
        if lo > hi:
            return False
        c, key = lin(t)
        if len(key) == 1 and key[0][0] == 1:
            b = key[0][1]
            if b.k == 'bits':
                # a single leaf that is a slice of something
                if lo == hi:
                    self.setleaf(b, lo - c)
                    return True
            if key in self.ivl:
                o = self.ivl[key]
            else:
                o = (0, tm.mask(b.w))
            win = window(o[0] + c, o[1] + c, t.w)
            if win is None:
                # the sum may wrap: keep what is sound
                if lo == hi:
                    v = (lo - c) & tm.mask(t.w)
                    if b.w == t.w:
                        self.ivl[key] = (v, v)
                        self.single[(b, 0, b.w)] = v
                        return any(o[0] <= v + k * (1 << t.w) <= o[1] for k in (-1, 0, 1))
                return True
            c -= win[2]
            n = (max(o[0], lo - c), min(o[1], hi - c))
            if n[0] > n[1]:
                return False
            self.ivl[key] = n
            if n[0] == n[1]:
                self.single[(b, 0, b.w)] = n[0] & tm.mask(b.w)
            return True
        if key in self.ivl:
            o = self.ivl[key]
            win = window(o[0] + c, o[1] + c, t.w)
            if win is not None:
                c -= win[2]
                n = (max(o[0], lo - c), min(o[1], hi - c))
                if n[0] > n[1]:
                    return False
                self.ivl[key] = n
                if n[0] == n[1]:
                    self.elim(key, n[0], t.w)
        return True

    def setleaf(self, b, v):
        if b.k == 'bits' and len(b.a) == 1:
            w, c, m = b.a[0]
            if len(m) == 1:
                (mon,) = m
                if len(mon) == 1:
                    ((x, lo),) = mon
                    self.single[(x, lo, w)] = v ^ c

    def elim(self, key, v, w):
        """linear form == v: express one unit-coefficient variable by the others"""
        full = tm.mask(w)
        for co, x in reversed(key):
            if x.k == 'var' and co == 1 and x.w == w and x not in self.subst:
                r = v & full
                for c2, y in key:
                    if y is not x:
                        r = tm.sub(w, r, tm.mulc(w, y, c2))
                self.subst[x] = r
                return

    def setval(self, unit, v):
        if unit[0] == 'cond':
            return self.assume(unit[1], v)
        if unit[0] == 'lin':
            _, key, w = unit
            self.ivl[key] = (v, v)
            if len(key) == 1 and key[0][0] == 1:
                self.single[(key[0][1], 0, w)] = v & tm.mask(w)
                return True
            self.elim(key, v, w)
            return True
        b, lo, w = unit
        if w <= SMALL:
            full = (1 << (1 << w)) - 1
            d = self.dom.get(unit, full) & (1 << v)
            return self.setdom(unit, d)
        self.single[unit] = v
        if lo == 0 and w == b.w:
            self.ivl[((1, b),)] = (v, v)
        return True

    # ------------------------------------------------------------ concretisation
    def conc(self, t, limit=300):
        if type(t) is int:
            return t
        if type(t) is not T:
            raise Limit('concretise %r' % (t,))
        s = self.simplify(t)
        if type(s) is int:
            return s
        lo, hi = self.bound(s)
        if lo == hi:
            return lo
        c, key = lin(s)
        us = list(tm.units(s))
        # one narrow unit
        best = None
        for u in us:
            if u[2] <= SMALL:
                full = (1 << (1 << u[2])) - 1
                d = self.dom.get(u, full)
                vals = [i for i in range(1 << u[2]) if (d >> i) & 1]
                if best is None or len(vals) < len(best[1]):
                    best = (u, vals)
        if best is not None and len(best[1]) <= limit:
            if len(best[1]) == 1:
                self.single[best[0]] = best[1][0]
            raise NeedSplit(best[0], best[1])
        for u in us:
            b, l, w = u
            o = self.ivl.get(((1, b),))
            if o is not None and o[1] - o[0] <= limit:
                raise NeedSplit((b, 0, b.w), list(range(o[0], o[1] + 1)))
            if b.k == 'add':
                c2, k2 = b.a
                o = self.ivl.get(k2)
                if o is not None and o[1] - o[0] <= limit:
                    raise NeedSplit(('lin', k2, b.w), list(range(o[0], o[1] + 1)))
        o = self.ivl.get(key)
        if o is not None and o[1] - o[0] <= limit:
            raise NeedSplit(('lin', key, s.w), list(range(o[0], o[1] + 1)))
        # a linear form over the same unknowns that has few values
        at = set(tm.atoms(s))
        best = None
        for k2, o in self.ivl.items():
            if 0 < o[1] - o[0] <= limit and all(set(tm.atoms(x)) <= at for _, x in k2):
                if best is None or o[1] - o[0] < best[1][1] - best[1][0]:
                    best = (k2, o)
        if best is not None:
            raise NeedSplit(('lin', best[0], best[0][0][1].w), list(range(best[1][0], best[1][1] + 1)))
        raise Limit('symbolic value %s where a concrete one is needed' % tm.show(s))

    # ------------------------------------------------------------ proving
    def fits(self, off, n, length):
        """off + n <= length over the integers"""
        if type(off) is int and type(length) is int:
            return off + n <= length
        d = tm.sub(64, length, off)
        if type(d) is int:
            return n <= d and d < 1 << 63
        lo, hi = self.bound(d)
        if n <= lo and hi < 1 << 63:
            return True
        s = self.simplify(d)
        if s is not d:
            if type(s) is int:
                return n <= s < 1 << 63
            lo, hi = self.bound(s)
            if n <= lo and hi < 1 << 63:
                return True
        from . import smt
        cond = tm.and_(1, tm.ule(64, off, length), tm.ule(64, n, tm.sub(64, length, off)))
        return smt.prove(self, cond)[0] is True

    def prove(self, cond):
        if type(cond) is int:
            return bool(cond)
        d = self.decide(cond)
        if d is not None:
            return bool(d)
        from . import smt
        return smt.prove(self, cond)[0] is True

    def prove_nooverflow(self, op, w, a, b):
        from . import smt
        return smt.nooverflow(self, op, w, a, b)

    def describe(self):
        out = []
        for p, v in self.bools.items():
            out.append(('' if v else 'not ') + tm.show(p, 3))
        for (b, lo, w), v in self.single.items():
            out.append('%s[%d+:%d] = %d' % (tm.show(b, 3), lo, w, v))
        return out[-30:]
