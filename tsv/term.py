"""Bit-vector terms in a canonical form.

A value of width w is a Python int (a constant) or a T.  Kinds of T:
  var   a=(name,)                       an unconstrained symbol
  app   a=(fn, args)                    an uninterpreted application (args: ints/T/strings/tuples)
  bits  a=(piece, ...)                  concatenation, most significant piece first
  add   a=(const, ((coef, term), ...))  linear sum modulo 2^w
  mul/udiv/urem/shl/lshr/ashr a=(x, y)  operators with no better normal form
  eq/ult/slt a=(x, y)                   w == 1
  ite   a=(c, x, y)
  opq   a=(term,)                       a named sub-term (its definition is the argument)
piece = (w, const, mons); mons = frozenset of monomials; monomial = frozenset of leaves;
leaf = (base T, lo): the w bits of base starting at lo.  A piece denotes the XOR of its
monomials (AND of leaves) and the constant: an algebraic normal form over leaf words.
Adjacent pieces are merged maximally, so equal functions over the same leaves have equal terms.
"""
import hashlib

_tab = {}
_cnt = [0]


class T(object):
    __slots__ = ('k', 'w', 'a', 'id', 'sim', 'nz', 'kx')

    def __repr__(self):
        return show(self)


def mk(k, w, a):
    key = (k, w, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.w = w
        t.a = a
        _cnt[0] += 1
        t.id = _cnt[0]
        t.sim = None
        t.nz = None
        t.kx = None
        _tab[key] = t
    return t


def reset():
    _tab.clear()


def var(name, w):
    return mk('var', w, (name,))


def app(fn, args, w):
    return mk('app', w, (fn, args))


EMPTY = frozenset()
MASK = [(1 << i) - 1 for i in range(0, 4097)]


def mask(w):
    return MASK[w] if w <= 4096 else (1 << w) - 1


def leafpiece(base, lo, w):
    return (w, 0, frozenset((frozenset(((base, lo),)),)))


def pieces(t, w):
    if type(t) is int:
        return ((w, t, EMPTY),)
    if t.k == 'bits':
        return t.a
    if t.k == 'add' and t.w == 64:
        s = unscale(t)
        if s is not None:
            return s
    return (leafpiece(t, 0, w),)


def unscale(t):
    """a sum of multiples of 2^k as a shifted sum: its pieces, or None"""
    c, ts = t.a
    o = c
    for co, _ in ts:
        o |= co
    if o & 1:
        return None
    k = (o & -o).bit_length() - 1
    w = t.w
    h = 1 << (w - 1)
    sg = lambda v: v - 2 * h if v >= h else v
    y = mklin(w, sg(c) >> k, {x: sg(co) >> k for co, x in ts})
    return tuple(pieces(ext(y, 0, w - k), w - k)) + ((k, 0, EMPTY),)


def pslice(p, lo, w):
    """bits [lo, lo+w) of a piece"""
    pw, c, m = p
    if w == pw:
        return p
    if not m:
        return (w, (c >> lo) & MASK[w], EMPTY)
    if lo == 0:
        return (w, c & MASK[w], m)
    return (w, (c >> lo) & MASK[w], frozenset([frozenset([(b, l + lo) for (b, l) in mon]) for mon in m]))


def pmerge(hi, lo):
    """merge adjacent pieces or None"""
    hw, hc, hm = hi
    lw, lc, lm = lo
    if not hm:
        if lm:
            return None
        return (hw + lw, (hc << lw) | lc, EMPTY)
    if len(hm) != len(lm):
        return None
    # every leaf (b,l) of lo continues as (b,l+lw) in hi
    for mon in lm:
        if frozenset([(b, l + lw) for (b, l) in mon]) not in hm:
            return None
    return (hw + lw, (hc << lw) | lc, lm)


def frompieces(ps):
    out = []
    for p in ps:
        if p[0] == 0:
            continue
        if out:
            m = pmerge(out[-1], p)
            if m is not None:
                out[-1] = m
                continue
        out.append(p)
    if not out:
        return 0
    if len(out) == 1:
        w, c, m = out[0]
        if not m:
            return c
        if c == 0 and len(m) == 1:
            (mon,) = m
            if len(mon) == 1:
                ((b, lo),) = mon
                if lo == 0 and b.w == w:
                    return b
        return mk('bits', w, (out[0],))
    w = 0
    for p in out:
        w += p[0]
    return mk('bits', w, tuple(out))


def ext(t, lo, w):
    """bits [lo, lo+w) of t"""
    if type(t) is int:
        return (t >> lo) & mask(w)
    if lo == 0 and w == t.w:
        return t
    k = t.k
    if k == 'bits':
        res = []
        pos = t.w
        end = lo + w
        for p in t.a:
            ptop = pos
            pos -= p[0]
            if pos >= end:
                continue
            if ptop <= lo:
                break
            a = lo - pos if lo > pos else 0
            b = end - pos if end < ptop else p[0]
            res.append(pslice(p, a, b - a))
        return frompieces(res)
    if k == 'add' and lo == 0 and w == 32:
        c, ts = t.a
        r = c & mask(w)
        for co, x in ts:
            r = add(w, r, mulc(w, ext(x, 0, w), co))
        return r
    if k == 'add' and t.w == 64:
        s = unscale(t)
        if s is not None:
            return ext(frompieces(s), lo, w)
    if k == 'ite':
        return ite(t.a[0], ext(t.a[1], lo, w), ext(t.a[2], lo, w), w)
    return mk('bits', w, (leafpiece(t, lo, w),))


def cat(*parts):
    """parts: (value, width) msb first"""
    ps = []
    for v, w in parts:
        ps.extend(pieces(v, w))
    return frompieces(ps)


def zext(t, w0, w):
    if type(t) is int:
        return t
    return frompieces(((w - w0, 0, EMPTY),) + tuple(pieces(t, w0)))


def sext(t, w0, w):
    if type(t) is int:
        if t >> (w0 - 1):
            return t | (mask(w) ^ mask(w0))
        return t
    top = ext(t, w0 - 1, 1)
    if type(top) is int:
        return frompieces(((w - w0, mask(w - w0) if top else 0, EMPTY),) + tuple(pieces(t, w0)))
    tp = tuple(pieces(top, 1))
    return frompieces(tp * (w - w0) + tuple(pieces(t, w0)))


def trunc(t, w):
    return ext(t, 0, w)


LIM = 40
ORLIM = 12


def _opq(p):
    """name a piece so that products stay small; a complement is kept outside the name"""
    w, c, m = p
    if len(m) == 1:
        return p
    b = mk('opq', w, (mk('bits', w, ((w, 0, m),)),))
    return (w, c, frozenset((frozenset(((b, 0),)),)))


def _name(w, c, m):
    """the monomial for a piece under a name of its own"""
    if len(m) == 1 and not c:
        return next(iter(m))
    return frozenset(((mk('opq', w, (mk('bits', w, ((w, c, m),)), 1)), 0),))


def _unop(p):
    """linear named leaves are expanded so that sums stay canonical"""
    w, c, m = p
    for mon in m:
        if len(mon) == 1:
            ((b, lo),) = mon
            if b.k == 'opq' and lo == 0 and b.w == w:
                d = b.a[0]
                if d.k == 'bits' and len(d.a) == 1 and len(d.a[0][2]) + len(m) <= 64:
                    q = (w, c, m - {mon})
                    return _unop((w, q[1] ^ d.a[0][1], q[2] ^ d.a[0][2]))
    return p


def pxor(p, q):
    return (p[0], p[1] ^ q[1], p[2] ^ q[2])


def pand(p, q):
    w, c, m = p
    _, d, n = q
    full = MASK[w]
    if len(m) * len(n) > LIM:
        p = _opq(p)
        q = _opq(q)
        w, c, m = p
        _, d, n = q
    # (c ^ M) & (d ^ N); constants other than 0/full are handled by the caller (run splitting)
    res = {}
    for a in m:
        for b in n:
            x = a | b
            if x in res:
                del res[x]
            else:
                res[x] = 1
    r = set(res)
    if d == full:
        r ^= m
    if c == full:
        r ^= n
    return (w, c & d, frozenset(r))


def _runs(c, w):
    """split a constant into maximal runs of equal bits, msb first: (width, bit)"""
    out = []
    i = w
    while i > 0:
        b = (c >> (i - 1)) & 1
        j = i - 1
        while j > 0 and ((c >> (j - 1)) & 1) == b:
            j -= 1
        out.append((i - j, b))
        i = j
    return out


def _align(a, b, split):
    """yield aligned piece pairs, msb first; split: also split constant parts into runs"""
    ia = 0
    ib = 0
    A = list(a)
    B = list(b)
    if split:
        def sp(L):
            out = []
            for p in L:
                w, c, m = p
                if c == 0 or c == MASK[w]:
                    out.append(p)
                else:
                    top = w
                    for rw, _ in _runs(c, w):
                        top -= rw
                        out.append(pslice(p, top, rw))
            return out
        A = sp(A)
        B = sp(B)
    pa = A[0]
    pb = B[0]
    res = []
    while True:
        wa = pa[0]
        wb = pb[0]
        if wa == wb:
            res.append((pa, pb))
            ia += 1
            ib += 1
            if ia >= len(A):
                return res
            pa = A[ia]
            pb = B[ib]
        elif wa > wb:
            res.append((pslice(pa, wa - wb, wb), pb))
            pa = pslice(pa, 0, wa - wb)
            ib += 1
            pb = B[ib]
        else:
            res.append((pa, pslice(pb, wb - wa, wa)))
            pb = pslice(pb, 0, wb - wa)
            ia += 1
            pa = A[ia]


def xor(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        if a == 0:
            return b
    elif type(b) is int and b == 0:
        return a
    elif a is b:
        return 0
    out = []
    for p, q in _align(pieces(a, w), pieces(b, w), False):
        out.append(_unop(pxor(p, q)))
    return frompieces(out)


def and_(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == mask(w):
            return a
    elif a is b:
        return a
    out = []
    for p, q in _align(pieces(a, w), pieces(b, w), True):
        if not p[2]:
            out.append(q if p[1] else (p[0], 0, EMPTY))
        elif not q[2]:
            out.append(p if q[1] else (p[0], 0, EMPTY))
        else:
            out.append(pand(p, q))
    return frompieces(out)


def not_(w, a):
    return xor(w, a, mask(w))


def or_(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a | b
        if a == 0:
            return b
    elif type(b) is int:
        if b == 0:
            return a
    elif a is b:
        return a
    out = []
    for p, q in _align(pieces(a, w), pieces(b, w), True):
        pw = p[0]
        if not p[2]:
            out.append((pw, MASK[pw], EMPTY) if p[1] else q)
        elif not q[2]:
            out.append((pw, MASK[pw], EMPTY) if q[1] else p)
        else:
            if p == q:
                out.append(p)
                continue
            full = MASK[pw]
            if len(p[2]) * len(q[2]) > ORLIM:
                # a long disjunction stays the complement of a product of names
                out.append((pw, full, frozenset((_name(pw, p[1] ^ full, p[2]) | _name(pw, q[1] ^ full, q[2]),))))
                continue
            r = pand((pw, p[1] ^ full, p[2]), (pw, q[1] ^ full, q[2]))
            out.append(_unop((pw, r[1] ^ full, r[2])))
    return frompieces(out)


def nzmask(t):
    """mask of bits that may be nonzero"""
    if type(t) is int:
        return t
    if t.nz is None:
        if t.k == 'bits':
            r = 0
            for w, c, m in t.a:
                r = (r << w) | (MASK[w] if m else c)
            t.nz = r
        elif t.k == 'ite':
            t.nz = nzmask(t.a[1]) | nzmask(t.a[2])
        else:
            t.nz = mask(t.w)
    return t.nz


def maxval(t):
    if type(t) is int:
        return t
    if t.k == 'add':
        c, ts = t.a
        s = c
        for co, x in ts:
            s += co * maxval(x)
        m = mask(t.w)
        return s if s <= m else m
    return nzmask(t)


def minval(t):
    if type(t) is int:
        return t
    if t.k == 'bits':
        r = 0
        for w, c, m in t.a:
            r = (r << w) | (0 if m else c)
        return r
    if t.k == 'add':
        c, ts = t.a
        s = c
        mx = c
        for co, x in ts:
            s += co * minval(x)
            mx += co * maxval(x)
        return s if mx <= mask(t.w) else 0
    if t.k == 'ite':
        return min(minval(t.a[1]), minval(t.a[2]))
    return 0


def shl(w, a, n):
    if type(a) is int:
        return (a << n) & mask(w)
    if n == 0:
        return a
    if n >= w:
        return 0
    return frompieces(tuple(pieces(ext(a, 0, w - n), w - n)) + ((n, 0, EMPTY),))


def lshr(w, a, n):
    if type(a) is int:
        return a >> n
    if n == 0:
        return a
    if n >= w:
        return 0
    return frompieces(((n, 0, EMPTY),) + tuple(pieces(ext(a, n, w - n), w - n)))


def ashr(w, a, n):
    if type(a) is int:
        s = a - (1 << w) if a >> (w - 1) else a
        return (s >> n) & mask(w)
    return sext(ext(a, n, w - n), w - n, w)


def _linear(t, w):
    if type(t) is int:
        return t, ()
    if t.k == 'add':
        return t.a
    return 0, ((1, t),)


def _tryoverlay(w, c, ts):
    """if the summands cannot carry into one another, the sum is a concatenation"""
    used = c
    for co, x in ts:
        if co & (co - 1):
            return None
        sh = co.bit_length() - 1
        nz = nzmask(x) << sh
        if nz >> w:
            return None
        if nz & used:
            return None
        used |= nz
    if used == mask(w) and len(ts) == 1 and ts[0][0] == 1 and not c:
        return ts[0][1]
    r = c
    for co, x in ts:
        r = or_(w, r, shl(w, x, co.bit_length() - 1))
    return r


def mklin(w, c, d):
    m = mask(w)
    ts = []
    for x, co in d.items():
        co &= m
        if co:
            ts.append((co, x))
    c &= m
    if not ts:
        return c
    if len(ts) == 1 and c == 0 and ts[0][0] == 1:
        return ts[0][1]
    if len(ts) > 1:
        ts.sort(key=_lkey)
    if len(ts) <= 3:
        o = _tryoverlay(w, c, ts)
        if o is not None:
            return o
    if any(x.k == 'bits' and len(x.a) == 2 and not x.a[1][2] for _, x in ts):
        # shifts are products
        d = {}
        some = False
        for co, x in ts:
            s = _shifted(x, w)
            if s is None:
                d[x] = d.get(x, 0) + co
                continue
            some = True
            k, low, b = s
            cb, tb = _linear(b, w)
            c += co * ((cb << k) + low)
            for c2, y in tb:
                d[y] = d.get(y, 0) + co * (c2 << k)
        if some:
            return mklin(w, c, d)
    return mk('add', w, (c, tuple(ts)))


def _shifted(x, w):
    """x = b * 2^k + low: (k, low, b)"""
    if x.k != 'bits' or len(x.a) != 2 or x.a[1][2]:
        return None
    pw, c, m = x.a[0]
    if c or len(m) != 1:
        return None
    (mon,) = m
    if len(mon) != 1:
        return None
    ((b, lo),) = mon
    if lo or b.w != w:
        return None
    return x.a[1][0], x.a[1][1], b


def _lkey(p):
    return p[1].id


def add(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return (a + b) & mask(w)
        if a == 0:
            return b
    elif type(b) is int and b == 0:
        return a
    ca, ta = _linear(a, w)
    cb, tb = _linear(b, w)
    d = {}
    for co, x in ta:
        d[x] = co
    for co, x in tb:
        d[x] = d.get(x, 0) + co
    return mklin(w, ca + cb, d)


def sub(w, a, b):
    if type(a) is int and type(b) is int:
        return (a - b) & mask(w)
    ca, ta = _linear(a, w)
    cb, tb = _linear(b, w)
    d = {}
    for co, x in ta:
        d[x] = co
    for co, x in tb:
        d[x] = d.get(x, 0) - co
    return mklin(w, ca - cb, d)


def sumn(w, xs):
    d = {}
    c = 0
    for a in xs:
        ca, ta = _linear(a, w)
        c += ca
        for co, x in ta:
            d[x] = d.get(x, 0) + co
    return mklin(w, c, d)


def mulc(w, a, k):
    if type(a) is int:
        return (a * k) & mask(w)
    if k == 0:
        return 0
    if k == 1:
        return a
    ca, ta = _linear(a, w)
    d = {}
    for co, x in ta:
        d[x] = co * k
    return mklin(w, ca * k, d)


def mul(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return (a * b) & mask(w)
        return mulc(w, b, a)
    if type(b) is int:
        return mulc(w, a, b)
    if b.id < a.id:
        a, b = b, a
    return mk('mul', w, (a, b))


def udiv(w, a, b):
    if type(b) is int:
        if type(a) is int:
            return a // b
        if b and b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
        if maxval(a) < b:
            return 0
    return mk('udiv', w, (a, b))


def urem(w, a, b):
    if type(b) is int:
        if type(a) is int:
            return a % b
        if b and b & (b - 1) == 0:
            return and_(w, a, b - 1)
        if maxval(a) < b:
            return a
    return mk('urem', w, (a, b))


def eq(w, a, b):
    if a is b:
        return 1
    if type(a) is int:
        if type(b) is int:
            return 1 if a == b else 0
        a, b = b, a
    if type(b) is int:
        if w == 1:
            return a if b else not_(1, a)
        if b & ~nzmask(a) or b < minval(a) or b > maxval(a):
            return 0
        if a.k == 'add':
            c, ts = a.a
            if c:
                return eq(w, mk('add', w, (0, ts)) if not (len(ts) == 1 and ts[0][0] == 1) else ts[0][1], (b - c) & mask(w))
            if len(ts) == 2 and b == 0:
                x, y = ts
                if x[0] == 1 and y[0] == mask(w):
                    return eq(w, x[1], y[1])
                if y[0] == 1 and x[0] == mask(w):
                    return eq(w, y[1], x[1])
        if a.k == 'bits':
            ps = a.a
            if len(ps) > 1:
                # strip constant pieces; conjunction over the others when few
                rest = []
                lo = a.w
                for p in ps:
                    lo -= p[0]
                    if p[2]:
                        rest.append((p, (b >> lo) & MASK[p[0]]))
                    elif p[1] != ((b >> lo) & MASK[p[0]]):
                        return 0
                if len(rest) == 1:
                    p, v = rest[0]
                    return eq(p[0], frompieces((p,)), v)
            elif ps[0][1]:
                p = ps[0]
                return eq(w, frompieces(((p[0], 0, p[2]),)), b ^ p[1])
        if a.k == 'ite':
            c, x, y = a.a
            ex = eq(w, x, b)
            ey = eq(w, y, b)
            if type(ex) is int and type(ey) is int:
                if ex == ey:
                    return ex
                return c if ex else not_(1, c)
        return mk('eq', 1, (a, b))
    d = sub(w, a, b)
    if type(d) is int:
        return 1 if d == 0 else 0
    if w == 1:
        return not_(1, xor(1, a, b))
    if maxval(a) < minval(b) or maxval(b) < minval(a):
        return 0
    if a.id > b.id:
        a, b = b, a
    if a.k == 'bits' and b.k == 'bits':
        for p, q in _align(a.a, b.a, False):
            if not p[2] and not q[2] and p[1] != q[1]:
                return 0
    return mk('eq', 1, (a, b))


def ult(w, a, b):
    if a is b:
        return 0
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    if maxval(a) < minval(b):
        return 1
    if minval(a) >= maxval(b):
        return 0
    if type(b) is int and b == 1:
        return eq(w, a, 0)
    if type(a) is int and a == mask(w):
        return 0
    if type(a) is int and a == 0:
        return not_(1, eq(w, b, 0))
    # strip common leading zero bits
    top = max(maxval(a), maxval(b)).bit_length()
    if top < w:
        return ult(top, ext(a, 0, top), ext(b, 0, top))
    return mk('ult', 1, (a, b))


def ule(w, a, b):
    return not_(1, ult(w, b, a))


def slt(w, a, b):
    if type(a) is int and type(b) is int:
        h = 1 << (w - 1)
        return 1 if (a ^ h) < (b ^ h) else 0
    if a is b:
        return 0
    sa = ext(a, w - 1, 1) if type(a) is int or a.k == 'bits' else (0 if maxval(a) < (1 << (w - 1)) else None)
    sb = ext(b, w - 1, 1) if type(b) is int or b.k == 'bits' else (0 if maxval(b) < (1 << (w - 1)) else None)
    if type(sa) is int and type(sb) is int:
        if sa == sb:
            return ult(w, a, b)
        return sa
    return mk('slt', 1, (a, b))


def sle(w, a, b):
    return not_(1, slt(w, b, a))


def ite(c, x, y, w):
    if type(c) is int:
        return x if c else y
    if x is y or (type(x) is int and type(y) is int and x == y):
        return x
    if w == 1:
        return xor(1, and_(1, c, x), and_(1, not_(1, c), y))
    return mk('ite', w, (c, x, y))


# ---------------------------------------------------------------- substitution, evaluation

def rebuild(t, f, memo):
    """rebuild t with f applied to leaves; f(base, lo, w) -> value or None (None: recurse)"""
    if type(t) is int:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    k = t.k
    if k == 'bits':
        out = []
        for w, c, m in t.a:
            acc = c
            for mon in m:
                pr = None
                for (b, lo) in mon:
                    v = f(b, lo, w)
                    if v is None:
                        nb = rebuild(b, f, memo)
                        v = ext(nb, lo, w)
                        if b.k == 'opq' and len(b.a) == 2 and type(v) is T and v.k == 'bits' and len(v.a) == 1:
                            v = frompieces(((w, 0, frozenset((_name(*v.a[0]),))),))
                    pr = v if pr is None else and_(w, pr, v)
                acc = xor(w, acc, pr)
            out.extend(pieces(acc, w))
        r = frompieces(out)
    else:
        r = f(t, 0, t.w)
        if r is None:
            r = rebuild_node(t, f, memo)
    memo[t] = r
    return r


def rebuild_node(t, f, memo):
    k = t.k
    w = t.w
    if k == 'var':
        return t
    if k == 'app':
        fn, args = t.a
        na = rebuild_args(args, f, memo)
        if na == args:
            return t
        return reapp(fn, na, w)
    if k == 'add':
        c, ts = t.a
        r = c
        for co, x in ts:
            r = add(w, r, mulc(w, rebuild(x, f, memo), co))
        return r
    if k == 'ite':
        return ite(rebuild(t.a[0], f, memo), rebuild(t.a[1], f, memo), rebuild(t.a[2], f, memo), w)
    if k == 'opq':
        return rebuild(t.a[0], f, memo)
    x = t.a[0]
    y = t.a[1]
    ow = x.w if type(x) is T else y.w
    return BIN[k](ow, rebuild(x, f, memo), rebuild(y, f, memo))


BIN = {'eq': eq, 'ult': ult, 'slt': slt, 'mul': mul, 'udiv': udiv, 'urem': urem}
REAPP = {}


def reapp(fn, args, w):
    g = REAPP.get(fn)
    if g is not None:
        return g(args, w)
    return app(fn, args, w)


def rebuild_args(args, f, memo):
    out = []
    for a in args:
        if type(a) is T:
            out.append(rebuild(a, f, memo))
        elif type(a) is tuple:
            out.append(rebuild_args(a, f, memo))
        else:
            out.append(a)
    return tuple(out)


def subst_vars(t, m, memo=None):
    """replace whole base terms (var/app/...) by values; memo may be shared by calls with the same m"""
    def f(b, lo, w):
        v = m.get(b)
        if v is None:
            return None
        return ext(v, lo, w)
    return rebuild(t, f, {} if memo is None else memo)


def subst_pieces(t, m, memo=None):
    """m: {(base, lo, w): int}; replaces leaves lying inside a listed piece"""
    byb = {}
    for (b, lo, w), v in m.items():
        byb.setdefault(b, []).append((lo, w, v))

    def f(b, lo, w):
        L = byb.get(b)
        if L is None:
            return None
        for (l, pw, v) in L:
            if l <= lo and lo + w <= l + pw:
                return (v >> (lo - l)) & MASK[w]
        # partial overlap: rebuild from bits
        cov = None
        for (l, pw, v) in L:
            a = max(l, lo)
            e = min(l + pw, lo + w)
            if a < e:
                cov = (a, e, (v >> (a - l)) & MASK[e - a])
                break
        if cov is None:
            return None
        a, e, v = cov
        parts = []
        if e < lo + w:
            hi = f(b, e, lo + w - e)
            parts.append((hi if hi is not None else ext(b, e, lo + w - e), lo + w - e))
        parts.append((v, e - a))
        if a > lo:
            l2 = f(b, lo, a - lo)
            parts.append((l2 if l2 is not None else ext(b, lo, a - lo), a - lo))
        return cat(*parts)
    return rebuild(t, f, {} if memo is None else memo)


def hrand(key, w):
    n = (w + 7) // 8
    out = b''
    i = 0
    while len(out) < n:
        out += hashlib.blake2b(repr((key, i)).encode(), digest_size=64).digest()
        i += 1
    return int.from_bytes(out[:n], 'big') & mask(w)


def evaluate(t, env, memo):
    """concrete value; env: {T: int}, env['seed'] used for the rest, env['fn']: {name: callable}"""
    if type(t) is int:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    k = t.k
    w = t.w
    if t in env:
        r = env[t]
    elif k == 'bits':
        r = 0
        for pw, c, m in t.a:
            acc = c
            for mon in m:
                pr = MASK[pw]
                for (b, lo) in mon:
                    pr &= evaluate(b, env, memo) >> lo
                acc ^= pr
            r = (r << pw) | (acc & MASK[pw])
    elif k == 'var':
        r = hrand((env.get('seed', 0), t.a[0], 'v'), w)
    elif k == 'app':
        fn, args = t.a
        av = eval_args(args, env, memo)
        g = env.get('fn', {}).get(fn)
        r = g(av, w) if g else None
        if r is None:
            r = hrand((env.get('seed', 0), fn, av), w)
    elif k == 'add':
        c, ts = t.a
        r = c
        for co, x in ts:
            r += co * evaluate(x, env, memo)
        r &= mask(w)
    elif k == 'ite':
        r = evaluate(t.a[1], env, memo) if evaluate(t.a[0], env, memo) else evaluate(t.a[2], env, memo)
    elif k == 'opq':
        r = evaluate(t.a[0], env, memo)
    else:
        x = evaluate(t.a[0], env, memo)
        y = evaluate(t.a[1], env, memo)
        ow = t.a[0].w if type(t.a[0]) is T else t.a[1].w
        if k in ('udiv', 'urem') and y == 0:
            r = 0
        else:
            r = BIN[k](ow, x, y)
    memo[t] = r
    return r


def eval_args(args, env, memo):
    out = []
    for a in args:
        if type(a) is T:
            out.append(evaluate(a, env, memo))
        elif type(a) is tuple:
            out.append(eval_args(a, env, memo))
        else:
            out.append(a)
    return tuple(out)


_simenv = {'seed': 'sim'}
_simmemo = {}


def sim(t):
    return evaluate(t, _simenv, _simmemo)


def units(t, acc=None):
    """decision units of a condition: leaves (base, lo, w), not looking inside compound bases
    other than comparisons"""
    if acc is None:
        acc = {}
    if type(t) is int:
        return acc
    k = t.k
    if k == 'bits':
        for w, c, m in t.a:
            for mon in m:
                for (b, lo) in mon:
                    if b.k in ('eq', 'ult', 'slt', 'ite'):
                        units(b, acc)
                    else:
                        acc[(b, lo, w)] = 1
    elif k in ('eq', 'ult', 'slt'):
        units(t.a[0], acc)
        units(t.a[1], acc)
    elif k == 'ite':
        units(t.a[0], acc)
        units(t.a[1], acc)
        units(t.a[2], acc)
    elif k == 'add':
        for co, x in t.a[1]:
            units(x, acc)
    else:
        acc[(t, 0, t.w)] = 1
    return acc


def atoms(t, acc=None, seen=None):
    """all var/app leaves, recursively (not inside app args)"""
    if acc is None:
        acc = set()
        atoms(t, acc, set())
        return acc
    if type(t) is int or t in seen:
        return
    seen.add(t)
    k = t.k
    if k == 'bits':
        for w, c, m in t.a:
            for mon in m:
                for (b, lo) in mon:
                    atoms(b, acc, seen)
    elif k in ('var', 'app'):
        acc.add(t)
    elif k == 'add':
        for co, x in t.a[1]:
            atoms(x, acc, seen)
    else:
        for x in t.a:
            atoms(x, acc, seen)


def show(t, d=4):
    if type(t) is int:
        return hex(t) if t > 9 else str(t)
    if type(t) is not T:
        if type(t) is tuple:
            return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    if d == 0:
        return '..'
    k = t.k
    if k == 'var':
        return str(t.a[0])
    if k == 'app':
        return '%s(%s)' % (t.a[0], ','.join(show(x, d - 1) for x in t.a[1]))
    if k == 'bits':
        ps = []
        for w, c, m in t.a:
            s = []
            if c or not m:
                s.append(hex(c))
            for mon in list(m)[:6]:
                s.append('&'.join('%s[%d+:%d]' % (show(b, d - 1), lo, w) if (lo or w != b.w) else show(b, d - 1) for b, lo in mon))
            if len(m) > 6:
                s.append('...%d' % len(m))
            ps.append('^'.join(s) + (':%d' % w if not m else ''))
        if len(ps) > 8:
            ps = ps[:8] + ['...%d' % len(t.a)]
        return '{' + '|'.join(ps) + '}'
    if k == 'add':
        c, ts = t.a
        s = []
        h = 1 << (t.w - 1)
        for co, x in ts[:6]:
            co = co - 2 * h if co >= h else co
            s.append(('%d*' % co if co != 1 else '') + show(x, d - 1))
        if len(ts) > 6:
            s.append('...%d' % len(ts))
        if c:
            s.append(str(c - 2 * h if c >= h else c))
        return '(' + '+'.join(s) + ')'
    return '%s(%s)' % (k, ','.join(show(x, d - 1) for x in t.a))
