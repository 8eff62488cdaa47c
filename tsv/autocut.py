"""Unbounded loops.  At the header of a loop whose trip count depends on an unknown, the states of two
visits are generalised: every value that moved by a constant becomes start + step*I (also inside
FOLD terms), for a fresh iteration counter I.  The generalised state is then executed once around the
loop; it must come back as the same state with I+1 (the inductive step), and the facts assumed about it
(counters that run down stay non-negative, over the integers) must hold at I = 0 and be re-established at I+1."""
from . import term as tm
from .term import T
from . import machine as mc
from .machine import Ptr, Fail, UNDEF
from .facts import Limit, lin

MAXVISITS = 300
MINRANGE = 5000


class NoUnify(Exception):
    pass


class NoBound(NoUnify):
    """nothing that runs down over many rounds: not a loop to generalise"""


class Gen(object):
    """anti-unifier of two states"""

    def __init__(self, I):
        self.I = I
        self.down = []       # (value at I, width, step) with negative step
        self.n = 0
        self.lossy = 0
        self.early = False

    def val(self, a, b, w):
        """generalise two values"""
        if a is b:
            return a
        ca, cb = a.__class__, b.__class__
        if ca is int and cb is int and a == b:
            return a
        if ca in (int, T) and cb in (int, T):
            d = tm.sub(w, b, a) if w else None
            if w and type(d) is int:
                self.n += 1
                if w < 64:
                    r = tm.add(w, a, tm.mulc(w, tm.ext(self.I, 0, w), d))
                else:
                    r = tm.add(w, a, tm.mulc(w, self.I, d))
                if d >> (w - 1):
                    self.down.append((r, w, d - (1 << w)))
                return r
            return self.term(a, b)
        if ca is Ptr and cb is Ptr and a.obj == b.obj and a.lo == b.lo and a.hi == b.hi:
            return Ptr(a.obj, self.val(off64(a.off), off64(b.off), 64), a.lo, a.hi)
        if a == b:
            return a
        raise NoUnify()

    def term(self, a, b):
        if a is b or (type(a) is int and type(b) is int and a == b):
            return a
        if type(a) is not T or type(b) is not T or a.k != b.k or a.w != b.w:
            raise NoUnify()
        if a.k == 'app':
            if a.a[0] != b.a[0]:
                raise NoUnify()
            return tm.reapp(a.a[0], self.args(a.a[1], b.a[1]), a.w)
        if a.k == 'bits':
            if len(a.a) != len(b.a):
                raise NoUnify()
            out = []
            for p, q in zip(a.a, b.a):
                if p is q or p == q:
                    out.append((tm.frompieces((p,)), p[0]))
                    continue
                if p[0] != q[0] or p[1] != q[1] or len(p[2]) != 1 or len(q[2]) != 1:
                    raise NoUnify()
                (m,), (n,) = p[2], q[2]
                if len(m) != 1 or len(n) != 1:
                    raise NoUnify()
                ((x, l),), ((y, k),) = m, n
                if l != k:
                    raise NoUnify()
                v = tm.ext(self.term(x, y), l, p[0])
                out.append((tm.xor(p[0], v, p[1]), p[0]))
            return tm.cat(*out)
        if a.k == 'add':
            d = tm.sub(a.w, b, a)
            if type(d) is int:
                return self.val(a, b, a.w)
        raise NoUnify()

    def args(self, a, b):
        if len(a) != len(b):
            raise NoUnify()
        out = []
        for x, y in zip(a, b):
            if x is y:
                out.append(x)
            elif type(x) is tuple and type(y) is tuple:
                out.append(self.args(x, y))
            elif type(x) in (int, T) and type(y) in (int, T):
                # integers inside argument lists are 64-bit indices
                if type(x) is int and type(y) is int and x == y:
                    out.append(x)
                    continue
                w = x.w if type(x) is T else y.w if type(y) is T else 64
                out.append(self.val(x, y, w if w == 64 else 0))
            elif x == y:
                out.append(x)
            else:
                raise NoUnify()
        return tuple(out)


def step(a, b, w):
    """how far a value moved between two visits"""
    if a.__class__ is Ptr and b.__class__ is Ptr:
        a, b, w = off64(a.off), off64(b.off), 64
    if a.__class__ in (int, T) and b.__class__ in (int, T) and w:
        d = tm.sub(w, b, a)
        return d if type(d) is int else None
    return None


def off64(o):
    return o & mc.M64 if type(o) is int else o


def cellval(c):
    return c


def unify(A, B, cf, bi, I, visits, early=True):
    """generalised copy of state A (A at I = 0, B at I = 1)"""
    g = Gen(I)
    fa, fb = A.frames[-1], B.frames[-1]
    G = A.fork()
    R = G.frames[-1].R
    live = cf.livein(bi)
    regs = []
    ups = []
    still = []
    for r in live:
        a, b = fa.R[r], fb.R[r]
        w = cf.regw(r)
        if a is b:
            if w == 64 and a.__class__ is T:
                still.append(a)
            continue
        v = g.val(a, b, w)
        R[r] = v
        if not same(a, b):
            regs.append(r)
            if v.__class__ is Ptr and v.off.__class__ is T:
                me = G.m.meta[v.obj]
                if me.kind in ('in', 'out') and me.length.__class__ is T:
                    ups.append(tm.sub(64, me.length, v.off))
            elif w == 64 and v.__class__ is T:
                ups.append(v)
    if not regs:
        raise NoUnify()
    # what runs down to zero: a counter, the rest of a stream, or a limit minus a counter
    inv = invariants(A, [v for v, w, d in g.down if w == 64], I)
    if not inv:
        inv = invariants(A, [v for v in ups if v.k == 'add'], I)
    if not inv and visits > (8 if early else 160):
        g.early = visits <= 160
        inv = invariants(A, [tm.sub(64, n, v) for v in ups for n in still], I)
    if not inv and not g.down:
        raise NoBound()
    for o in B.objs:
        if o not in A.objs:
            # created inside the loop body: only other frames' objects matter
            raise NoUnify()
    cells = []
    for o in A.objs:
        ca = A.objs[o]
        if o not in B.objs:
            continue
        cb = B.objs[o]
        if ca is cb:
            continue
        if ca.__class__ is dict:
            raise NoUnify()
        gc = None
        i = 0
        n = len(ca)
        while i < n:
            x, y = ca[i], cb[i]
            if x is y or same(x, y):
                i += 1
                continue
            if gc is None:
                gc = G.cells(o)
            if x.__class__ is tuple and y.__class__ is tuple and x[1] == 0 and y[1] == 0 and x[2] == y[2]:
                try:
                    v = g.val(x[0], y[0], 8 * x[2])
                except NoUnify:
                    v = None
                    g.lossy += 1
                for j in range(x[2]):
                    gc[i + j] = (v, j, x[2]) if v is not None and v.__class__ is not int else (None if v is None else (v >> (8 * j)) & 255)
                cells.append((o, i, x[2]))
                i += x[2]
                continue
            # a multi-byte integer stored as bytes on one side
            k = None
            for q in (x, y):
                if q.__class__ is tuple and q[1] == 0:
                    k = q[2]
            if k is not None and i + k <= n:
                va, vb = mc.ldcells(A, ca, i, k), mc.ldcells(B, cb, i, k)
                try:
                    if va is UNDEF or vb is UNDEF:
                        raise NoUnify()
                    v = g.val(va, vb, 8 * k)
                except NoUnify:
                    v = None
                    g.lossy += 1
                for j in range(k):
                    gc[i + j] = (v, j, k) if v is not None and v.__class__ is not int else (None if v is None else (v >> (8 * j)) & 255)
                cells.append((o, i, k))
                i += k
                continue
            try:
                if x.__class__ in (int, T) and y.__class__ in (int, T):
                    gc[i] = g.term(x, y)
                else:
                    gc[i] = None
                    g.lossy += 1
            except NoUnify:
                gc[i] = None
                g.lossy += 1
            cells.append((o, i, 1))
            i += 1
    if not g.n:
        raise NoUnify()
    if not inv:
        inv = invariants(A, [v for v, w, d in g.down if w == 64], I)
    return G, g, regs, cells, inv


def invariants(A, vals, I):
    """linear values known to be non-negative (over the integers) in A = at I 0, with room for many rounds"""
    inv = []
    seen = set()
    for v in vals:
        if type(v) is not T:
            continue
        v0 = tm.subst_vars(v, {I: 0})
        if type(v0) is not T:
            continue
        c0, key0 = lin(v0)
        iv = A.facts.ivl.get(key0)
        if iv is None:
            if len(key0) == 1 and key0[0][0] == 1:
                iv = (0, tm.mask(key0[0][1].w))
            else:
                continue
        s0 = c0 - (1 << 64) if c0 >> 63 else c0
        if iv[1] + s0 < MINRANGE:
            continue          # few iterations: simply unrolled
        if iv[0] + s0 < 0:
            continue          # not known to be non-negative at I = 0
        c1, key1 = lin(v)
        s1 = c1 - (1 << 64) if c1 >> 63 else c1
        if s1 != s0 or key1 in seen:
            continue
        seen.add(key1)
        inv.append((v, key1, s1, iv[1]))
    return inv


def room(B, v, I):
    """is there still much left of v at the second visit? A tail is simply unrolled"""
    b = tm.subst_vars(v, {I: 1})
    return type(b) is T and B.facts.bound(b)[1] >= MINRANGE


def same(a, b):
    if a is b:
        return True
    if a.__class__ is not b.__class__:
        return False
    if a.__class__ is int:
        return a == b
    if a.__class__ is tuple:
        return a[1] == b[1] and a[2] == b[2] and same(a[0], b[0])
    if a.__class__ is T:
        return False
    return a == b


class Cutter(object):
    """watches every loop header of the given functions"""

    def __init__(self, m):
        self.m = m
        self.count = 0
        self.closed = 0
        self.on = set()
        self.pending = []
        self.extra_inv = None
        self.banned = set()      # steps that led nowhere: not generalised
        self.last = None         # signature of the latest generalisation

    def attach(self, key):
        if key in self.on:
            return
        self.on.add(key)
        cf = self.m.cf(key)
        if cf is None:
            return
        w = self.m.watch.setdefault(key, {})
        for bi in cf.loops():
            lab = cf.f.blocks[bi][0]
            pc = cf.blockpc[lab]
            if pc not in w:
                w[pc] = self.cb(cf, bi, pc)

    def cb(self, cf, bi, pc):
        lo = cf.loops()
        inner = [cf.blockpc[cf.f.blocks[b][0]] for b in lo if b != bi and b in lo[bi]]

        def visit(st, fr):
            snaps = fr.snaps or {}
            if inner and any(p in snaps for p in inner):
                # a new round of this loop: its inner loops start afresh
                snaps = {p: v for p, v in snaps.items() if p not in inner}
                fr.snaps = snaps
            rec = snaps.get(pc)
            ver = len(st.facts.bools) + len(st.facts.single) + len(st.facts.ivl)
            if rec is None:
                fr.snaps = dict(snaps)
                fr.snaps[pc] = ('V', ver, (st.fork(),))
                return None
            if rec[0] == 'V':
                _, v0, lst = rec
                if v0 == ver:
                    # no symbolic decision since the last visit: replace the snapshot
                    if len(lst) == 1:
                        fr.snaps = dict(snaps)
                        fr.snaps[pc] = ('V', ver, (st.fork(),))
                        return None
                for A in reversed(lst[-140:]):
                    g = self.try_unify(A, st, cf, bi, pc, len(lst))
                    if g is False:
                        break
                    if g is not None:
                        return self.goto(st, fr, g, pc)
                if len(lst) > MAXVISITS:
                    raise Limit('loop at %s: no inductive generalisation found' % cf.where(fr))
                fr.snaps = dict(snaps)
                fr.snaps[pc] = ('V', ver, lst + (st.fork(),))
                return None
            # generalised: does the state match I+1 ?
            _, g, left = rec
            if self.matches(st, fr, g, cf, bi):
                self.closed += 1
                self.m.stats['contract'] += 1
                return 'stop'
            if left <= 0:
                raise Limit('loop at %s: generalised state is not inductive' % cf.where(fr))
            fr.snaps = dict(snaps)
            fr.snaps[pc] = ('G', g, left - 1)
            return None
        return visit

    def try_unify(self, A, B, cf, bi, pc, visits):
        fa, fb = A.frames[-1].R, B.frames[-1].R
        sig = (str(cf.key), pc, tuple([(r, repr(step(fa[r], fb[r], cf.regw(r)))) for r in cf.livein(bi) if fa[r] is not fb[r]]))
        if sig in self.banned:
            return None
        self.count += 1
        I = tm.var('I%d' % self.count, 64)
        try:
            G, gen, regs, cells, inv = unify(A, B, cf, bi, I, visits, (str(cf.key), pc, 'early') not in self.banned)
        except NoBound:
            return False
        except NoUnify:
            return None
        if gen.lossy:
            # changing values are forgotten: rarely of use; not tried again at a loop where that failed
            sig = (str(cf.key), pc, 'lossy')
            if visits <= 5 or sig in self.banned:
                return None
        elif gen.early:
            # a counter against a limit, after a few rounds: a loop of many rounds is unrolled first where that failed
            sig = (str(cf.key), pc, 'early')
        inv = [x for x in inv if room(B, x[0], I)]
        for v, key, s, hi in inv:
            G.facts.ivl[key] = (-s, hi)
        most = 1 << 61
        for v, key, s, hi in inv:
            for co, x in key:
                if x is I and co >> 63:
                    most = min(most, (hi + s) // ((1 << 64) - co))
        inv = [x[:3] for x in inv]
        if not inv:
            return None
        G.facts.ivl[((1, I),)] = (0, most)
        self.last = sig
        return (G, I, regs, cells, inv)

    def attempt(self, run):
        """run(), again without the generalisation made last when that one led nowhere"""
        for n in range(7):
            self.last = None
            try:
                return run()
            except (Fail, Limit) as e:
                if isinstance(e, Fail) and not (e.st is not None and e.st.user.get('gen')):
                    raise
                if n == 6 or self.last is None:
                    raise
                self.banned.add(self.last)

    def goto(self, st, fr, g, pc):
        """replace the running path by the generalised state"""
        G, I, regs, cells, inv = g
        n = G.fork()
        st.objs = n.objs
        st.own = n.own
        st.facts = n.facts
        for k, v in st.user.items():
            n.user.setdefault(k, v)
        st.user = dict(st.user, gen=True)
        f = n.frames[-1]
        fr.R[:] = f.R
        fr.allocas = f.allocas
        fr.ret = f.ret
        st.frames[:] = n.frames[:-1] + [fr]
        f = fr
        f.pc = pc
        f.snaps = {pc: ('G', g, MAXVISITS)}
        return None

    def matches(self, st, fr, g, cf, bi):
        G, I, regs, cells, inv = g
        nx = {I: tm.add(64, I, 1)}
        live = cf.livein(bi)
        GR = G.frames[-1].R
        f = st.facts
        for r in live:
            a, b = GR[r], fr.R[r]
            if r in regs:
                a = nxt(a, nx)
            if not eqv(f, a, b):
                dbg('register', r, a, b)
                return False
        for o, ca in G.objs.items():
            cb = st.objs.get(o)
            if ca is None or cb is ca:
                continue
            if cb is None:
                dbg('object gone', o, self.m.meta[o].name)
                return False
            if ca is cb:
                continue
            for i in range(len(ca)):
                x, y = ca[i], cb[i]
                if x is y or x is None:
                    continue
                if x.__class__ is tuple:
                    if x[0].__class__ is T:
                        x = tm.ext(nxt(x[0], nx), 8 * x[1], 8)
                    else:
                        x = (nxt(x[0], nx), x[1], x[2])
                elif x.__class__ is T:
                    x = nxt(x, nx)
                if y.__class__ is tuple and y[0].__class__ is T:
                    y = tm.ext(y[0], 8 * y[1], 8)
                if not eqv(f, x, y):
                    dbg('cell', self.m.meta[o].name, i, tm.show(x) if x.__class__ is not tuple else x, tm.show(y) if y.__class__ is not tuple else y)
                    return False
        # the assumed facts at I+1
        for v, key, s in inv:
            v1 = nxt(v, nx)
            c1, k1 = lin(v1)
            s1 = c1 - (1 << 64) if c1 >> 63 else c1
            iv = f.ivl.get(k1)
            if iv is None or iv[0] + s1 < 0:
                dbg('invariant', tm.show(v1), iv)
                return False
        return True


def nxt(v, nx):
    if v.__class__ is T:
        return tm.subst_vars(v, nx)
    if v.__class__ is Ptr and v.off.__class__ is T:
        return Ptr(v.obj, tm.subst_vars(v.off, nx), v.lo, v.hi)
    return v


def eqv(f, a, b):
    if same(a, b):
        return True
    if a.__class__ is Ptr and b.__class__ is Ptr and a.obj == b.obj:
        return eqv(f, off64(a.off), off64(b.off))
    if a.__class__ in (int, T) and b.__class__ in (int, T):
        a, b = f.simplify(a), f.simplify(b)
        if a is b or type(a) is int and type(b) is int:
            return a is b or a == b
        w = a.w if a.__class__ is T else b.w
        return (a.__class__ is int or b.__class__ is int or a.w == b.w) and tm.sub(w, a, b) == 0
    if a.__class__ is tuple and b.__class__ is tuple and a[1:] == b[1:]:
        return eqv(f, a[0], b[0])
    return False


DEBUG = False


def dbg(*a):
    if DEBUG:
        print('  autocut:', *a)
