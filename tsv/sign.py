"""Signing: every word delivered is the specified one, for every request pattern."""
from . import term as tm
from .term import T
from . import machine as mc
from .machine import Ptr, Fn, Fail
from .facts import Limit
from . import prog, spec, roles, smt
from .report import Report
from .scheme import Env, Cut, split, catb, same, DL, MU, DL32, MLEN, atoms_of
from .streams import S, BIGL


def be32(v):
    return v if type(v) is int else tm.zext(v, v.w, 32) if v.w < 32 else v


def pieces(ps, n=MLEN, tag=''):
    """a digest cut into the fields SPHINCS+ reads: (value, FORS indices, tree, leaf); every n-byte value is of this form"""
    bits = 8 * n
    idx = [tm.var('IDX%s%d' % (tag, i), ps.t) for i in range(ps.k)]
    tree, leaf = tm.var('TREE0' + tag, ps.h - ps.mh), tm.var('LEAF0' + tag, ps.mh)
    out = [(v, ps.t) for v in idx]
    used = ps.k * ps.t

    def pad(w):
        if w:
            out.append((tm.var('PAD%s%d' % (tag, len(out)), w), w))
        return w
    used += pad(-used % 8)
    used += pad(-(ps.h - ps.mh) % 8)
    out.append((tree, ps.h - ps.mh))
    used += ps.h - ps.mh
    used += pad(-ps.mh % 8)
    out.append((leaf, ps.mh))
    used += ps.mh
    pad(bits - used)
    return tm.cat(*out), idx, tree, leaf


def known(p, n):
    """facts: p (narrow variable) takes values 0..n-1"""
    def f(facts):
        facts.ivl[((1, p),)] = (0, n - 1)
        if p.w <= 8:
            facts.dom[(p, 0, p.w)] = (1 << n) - 1
    return f


class Flow(Env):
    """common to signing and verification: states at the cut, merging, templates"""

    def __init__(self, cfg, ps, kind, m=None):
        Env.__init__(self, cfg, ps, kind, m)
        self.tick = 0
        self.visited = []
        self.poisoned = False
        self.open = set()
        self.anyadr = False         # address bytes never written have any value, instead of being an error to read

    def anything(self, st, ctx):
        if self.anyadr:
            o, z = self.F['adr']
            c = st.cells(ctx.obj)
            for i in range(o, o + z):
                if c[i] is None:
                    c[i] = tm.var('ANY%d' % i, 8)

    def fresh(self, name, w):
        self.tick += 1
        return tm.var('%s.%d' % (name, self.tick), w)

    def cells(self, objs):
        return objs[self.cut.ctxp.obj]

    def fieldval(self, objs, name):
        o, z = self.F[name]
        return mc.ldcells(None, self.cells(objs), o, z)

    def setfield(self, objs, name, v):
        objs = dict(objs)
        o, z = self.F[name]
        c = list(self.cells(objs))
        if v is None:
            c[o:o + z] = [None] * z
        elif type(v) is int:
            for i in range(z):
                c[o + i] = (v >> (8 * i)) & 255
        elif z == 1:
            c[o] = v
        else:
            for i in range(z):
                c[o + i] = (v, i, z)
        objs[self.cut.ctxp.obj] = c
        return objs

    def substcell(self, x, m, memo):
        if x.__class__ is T:
            return tm.subst_vars(x, m, memo)
        if x.__class__ is tuple and x[0].__class__ is T:
            v = tm.subst_vars(x[0], m, memo)
            if v is x[0]:
                return x
            return (v, x[1], x[2]) if v.__class__ is T else (v >> (8 * x[1])) & 255
        return x

    def substobjs(self, objs, m):
        if not m:
            return objs
        memo = {}
        out = {}
        for o, c in objs.items():
            if c.__class__ is list and self.m.meta[o].kind == 'mem':
                c = [self.substcell(x, m, memo) if x.__class__ is T or x.__class__ is tuple else x for x in c]
            out[o] = c
        return out

    def merge(self, ends):
        """one memory for several path ends: [(state, {value: name})]"""
        objs = None
        for st, names in ends:
            o = self.reobjs({k: v for k, v in st.objs.items() if k in self.base}, names)
            if objs is None:
                objs = o
                continue
            for k, c in o.items():
                d = objs[k]
                if c is d or c.__class__ is not list:
                    continue
                nd = None
                for i in range(len(c)):
                    if not cellsame(c[i], d[i]):
                        if nd is None:
                            nd = list(d)
                        nd[i] = None
                        if c[i] is not None and d[i] is not None:
                            self.poisoned = True
                if nd is not None:
                    objs[k] = nd
        return objs

    def match(self, tmpl, objs, m, what):
        """the template with its variables replaced describes this memory"""
        memo = {}
        self.miss = None, None
        tmpl = self.reobjs(tmpl, m)
        m = {}
        for o, c in tmpl.items():
            if c.__class__ is not list or self.m.meta[o].kind != 'mem':
                continue
            d = objs.get(o)
            if d is None or len(d) != len(c):
                return '%s: object %s' % (what, self.m.meta[o].name)
            for i in range(len(c)):
                x = c[i]
                if x is None or x is d[i]:
                    continue
                x = self.substcell(x, m, memo)
                if not cellsame(x, d[i]):
                    self.miss = o, i
                    return '%s: byte %d of %s is %s, not %s' % (what, i, self.m.meta[o].name, tm.show(byteof(d[i])), tm.show(byteof(x)))
        return None


def byteof(c):
    if c.__class__ is tuple:
        return tm.ext(c[0], 8 * c[1], 8) if c[0].__class__ is T else c
    return c


def cellsame(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if a == b:
        return True
    a, b = byteof(a), byteof(b)
    if a is b:
        return True
    if a.__class__ is int or b.__class__ is int or a.__class__ is T or b.__class__ is T:
        return a.__class__ is b.__class__ is int and a == b
    return a == b


class Sign(Flow):
    parts = ('prove', 'calls')

    def __init__(self, cfg, ps, m=None):
        Flow.__init__(self, cfg, ps, 'sign', m)
        self.OPT = tm.var('OPTRAND', 8 * self.n)
        self.L = tm.var('L', 64)
        self.words = 0
        self.suspect = None
        self.cur = None

    # ------------------------------------------------------------ ts_init_sign
    def start(self, mode):
        """end state of ts_init_sign; mode: 'ok', 'fail', 'null'"""
        n = self.n
        st = mc.St(self.m)
        ctx = st.new('ctx', self.c.size)
        self.anything(st, ctx)
        self.newkey(st)
        self.psp = self.m.globptr(st, self.c.pskey())
        st.facts.ivl[((1, self.L),)] = (0, BIGL)
        self.msg = st.stream('message', 'in', S, self.L)
        fn = Fn(('harness', 'random'))

        def rnd(s, a):
            p, k = a
            s.user['rnd'] = s.user.get('rnd', 0) + 1
            if k != n:
                raise Fail('spec', None, 'the random source is asked for %s bytes, not %d' % (tm.show(k), n))
            mc.putbytes(s, p, split(self.OPT if mode == 'ok' else tm.var('JUNK', 8 * n), n))
            return 1 if mode == 'ok' else 0      # the two answers the interface documents
        self.m.contracts[fn.name] = rnd
        ends = self.explore(st, 'ts_init_sign', [ctx, self.msg, self.L, self.psp, self.keyobj, 0 if mode == 'null' else fn])
        e = ends[0] if len(ends) == 1 else self.choose(ends, ctx, mode)
        self.rep.add('%s signing: random source used at most once' % self.tag, e.user.get('rnd', 0) <= 1, 'used %s times' % e.user.get('rnd'))
        e.facts = type(e.facts)()
        e.user = {}
        del e.objs[self.msg.obj]         # the message need not exist after this
        return e, ctx

    def choose(self, ends, ctx, mode):
        """ts_init_sign ends in several ways, depending on the data: the one with the right randomiser, and what to say of
        the others"""
        want = self.uf.ap('PRFMSG', (self.OPT if mode == 'ok' else catb(self.c.seed),), 8 * self.n)
        o, z = self.F['buffer']
        good, odd = [], 0
        for e in ends:
            try:
                got = catb(mc.getbytes(e, Ptr(ctx.obj, o, o, o + z), self.n, 'randomiser'))
            except Fail:
                raise Limit('ts_init_sign branches')
            r, env = smt.differ(e.facts, got, want)
            if r == 'eq':
                good.append(e)
            elif r == 'ne':
                odd += 1
                self.rep.fail(self.nm('randomiser', 'the signature starts with the randomiser of key, randomness and message'),
                              'is %s, not %s, where %s' % (self.uf.show(got), self.uf.show(want), '; '.join(e.facts.describe()[-3:])))
            else:
                raise Limit('ts_init_sign branches')
        if not good:
            raise Limit('ts_init_sign branches')
        a = good[0].objs[ctx.obj]
        for e in good[1:]:
            b = e.objs[ctx.obj]
            if len(a) != len(b) or not all(x is None and y is None or cellsame(x, y) for x, y in zip(a, b)):
                raise Limit('ts_init_sign branches')
        return good[0]

    def init(self, modes=('ok', 'fail', 'null')):
        st, ctx = self.start('ok')
        R = self.uf.ap('PRFMSG', (self.OPT,), 8 * self.n)
        self.R = R
        self.HM = self.uf.ap('HMSG', (R,), 8 * MLEN)
        seed = catb(self.c.seed)
        R2 = self.uf.ap('PRFMSG', (seed,), 8 * self.n)
        HM2 = self.uf.ap('HMSG', (R2,), 8 * MLEN)
        keep = (self.psp, self.pub, self.keyobj, self.msg)
        for mode in modes:
            if mode == 'ok':
                continue
            s2, c2 = self.start(mode)
            # the same state with the public seed in the place of the randomness
            # references to the key differ between the runs: compare relative to them
            a, b = st.objs[ctx.obj], s2.objs[c2.obj]
            memo = {}
            sub = {R: R2, self.HM: HM2}
            o1, o2 = keep[1], self.pub
            bad = []
            for i in range(len(a)):
                x = self.substcell(a[i], sub, memo)
                y = b[i]
                if x.__class__ is tuple and x[0].__class__ is Ptr and y.__class__ is tuple and y[0].__class__ is Ptr:
                    if x[0] == o1 and y[0] == o2 and x[1] == y[1]:
                        continue
                if not (x is None and y is None) and not cellsame(x, y):
                    # iterators are compared by their definition
                    if self.itersame(x, y, sub):
                        continue
                    bad.append(i)
            self.rep.add('%s signing: %s makes the public seed the optional randomness' % (
                self.tag, 'a failing random source' if mode == 'fail' else 'no random source'), not bad, 'context byte(s) %s differ' % bad[:6])
        self.psp, self.pub, self.keyobj, self.msg = keep
        return st, ctx

    def itersame(self, x, y, sub):
        if x.__class__ is tuple and y.__class__ is tuple and x[0].__class__ is T and y[0].__class__ is T and x[1:] == y[1:]:
            d1, d2 = self.uf.defs.get(x[0]), self.uf.defs.get(y[0])
            if d1 and d2 and d1[0] == d2[0] and len(d1[1]) == len(d2[1]):
                return all((tm.subst_vars(p, sub) if type(p) is T else p) is q for p, q in zip(d1[1], d2[1]))
        return False

    def begin(self, modes=('ok', 'fail', 'null')):
        st, ctx = self.init(modes)
        self.cut = cut = Cut(self, 'ts_sign', 'out')
        self.find_leaf()
        cut.learn(st, ctx)
        cut.h0.objs = {k: v for k, v in cut.h0.objs.items()}
        self.base = [k for k in cut.h0.objs if k != cut.bufobj]
        objs = {k: cut.h0.objs[k] for k in self.base}
        cat, self.IDX, self.TREE0, self.LEAF0 = pieces(self.ps, MLEN)
        self.sub0 = {self.HM: cat}
        return self.reobjs(objs, self.sub0)

    def exhausted(self, objs):
        return self.setfield(objs, 'buffer_offset', self.n)

    def nm(self, kind, what):
        return '%s signing/%s: %s' % (self.tag, kind, what)

    # ------------------------------------------------------------ one word
    def word(self, objs, facts, kind, what, want, names=None):
        """the next word from memory `objs` (everything before was delivered).
        want(facts) -> specified word; names(facts) -> {value: name} for merging.
        -> [(state, names)]; names is None for a return without a word"""
        cut = self.cut
        self.visited.append((self.cells(objs), tuple(facts)))
        self.words += 1
        objs = self.exhausted(objs)
        st = cut.at(objs, facts)
        st.facts.ivl[((1, MU),)] = (1, (1 << 32) - 1)
        outs = []
        try:
            runs = cut.run(st)
        except Fail as e:
            if self.poisoned and e.kind == 'init':
                if self.suspect:
                    self.rep.fail(self.nm(self.suspect[0], self.suspect[1]), '%s (then: %s)' % (self.suspect[2], e))
                raise Limit('merged state: %s' % e)
            raise
        for k, s in runs:
            if k == 'ret':
                outs.append((s, None))
                continue
            w = cut.written(s)
            if w is None:
                self.rep.fail(self.nm('emission', 'delivered bytes lie at the caller\'s place'), 'bytes at %s' % [tm.show(q) for q in list(s.objs[cut.bufobj])[:4]])
                continue
            r = len(w)
            off = self.fieldval(s.objs, 'buffer_offset')
            x = cut.consistent(s, r)
            if x is not None:
                self.rep.fail(self.nm('emission', 'request and place advance by the bytes delivered'), x)
            self.rep.add(self.nm('emission', 'a new word starts at its first byte'), off == r, 'offset %s' % tm.show(off))
            o, z = self.F['buffer']
            exp = want(s.facts)
            try:
                got = mc.getbytes(s, Ptr(cut.ctxp.obj, o, o, o + z), self.n, 'signature word')
            except Fail as e:
                if self.poisoned:
                    raise Limit('merged state: %s' % e)
                self.rep.fail(self.nm(kind, what), str(e))
                continue
            ok = all(same(s.facts, a, b) for a, b in zip(got, split(exp, self.n)))
            self.rep.add(self.nm(kind, what), ok, '' if ok else 'is %s, not %s' % (self.uf.show(catb(got)), self.uf.show(exp)))
            if r:
                self.rep.add(self.nm('emission', 'bytes delivered are those of the word'), all(same(s.facts, a, b) for a, b in zip(w, got)), what)
            outs.append((s, names(s.facts) if names else {}))
        return outs

    def present(self, objs, v):
        """the value v is held somewhere in memory"""
        for o, c in objs.items():
            if c.__class__ is list and self.m.meta[o].kind == 'mem':
                for x in c:
                    y = x[0] if x.__class__ is tuple else x
                    if y.__class__ is T and (y is v or v in atoms_of(y, set())):
                        return True
        return False

    def one(self, outs, what):
        """all ends delivered a word: merge them"""
        if not outs:
            raise Limit('%s: no way on' % what)
        if any(nm is None for _, nm in outs):
            self.rep.fail(self.nm('length', 'a word follows'), 'the signature ends before: ' + what)
            raise Limit('signature ends before: ' + what)
        return self.merge(outs)

    def group(self, outs, var, last, what):
        """split ends by whether var is its last value -> (others, those)"""
        a, b = [], []
        for s, nm in outs:
            v = s.facts.simplify(var)
            lo, hi = (v, v) if type(v) is int else s.facts.bound(var)
            d = s.facts.dom.get((var, 0, var.w))
            if d is not None and type(v) is T:
                vals = [i for i in range(1 << var.w) if d >> i & 1]
                lo, hi = vals[0], vals[-1]
            if hi == last:
                if lo == last:
                    b.append((s, nm))
                    continue
                b.append((s, nm))
            a.append((s, nm))
        return a, b

    # ------------------------------------------------------------ trees
    def sibs(self, leaf, t, h):
        """leaf numbers below the sibling of the node of height h over `leaf`"""
        top = (tm.ext(leaf, h + 1, t - h - 1), t - h - 1) if t - h - 1 else None
        bit = (tm.xor(1, tm.ext(leaf, h, 1), 1), 1)

        def at(j):
            p = ([top] if top else []) + [bit] + ([(j, h)] if h else [])
            return tm.cat(*p) if len(p) > 1 else p[0][0]
        return at

    def under(self, at, t, h, leafv, node):
        """root of the height-h subtree of a height-t tree whose leaf numbers are at(0..2^h-1)"""
        return self.sp.subtree(h, lambda j: leafv(at(j)), lambda k, j: node(k, tm.ext(at(j << k), k, t - k) if k else at(j)))

    def above(self, leaf, t, h, node):
        """address of the node of height h+1 over `leaf`"""
        return node(h + 1, tm.ext(leaf, h + 1, t - h - 1) if t - h - 1 else 0)

    def level(self, objs, facts, kind, t, h, leaf, leafv, node, rename, pre):
        """authentication path word of height h for `leaf`; running root moves to NODE(h+1)"""
        cur = self.cur
        sib = self.under(self.sibs(leaf, t, h), t, h, leafv, node)
        nadr = self.above(leaf, t, h, node)

        def root(facts):
            b = facts.simplify(tm.ext(leaf, h, 1))
            if type(b) is not int:
                return None
            return self.sp.Tl(nadr, sib, cur) if b else self.sp.Tl(nadr, cur, sib)
        nv = self.uf.ap(rename, pre + (h + 1,), 8 * self.n)

        def names(facts):
            r = root(facts)
            if r is None:
                return {self.sp.Tl(nadr, sib, cur): nv, self.sp.Tl(nadr, cur, sib): nv}
            return {r: nv}
        outs = self.word(objs, facts, kind, 'authentication path node of height %d' % h, lambda f: sib, names)
        ok = all(nm is None or any(self.present(s.objs, r) or r in self.held(s) for r in nm) for s, nm in outs)
        if not ok and not self.suspect:
            self.suspect = (kind, 'running root over height %d' % (h + 1), 'no such value is kept')
        self.cur = nv
        return outs

    def held(self, s):
        """values inside iterators and hashes of iterators"""
        acc = set()
        for o, c in s.objs.items():
            if c.__class__ is list and self.m.meta[o].kind == 'mem':
                for x in c:
                    y = x[0] if x.__class__ is tuple else x
                    for q in ([y] if y.__class__ is T else []):
                        for b in atoms_of(q, set()) | {q}:
                            self.deep(b, acc, 4)
        return acc

    def deep(self, v, acc, d):
        if v in acc or d == 0:
            return
        acc.add(v)
        de = self.uf.defs.get(v)
        if de:
            for a in de[1]:
                if a.__class__ is T:
                    self.deep(a, acc, d - 1)

    def reinst(self, v, m, memo):
        """value of a function value when its arguments are replaced"""
        if v.__class__ is not T:
            return v
        if v in m:
            return m[v]
        r = memo.get(v)
        if r is not None:
            return r
        de = self.uf.defs.get(v)
        if de is None or de[0] not in ('TI', 'TN', 'TP'):
            r = v
        else:
            args = tuple(self.reterm(a, m, memo) for a in de[1])
            if args == de[1]:
                r = v
            elif de[0] == 'TP':
                r = self.finalt(args[0])
            else:
                r = self.uf.ap(de[0], args, v.w)
        memo[v] = r
        return r

    def reterm(self, t, m, memo):
        if t.__class__ is not T:
            return t
        at = atoms_of(t, set()) | {t}
        sub = {}
        for b in at:
            if b in m:
                sub[b] = m[b]
            elif b in self.uf.defs:
                r = self.reinst(b, m, memo)
                if r is not b:
                    sub[b] = r
        return tm.subst_vars(t, sub) if sub else t

    def reobjs(self, objs, m):
        """memory with template variables replaced, through function values as well"""
        memo = {}
        sub = dict(m)
        for o, c in objs.items():
            if c.__class__ is list and self.m.meta[o].kind == 'mem':
                for x in c:
                    y = x[0] if x.__class__ is tuple else x
                    if y.__class__ is T:
                        for b in atoms_of(y, set()) | {y}:
                            if b not in sub and b in self.uf.defs:
                                r = self.reinst(b, m, memo)
                                if r is not b:
                                    sub[b] = r
        return self.substobjs(objs, sub)

    def antiiter(self, x, y, m0, m1, iv):
        """an iterator in its initial state covering x and y"""
        dx, dy = self.uf.defs[x], self.uf.defs[y]
        if dx[0] != 'TI' or dy[0] != 'TI':
            return None
        out = []
        for p, q in zip(split(dx[1][0], self.c.al), split(dy[1][0], self.c.al)):
            if p.__class__ is int and q.__class__ is int and p != q:
                if q - p != 1:
                    return None
                p = tm.add(8, p, iv) if p else iv
            elif p.__class__ is T:
                p = tm.subst_vars(p, m0)
                if not cellsame(tm.subst_vars(p, m1) if p.__class__ is T else p, q):
                    return None
            elif p != q:
                return None
            out.append(p)
        return self.uf.ap('TI', (catb(out),), 64)

    def anti(self, s0, s1, m0, m1, iv):
        """least general memory covering s0 and s1: m0 maps values of s0 to template variables, m1 template variables to
        the values of s1; iv: the counter variable (0 in s0, 1 in s1)"""
        out = {}
        a, b = {}, dict(m1)
        b[iv] = 1
        memo0, memo1 = {}, {}
        iters = {}
        for o, c in s0.items():
            if c.__class__ is not list or self.m.meta[o].kind != 'mem':
                out[o] = c
                continue
            d = s1[o]
            n = list(c)
            for i in range(len(c)):
                x, y = c[i], d[i]
                if x is None or cellsame(x, y):
                    continue
                n[i] = None
                if y is None:
                    continue
                if x.__class__ is int and y.__class__ is int:
                    if y - x == 1:
                        n[i] = tm.add(8, x, iv) if x else iv
                    continue
                if x.__class__ is tuple and x[0].__class__ is T and y.__class__ is tuple and y[0].__class__ is T and x[1:] == y[1:] \
                        and self.uf.defs.get(x[0], ('',))[0] in ('TI', 'TN') and self.uf.defs.get(y[0], ('',))[0] in ('TI', 'TN'):
                    k = (x[0], y[0])
                    if k not in iters:
                        iters[k] = self.antiiter(x[0], y[0], m0, b, iv) or self.uf.ap('TX', (len(iters),), 64)
                    n[i] = (iters[k], x[1], x[2])
                    continue
                z = self.substcell(x, m0, memo0)
                if cellsame(self.substcell(z, b, memo1), y):
                    n[i] = z
            out[o] = n
        return out, iters

    def dropsince(self, objs, mark, keep):
        """forget values made since `mark` other than `keep`"""
        new = {v for k, v in list(self.uf.tab.items())[mark:]} - set(keep)
        out = {}
        for o, c in objs.items():
            if c.__class__ is list and self.m.meta[o].kind == 'mem':
                n = None
                for i, x in enumerate(c):
                    y = x[0] if x.__class__ is tuple else x
                    if y.__class__ is T and (y in new or atoms_of(y, set()) & new):
                        if n is None:
                            n = list(c)
                        n[i] = None
                if n is not None:
                    c = n
            out[o] = c
        return out

    # ------------------------------------------------------------ FORS
    def z(self, v, w):
        return v if v.__class__ is int else tm.zext(v, v.w, w) if v.w < w else v

    def fnode(self, I):
        t, sp = self.ps.t, self.sp
        tree, kp = self.z(self.TREE0, 64), self.z(self.LEAF0, 32)

        def node(k, j):
            # node j of height k in tree I
            w = 32 - (t - k)
            hi = I if I.__class__ is int else self.z(I, w)
            return sp.adr(0, tree, spec.FORSTREE, kp, k, tm.cat((hi, w), (j, t - k)) if t > k else hi)
        return node

    def fleaf(self, I):
        node = self.fnode(I)
        t, sp = self.ps.t, self.sp
        tree, kp = self.z(self.TREE0, 64), self.z(self.LEAF0, 32)

        def index(j):
            w = 32 - t
            return tm.cat((I if I.__class__ is int else self.z(I, w), w), (j, t))
        return (lambda j: sp.forsleaf(tree, kp, index(j))), (lambda j: sp.forssecret(tree, kp, index(j)))

    def secret(self, objs, i):
        leaf, sec = self.fleaf(i)
        o = self.one(self.word(objs, (), 'secret', 'secret of FORS tree %d' % i, lambda f: sec(self.IDX[i])), 'FORS tree %d' % i)
        return o

    def candidate(self, s0, loose=False):
        """template of the state after a FORS secret, from that of tree 0; the address is open, or (loose)
        has any value where that of tree 0 is a number or has the index"""
        for f in ('fors_tree', 'auth_path_node'):
            if f not in self.F:
                return None
        t = self.ps.t
        leaf, sec = self.fleaf(0)
        o = self.substobjs(s0, {leaf(self.IDX[0]): self.A, sec(self.IDX[0]): self.B})
        z = self.F['fors_tree'][1]
        o = self.setfield(o, 'fors_tree', self.z(self.I, 8 * z))
        o = self.setfield(o, 'auth_path_node', self.z(self.LEAF, 8 * self.F['auth_path_node'][1]))
        if 'adr' in self.F and not loose:
            o = self.setfield(o, 'adr', None)
        elif 'adr' in self.F:
            a, z = self.F['adr']
            c = list(self.cells(o))
            for i in range(a, a + z):
                if c[i].__class__ is int or c[i].__class__ is T and self.IDX[0] in atoms_of(c[i], set()):
                    c[i] = tm.var('OPEN%d' % (i - a), 8)
                    self.open.add(c[i])
            o[self.cut.ctxp.obj] = c
        return o, self.iterout(o)

    def iterout(self, objs):
        """replace iterators in use by unknown ones (in place); -> {unknown: iterator}"""
        it = {}
        for o, c in objs.items():
            if c.__class__ is list and self.m.meta[o].kind == 'mem':
                for i, x in enumerate(c):
                    if x.__class__ is tuple and x[0].__class__ is T and self.uf.defs.get(x[0], ('',))[0] in ('TI', 'TN'):
                        if x[0] not in it:
                            it[x[0]] = self.uf.ap('TX', (len(it),), 64)
                        if objs[o] is c:
                            objs[o] = list(c)
                        objs[o][i] = (it[x[0]], x[1], x[2])
        return it

    def bind(self, tmpl, s):
        """iterators standing where the template has unknown ones"""
        m = {}
        for o, c in tmpl.items():
            if c.__class__ is list and self.m.meta[o].kind == 'mem':
                for i, x in enumerate(c):
                    if x.__class__ is tuple and x[0].__class__ is T and self.uf.defs.get(x[0], ('',))[0] == 'TX':
                        y = s[o][i]
                        if y.__class__ is tuple and y[0].__class__ is T and y[1:] == x[1:]:
                            m.setdefault(x[0], y[0])
                    elif self.open and x.__class__ is T and x in self.open and s[o][i].__class__ in (int, T):
                        m[x] = s[o][i]
        return m

    def tree(self, objs, I, leaf, leafval, facts):
        """all levels of a FORS tree; -> ends of the last one"""
        ps = self.ps
        lf, _ = self.fleaf(I)
        node = self.fnode(I)
        self.cur = leafval
        self.stage += 1
        for h in range(ps.t):
            outs = self.level(objs, facts, 'path', ps.t, h, leaf, lf, node, 'NODE', (self.stage,))
            if h < ps.t - 1:
                objs = self.one(outs, 'FORS path word')
        return outs

    def fors(self, objs):
        ps, sp = self.ps, self.sp
        self.I, self.LEAF = tm.var('I', 8), tm.var('LEAF', ps.t)
        self.A, self.B = tm.var('A', 8 * self.n), tm.var('B', 8 * self.n)
        self.stage = 0
        s = self.secret(objs, 0)
        for loose in (False, True):
            cand = self.candidate(s, loose)
            if cand is None:
                break
            words, seen, bad = self.words, len(self.visited), len(self.rep.fails)
            ob = {k: list(v) for k, v in self.rep.ob.items()}
            stopped = False
            try:
                r = self.fors_with(s, cand[0])
            except Fail as e:
                # the code reads what this description leaves open
                if e.kind != 'init' and not loose:
                    raise
                r, stopped = None, True
            if r is not None and (not loose or len(self.rep.fails) == bad):
                return r
            if loose or r is None and stopped:
                del self.rep.fails[bad:]
                self.rep.ob = ob
            self.words = words
            del self.visited[seen:]
        # learn the template from the first two trees
        outs = self.tree(s, 0, self.IDX[0], self.fleaf(0)[0](self.IDX[0]), ())
        pre1 = self.one(outs, 'FORS tree 1')
        pre1 = self.reobjs(pre1, {self.cur: self.froot(0)})
        keep = self.words
        s1 = self.secret(pre1, 1)
        m0 = {self.IDX[0]: self.LEAF, self.fleaf(0)[0](self.IDX[0]): self.A, self.fleaf(0)[1](self.IDX[0]): self.B}
        tmpl, _ = self.anti(s, s1, m0, self.fbind(1), self.I)
        self.words = 2
        r = self.fors_with(s, tmpl)
        if r is None:
            raise Limit('no description of the FORS states found: %s' % self.why)
        return r

    def froot(self, i):
        return self.uf.ap('FORSROOT', (i,), 8 * self.n)

    def fbind(self, i):
        lf, sec = self.fleaf(i)
        return {self.LEAF: self.IDX[i], self.A: lf(self.IDX[i]), self.B: sec(self.IDX[i]), self.I: i}

    def fors_with(self, s, tmpl):
        """all FORS trees by the template; None if it does not fit"""
        ps, sp = self.ps, self.sp
        facts = (known(self.I, ps.k),)
        words = self.words
        x = self.match(tmpl, s, self.fbind(0) | self.bind(tmpl, s), 'first FORS tree')
        if x:
            self.why = x
            return None
        mark = len(self.uf.tab)
        outs = self.tree(tmpl, self.I, self.LEAF, self.A, facts)
        root = self.cur
        a, b = self.group(outs, self.I, ps.k - 1, 'FORS')
        more, last = self.one(a, 'next FORS tree'), self.one(b, 'one-time signature')
        keep = {root} | {v for v, d in self.uf.defs.items() if d[0] in ('TI', 'TN', 'TP', 'TX')}
        more, last = self.dropsince(more, mark, keep), self.dropsince(last, mark, keep)
        self.words = words
        for i in range(ps.k):
            m = self.fbind(i) | self.bind(tmpl, s)
            if i:
                x = self.match(tmpl, s, m, 'FORS tree %d' % i)
                if x:
                    self.why = x
                    return None
            self.words += ps.t
            m[root] = self.froot(i)
            if i < ps.k - 1:
                s = self.secret(self.reobjs(more, m), i + 1)
        pk = sp.Tl(sp.adr(0, self.z(self.TREE0, 64), spec.FORSPK, self.z(self.LEAF0, 32), 0, 0), *[self.froot(i) for i in range(ps.k)])
        s = self.reobjs(last, m)
        s = self.dropsince(s, mark, {pk} | {v for v, d in self.uf.defs.items() if d[0] in ('TI', 'TN') or d[0] == 'T' and d[1][1:] == self.uf.defs[pk][1][1:]})
        if not self.present(s, pk):
            self.suspect = ('order', 'FORS public key over all roots in order', 'no such value is kept')
        return s, pk

    # ------------------------------------------------------------ hypertree
    def chainspec(self, L, tree, leaf, i):
        """all values of chain i"""
        sp = self.sp
        chain = [sp.start(L, tree, leaf, i)]
        for j in range(15):
            chain.append(sp.F(sp.adr(L, tree, spec.WOTS, leaf, i, j), chain[-1]))
        return chain

    def tnode(self, L, tree):
        sp = self.sp
        return lambda k, j: sp.adr(L, tree, spec.TREE, 0, k, self.z(j, 32))

    def up(self, tr):
        """tree and leaf of the next layer"""
        ps = self.ps
        w = ps.h - ps.mh
        return tm.cat((0, ps.mh), (tm.ext(tr, ps.mh, w - ps.mh), w - ps.mh)), tm.ext(tr, 0, ps.mh)

    def layer(self, objs, L, TR, LF, X, facts):
        ps, sp = self.ps, self.sp
        self.stage += 1
        ds, cs = sp.digits(X)
        tree, leaf = self.z(TR, 64), self.z(LF, 32)
        Lz = self.z(L, 8 * self.F['hypertree_level'][1]) if 'hypertree_level' in self.F else L
        for i in range(ps.wots):
            d = ds[i] if i < 2 * self.n else tm.ext(cs, 4 * (2 - (i - 2 * self.n)), 4)
            chain = self.chainspec(L, tree, leaf, i)

            def want(f):
                v = f.simplify(d)
                if type(v) is not int:
                    lo, hi = f.bound(v)
                    if lo != hi:
                        return self.uf.ap('CHAIN', (i, v), 8 * self.n)
                    v = lo
                return chain[v]
            w = self.uf.ap('CHAIN', (self.stage, i), 8 * self.n)
            outs = self.word(objs, facts, 'wots', 'one-time signature element %s' % (i if i < 2 * self.n else 'of checksum digit %d' % (i - 2 * self.n)),
                             want, lambda f: {want(f): w})
            objs = self.one(outs, 'one-time signature element %d' % i)

        def leafv(j):
            j = self.z(j, 32)
            return sp.wleaf(Lz, tree, j) if self.leafkey is not None else sp.wleaf_def(L, tree, j)

        node = self.tnode(L, tree)
        self.cur = leafv(LF)
        for h in range(ps.mh):
            outs = self.level(objs, facts, 'path', ps.mh, h, LF, leafv, node, 'LNODE', (self.stage,))
            if h < ps.mh - 1:
                objs = self.one(outs, 'hypertree path word')
        return outs

    def hypertree(self, objs, X0):
        ps = self.ps
        w = ps.h - ps.mh
        LF, TR, X = tm.var('LF', ps.mh), tm.var('TR', w), tm.var('X', 8 * self.n)
        Lv = tm.var('LAYER', 8)

        up = self.up
        outs = self.layer(objs, 0, self.TREE0, self.LEAF0, X0, ())
        s1 = self.one(outs, 'second layer')
        r0 = self.cur
        tr1, lf1 = up(self.TREE0)
        m0 = {X0: X, self.LEAF0: LF, self.TREE0: TR}
        m1 = {X: r0, LF: lf1, TR: tr1}
        tmpl, it = self.anti(objs, s1, m0, m1, Lv)
        for attempt in range(4):
            for what, s, m in (('first layer', objs, {X: X0, LF: self.LEAF0, TR: self.TREE0, Lv: 0}), ('second layer', s1, m1 | {Lv: 1})):
                x = self.match(tmpl, s, m | self.bind(tmpl, s), what)
                if x:
                    raise Limit('no description of the hypertree states found: ' + x)
            words = self.words
            outs = self.layer(tmpl, Lv, TR, LF, X, (known(Lv, ps.d),))
            a, b = self.group(outs, Lv, ps.d - 1, 'hypertree')
            more, last = self.one(a, 'next layer'), self.one(b, 'end')
            tr2, lf2 = up(TR)
            m = {X: self.cur, LF: lf2, TR: tr2, Lv: tm.add(8, Lv, 1)}
            x, n = 1, 0
            while x:
                x = self.match(tmpl, more, m | self.bind(tmpl, more), 'next layer')
                if x:
                    # weaken the description there
                    n += 1
                    o, i = self.miss
                    if o is None:
                        raise Limit('no description of the hypertree states found: ' + x)
                    tmpl = dict(tmpl)
                    tmpl[o] = list(tmpl[o])
                    tmpl[o][i] = None
            if not n:
                break
            self.words = words
        else:
            raise Limit('no description of the hypertree states found')
        self.words += (ps.d - 2) * (ps.wots + ps.mh)
        return last, (known(Lv, ps.d),)

    def prove(self, modes=('ok', 'fail', 'null')):
        ps = self.ps
        objs = self.begin(modes)
        # the randomiser is there from the start
        o, z = self.F['buffer']
        self.words = 1
        self.visited.append((self.cells(objs), ()))
        got = self.cells(objs)[o:o + self.n]
        R = split(self.R, self.n)
        self.rep.add(self.nm('randomiser', 'the signature starts with the randomiser'), self.fieldval(objs, 'buffer_offset') == 0 and
                     all(cellsame(a, b) for a, b in zip(got, R)), self.uf.show(catb([byteof(x) if x is not None else 0 for x in got])))
        s, pk = self.fors(objs)
        if 'fors' in self.parts:
            return
        last, facts = self.hypertree(s, pk)
        want = ps.sig // ps.n
        self.rep.add(self.nm('length', 'number of words is the advertised length'), self.words == want, '%d words, not %d' % (self.words, want))
        # the end
        self.visited.append((self.cells(last), facts))
        full = self.exhausted(last)
        st = self.cut.at(full, facts)
        st.facts.ivl[((1, MU),)] = (1, (1 << 32) - 1)
        for k, s in self.cut.run(st):
            ok = k == 'ret' and self.cut.written(s) == [] and same(s.facts, s.retval, DL32)
            self.rep.add(self.nm('length', 'nothing follows the last word'), ok, 'bytes are delivered or counted after the end')
            self.rep.add(self.nm('length', 'the end is final'), not self.differ(full, s.objs), 'context changes after the end: byte(s) %s' % self.differ(full, s.objs)[:4])

    def differ(self, a, b):
        """context bytes that differ"""
        x, y = self.cells(a), self.cells(b)
        return [i for i in range(len(x)) if not (x[i] is None or cellsame(x[i], y[i]))]

    # ------------------------------------------------------------ how bytes are handed out
    def fieldof(self, i):
        """cells of the context field byte i belongs to"""
        for f, (o, z) in self.F.items():
            if o <= i < o + z and z <= 8:
                return set(range(o, o + z))
        return {i}

    def opq(self, i):
        return tm.var('OPQ%d' % i, 8)

    def needed(self, s, extra=()):
        """context bytes the path depended on although they are unknown"""
        acc = set()
        f = s.facts
        for k in list(f.bools) + list(extra):
            if k.__class__ is T:
                atoms_of(k, acc)
        for k in list(f.dom) + list(f.single):
            b = k[0] if k[0].__class__ is T else None
            if b is not None:
                atoms_of(b, acc)
                acc.add(b)
        for k in f.ivl:
            for _, b in k:
                if b.__class__ is T:
                    atoms_of(b, acc)
                    acc.add(b)
        out = set()
        for b in acc:
            if b.k == 'var' and str(b.a[0]).startswith('OPQ'):
                out |= self.fieldof(int(b.a[0][3:]))
        return out

    def fixedcells(self):
        k = set(self.pre)
        for f in ('ps', 'public_key'):
            o, z = self.F[f]
            k |= set(range(o, o + z))
        return k

    def opaque(self, cells, keep, over):
        c = [cells[i] if i in keep else self.opq(i) for i in range(len(cells))]
        for i, v in over.items():
            c[i] = v
        return c

    def emission(self):
        """each word is handed out byte by byte whatever is asked for; nothing else changes"""
        n, cut = self.n, self.cut
        nm = lambda w: self.nm('emission', w)
        bo, bz = self.F['buffer']
        oo, oz = self.F['buffer_offset']
        BUF = [tm.var('BUF%d' % i, 8) for i in range(n)]
        keep = self.fixedcells()
        ctxo = cut.ctxp.obj
        for rounds in range(8):
            more = set()
            done = set()
            self.emitted = 0
            for cells, facts in self.visited:
                key = tuple(cells[i] if cells[i].__class__ is not tuple else (id(cells[i][0]),) + cells[i][1:] for i in sorted(keep))
                if key in done:
                    continue
                done.add(key)
                for o in range(n + 1):
                    over = {bo + i: BUF[i] for i in range(n)}
                    for i in range(oz):
                        over[oo + i] = (o >> (8 * i)) & 255
                    base = self.opaque(cells, keep, over)
                    objs = dict(self.cut.h0.objs)
                    objs = {k: objs[k] for k in self.base}
                    objs[ctxo] = base
                    for mu in ((0,) if o == n else (0, 1)):
                        try:
                            st = cut.at(objs, facts, DL, MU if mu else 0)
                            if mu:
                                st.facts.ivl[((1, MU),)] = (1, (1 << 32) - 1)
                            ends = cut.run(st)
                        except Fail as e:
                            nd = self.needed(e.st) if e.st is not None else set()
                            nd -= keep
                            if nd:
                                more |= nd
                                break
                            if e.kind == 'init' or not self.blamed(e):
                                raise
                            raise Limit('emission from an unknown context: %s' % e)
                        for k, s in ends:
                            nd = self.needed(s, [s.retval] if k == 'ret' else []) - keep
                            if nd:
                                more |= nd
                                continue
                            self.emitted += 1
                            w = cut.written(s)
                            if not self.rep.add(nm('bytes are written at the caller\'s place only, in order'), w is not None, 'offset %d' % o):
                                continue
                            r = len(w)
                            self.rep.add(nm('at least one byte, at most the rest of the word'), (r >= 1 or not mu) and o + r <= n, '%d bytes from offset %d' % (r, o))
                            self.rep.add(nm('bytes are those of the word'), all(same(s.facts, a, b) for a, b in zip(w, BUF[o:o + r])), 'offset %d' % o)
                            c = s.objs[ctxo]
                            ch = [i for i in range(len(c)) if not cellsame(c[i], base[i]) and not oo <= i < oo + oz]
                            self.rep.add(nm('nothing but the place in the word changes'), not ch, 'context byte(s) %s change' % ch[:4])
                            self.rep.add(nm('the place in the word advances by the bytes delivered'), same(s.facts, mc.ldcells(s, c, oo, oz), o + r), 'from %d by %d to %s' % (
                                o, r, mc.ldcells(s, c, oo, oz)))
                            if k == 'head':
                                x = cut.consistent(s, r)
                                self.rep.add(nm('request and place advance by the bytes delivered'), x is None, x)
                            else:
                                m = s.facts.simplify(MU) if mu else 0
                                self.rep.add(nm('the call returns the number of bytes delivered'), same(s.facts, s.retval, tm.add(32, DL32, r)), 'returns %s' % tm.show(s.retval))
                                self.rep.add(nm('the call goes on until the request is satisfied'), same(s.facts, m, r), 'stops with %s left after %d' % (tm.show(m), r))
                    if more:
                        break
                if more:
                    break
            if not more:
                return
            keep |= more
        raise Limit('emission depends on too much of the context')

    def blamed(self, e):
        return True

    def entry(self):
        """a call enters the loop with nothing delivered and the context unchanged"""
        n, cut, m = self.n, self.cut, self.m
        nm = lambda w: self.nm('entry', w)
        oo, oz = self.F['buffer_offset']
        keep = self.fixedcells()
        ctxo = cut.ctxp.obj
        M = cut.M
        offs = None
        for rounds in range(8):
            more = set()
            done = set()
            for vi, (cells, facts) in enumerate(self.visited):
                final = vi == len(self.visited) - 1
                for o in (range(n + 1) if offs else (None,)):
                    over = {} if o is None else {oo + i: (o >> (8 * i)) & 255 for i in range(oz)}
                    key = (final, o) + tuple(cells[i] if cells[i].__class__ is not tuple else (id(cells[i][0]),) + cells[i][1:] for i in sorted(keep))
                    if key in done:
                        continue
                    done.add(key)
                    base = self.opaque(cells, keep, over)
                    st = cut.h0.fork()
                    st.frames = []
                    st.objs = {k: v for k, v in cut.h0.objs.items() if k in self.base}
                    st.objs[ctxo] = base
                    st.own = set()
                    st.user = {}
                    st.facts = type(st.facts)()
                    for f in facts:
                        f(st.facts)
                    self.m.meta[cut.bufobj].length = tm.zext(M, 32, 64)
                    st.objs[cut.bufobj] = {} if cut.kind == 'out' else None
                    m.start(st, cut.key, [mc.Ptr(cut.bufobj, 0, *cut.bufrange), M, cut.ctxp])
                    for k, s in cut.run(st):
                        nd = self.needed(s, [s.retval] if k == 'ret' else []) - keep
                        if o is None and nd & set(range(oo, oo + oz)):
                            offs = True
                            more.add(-1)
                            nd -= set(range(oo, oo + oz))
                        elif o is not None:
                            nd -= set(range(oo, oo + oz))
                        if nd or more:
                            more |= nd
                            continue
                        c = s.objs[ctxo]
                        ch = [i for i in range(len(c)) if not cellsame(c[i], base[i])]
                        self.rep.add(nm('nothing changes and nothing is written before the loop'), not ch and not s.objs.get(cut.bufobj), 'context byte(s) %s' % ch[:4])
                        if k == 'head':
                            bad = None
                            fr = s.frames[-1]
                            for reg, a, cf in zip(cut.live, cut.x0, cut.form):
                                want = cut.genreg(reg, a, cf, 0, M)
                                if cf is not None and not cut.sameval(s.facts, cut.renamed(s, fr.R[reg]), want):
                                    bad = '%s instead of %s' % (fr.R[reg], want)
                            if bad:
                                raise Limit('a later call enters the loop otherwise: ' + bad)
                            self.rep.add(nm('a call starts with nothing delivered'), True)
                        else:
                            z = s.facts.simplify(M)
                            ok = self.entryret(s, final, o)
                            self.rep.add(nm('a call refuses only an empty request or a finished signature'), ok, 'returns %s with %s asked for' % (tm.show(s.retval), tm.show(z)))
            if not more:
                return
            keep |= {i for i in more if i >= 0}
        raise Limit('entry depends on too much of the context')

    def entryret(self, s, final, o):
        z = s.facts.simplify(self.cut.M)
        return same(s.facts, s.retval, 0) and (z == 0 or final and o == self.n)
