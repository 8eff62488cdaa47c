"""Verification: the specified computation over the signature words, for every way of cutting the signature."""
from . import term as tm
from .term import T
from . import machine as mc
from .machine import Ptr, Fn, Fail
from .facts import Limit
from . import prog, spec, roles
from .scheme import Cut, place, split, catb, same, DL, MU, DL32, MLEN, atoms_of
from .sign import Sign, known, pieces, cellsame, byteof
from .streams import S, BIGL


class Verify(Sign):
    def __init__(self, cfg, ps, m=None):
        from .sign import Flow
        Flow.__init__(self, cfg, ps, 'verify', m)
        self.L = tm.var('L', 64)
        self.words = 0
        self.suspect = None
        self.cur = None
        self.W = None
        self.shift = 0
        self.ends = []

    def nm(self, kind, what):
        return '%s verification/%s: %s' % (self.tag, kind, what)

    # ------------------------------------------------------------ the signature
    def sigbyte(self, i):
        """byte i of the piece: byte shift + i - DL of the current word"""
        j = tm.sub(64, place(None, i), DL) if i.__class__ is T or i else None
        if j.__class__ is not int:
            if self.W is None:
                return tm.app('sig', (i,), 8)
            raise Limit('signature byte %s is read' % tm.show(i))
        j += self.shift
        if not 0 <= j < self.n:
            raise Limit('signature byte %d of the current word is read' % j)
        return tm.ext(self.W, 8 * (self.n - 1 - j), 8)

    def newword(self):
        self.W = self.fresh('W', 8 * self.n)
        return self.W

    # ------------------------------------------------------------ ts_init_verify
    def init(self, modes=()):
        st = mc.St(self.m)
        ctx = st.new('ctx', self.c.size)
        self.anything(st, ctx)
        self.newkey(st)
        self.psp = self.m.globptr(st, self.c.pskey())
        st.facts.ivl[((1, self.L),)] = (0, BIGL)
        self.msg = st.stream('message', 'in', S, self.L)
        ends = self.explore(st, 'ts_init_verify', [ctx, self.msg, self.L, self.psp, self.pub])
        if len(ends) != 1:
            raise Limit('ts_init_verify branches')
        e = ends[0]
        e.facts = type(e.facts)()
        e.user = {}
        return e, ctx

    def begin(self, modes=()):
        st, ctx = self.init()
        self.cut = cut = Cut(self, 'ts_update_verify', 'in')
        self.leafkey = None
        cut.learn(st, ctx)
        self.base = [k for k in cut.h0.objs if k != cut.bufobj]
        return {k: cut.h0.objs[k] for k in self.base}

    # ------------------------------------------------------------ one word
    def step(self, objs, facts, W):
        cut = self.cut
        self.W = W
        st = cut.at(self.setfield(objs, 'buffer_offset', 0), facts)
        st.facts.ivl[((1, MU),)] = (self.n, (1 << 32) - 1)
        try:
            return cut.run(st)
        except Fail as e:
            if self.poisoned and e.kind in ('init', 'precondition'):
                if self.suspect:
                    self.rep.fail(self.nm(self.suspect[0], self.suspect[1]), '%s (then: %s)' % (self.suspect[2], e))
                raise Limit('merged state: %s' % e)
            raise

    def cases(self, objs, facts, d):
        """a memory for each value of the 4-bit term d; the bytes holding it are replaced by the value"""
        d8 = tm.zext(d, 4, 8)
        where = [(o, i) for o, c in objs.items() if c.__class__ is list and self.m.meta[o].kind == 'mem'
                 for i, x in enumerate(c) if byteof(x) is d8]
        out = []
        for v in range(16):
            new = dict(objs)
            for o, i in where:
                if new[o] is objs[o]:
                    new[o] = list(new[o])
                new[o][i] = v
            out.append((v, new, tuple(facts) + ((lambda f, v=v: f.assume(tm.eq(4, d, v), 1)),)))
        return out, where

    def splitstep(self, objs, facts, d):
        if d is None:
            return self.step(objs, facts, self.W)
        out = []
        cs, where = self.cases(objs, facts, d)
        for v, o, f in cs:
            for k, s in self.step(o, f, self.W):
                s.user['digit'] = v
                for ob, i in where:
                    if s.objs[ob][i] == v:
                        s.cells(ob)[i] = objs[ob][i]
                out.append((k, s))
        return out

    def word(self, objs, facts, kind, what, want, names=None, digit=None):
        """process the next word; want(facts, held) lists values that have to be kept, names as in signing"""
        cut = self.cut
        self.visited.append((self.cells(objs), tuple(facts)))
        self.words += 1
        outs = []
        for k, s in self.splitstep(objs, facts, digit):
            if k == 'ret':
                self.ends.append(s)
                outs.append((s, None))
                continue
            x = cut.consistent(s, self.n)
            self.rep.add(self.nm('join', 'request and place advance by the bytes taken'), x is None, x)
            off = self.fieldval(s.objs, 'buffer_offset')
            self.rep.add(self.nm('join', 'the next word starts at its first byte'), same(s.facts, off, 0), 'offset %s' % tm.show(off))
            arg = s.facts if digit is None else s.user['digit']
            nm = names(arg) if names else {}
            if want is not None:
                w = want(arg)
                held = self.held(s)
                ok = any(v in held for v in w)
                if not ok and not self.suspect:
                    self.suspect = kind, what, 'no such value is kept: ' + ' or '.join(self.uf.show(v) for v in w)
            outs.append((s, nm))
        return outs

    def one(self, outs, what):
        if not outs:
            raise Limit('%s: no way on' % what)
        if any(nm is None for _, nm in outs):
            self.rep.fail(self.nm('length', 'a word more is expected'), 'verification ends before: ' + what)
            raise Limit('verification ends before: ' + what)
        return self.merge(outs)

    # ------------------------------------------------------------ trees
    def climb(self, leaf, t, h, node, cur, W):
        """node above `cur` when that is a left or a right child"""
        nadr = self.above(leaf, t, h, node)
        return self.sp.Tl(nadr, cur, W), self.sp.Tl(nadr, W, cur)

    def chainend(self, L, tree, leaf, i, W, v):
        """end of chain i from element W of digit v"""
        sp = self.sp
        x = W
        for j in range(v, 15):
            x = sp.F(sp.adr(L, tree, spec.WOTS, leaf, i, j), x)
        return x

    def level(self, objs, facts, kind, t, h, leaf, leafv, node, rename, pre):
        sp = self.sp
        W = self.newword()
        cur = self.cur
        l, r = self.climb(leaf, t, h, node, cur, W)
        nv = self.uf.ap(rename, pre + (h + 1,), 8 * self.n)

        def root(facts):
            b = facts.simplify(tm.ext(leaf, h, 1))
            if type(b) is not int:
                return (l, r)
            return (r,) if b else (l,)
        outs = self.word(objs, facts, kind, 'node of height %d over the path' % (h + 1), root, lambda f: {x: nv for x in root(f)})
        self.rootof = root
        self.cur = nv
        return outs

    def fbind(self, i):
        leaf, _ = self.fleafv(i)
        return {self.LEAF: self.IDX[i], self.A: leaf(self.IDX[i], self.S[i]), self.B: self.S[i], self.I: i}

    def fleafv(self, I):
        node = self.fnode(I)
        return (lambda j, w: self.sp.F(node(0, j), w)), None

    def fleaf(self, I):
        # shape used by the shared code: value from the index of tree 0
        lv, _ = self.fleafv(I)
        return (lambda j: lv(j, self.S[I] if I.__class__ is int else self.B)), (lambda j: self.S[I] if I.__class__ is int else self.B)

    def secret(self, objs, i):
        W = self.newword()
        self.S[i] = W
        lv, _ = self.fleafv(i)
        v = lv(self.IDX[i], W)
        return self.one(self.word(objs, (), 'secret', 'leaf of FORS tree %d' % i, lambda f: (v,)), 'FORS tree %d' % i)

    def layer(self, objs, L, TR, LF, X, facts):
        ps, sp = self.ps, self.sp
        self.stage += 1
        ds, cs = sp.digits(X)
        tree, leaf = self.z(TR, 64), self.z(LF, 32)
        ce = []
        for i in range(ps.wots):
            d = ds[i] if i < 2 * self.n else tm.ext(cs, 4 * (2 - (i - 2 * self.n)), 4)
            W = self.newword()
            chains = {}
            for v in range(16):
                chains[v] = self.chainend(L, tree, leaf, i, W, v)

            def want(v):
                return (chains[v],)
            w = self.uf.ap('CHAIN', (self.stage, i), 8 * self.n)
            lastw = i == ps.wots - 1
            padr = sp.adr(L, tree, spec.WOTSPK, leaf, 0, 0)

            def names(f):
                v = want(f)[0]
                m = {v: w}
                if lastw:
                    m[sp.Tl(padr, *(ce + [v]))] = self.uf.ap('VLEAF', (self.stage,), 8 * self.n)
                return m
            outs = self.word(objs, facts, 'wots', 'end of chain %d' % i, (lambda f: (sp.Tl(padr, *(ce + [want(f)[0]])),)) if lastw else want, names, d)
            ce.append(w)
            objs = self.one(outs, 'chain %d' % i)
        self.cur = self.uf.ap('VLEAF', (self.stage,), 8 * self.n)

        node = self.tnode(L, tree)
        for h in range(ps.mh):
            self.ends = []
            cur = self.cur
            outs = self.level(objs, facts, 'path', ps.mh, h, LF, None, node, 'LNODE', (self.stage,))
            if h < ps.mh - 1:
                objs = self.one(outs, 'hypertree path word')
        # ends of the verification: only in the last layer
        self.final = (objs, [s for s, nm in outs if nm is None], self.rootof)
        return [(s, nm) for s, nm in outs if nm is not None]

    def group(self, outs, var, last, what):
        if what == 'FORS':
            return Sign.group(self, outs, var, last, what)
        rep = self.rep
        objs, ends, root = self.final
        for s, nm in outs:
            d = s.facts.dom.get((var, 0, var.w))
            ok = d is not None and not d >> last & 1
            rep.add(self.nm('length', 'no word follows the last'), ok, 'verification goes on after the last word')
        n = self.n
        good, bad = [], []
        want = self.c.root
        for s in self.decided(ends):
            d = s.facts.dom.get((var, 0, var.w))
            v = s.facts.simplify(var)
            if not (v == last or d is not None and d == 1 << last):
                rep.fail(self.nm('length', 'verification ends with the last word only'), 'it may end earlier')
                continue
            r = split(root(s.facts)[0], n)
            eqs = [tm.eq(8, a, b) for a, b in zip(r, want)]
            mu = tm.eq(32, MU, n)
            rv = s.facts.simplify(s.retval)
            if type(rv) is not int:
                raise Limit('verdict %s' % tm.show(rv))
            claim = mu
            for q in eqs:
                claim = tm.and_(1, claim, q)
            if len(root(s.facts)) != 1:
                raise Limit('order of the last node')
            if 'split' in s.user:
                from . import smt
                for q in ([mu] + eqs) if rv else [tm.not_(1, claim)]:
                    if not s.facts.prove(q) and smt.prove(s.facts, q)[0] is None:
                        raise Limit('verdict: not decided whether %s' % tm.show(q))
            if rv:
                rep.add(self.nm('verdict', 'success only if the root is that of the public key and nothing follows'),
                        all(s.facts.prove(q) for q in [mu] + eqs), self.blame('accepted although the root may differ or bytes follow'))
                good.append(s)
            else:
                rep.add(self.nm('verdict', 'failure only if the root differs or bytes follow'),
                        s.facts.decide(mu) == 0 or 'split' in s.user and s.facts.prove(tm.not_(1, claim)) or
                        any(s.facts.decide(q) == 0 for q in eqs) or s.facts.prove(tm.not_(1, claim)),
                        self.blame('rejected although the root may agree'))
                bad.append(s)
        rep.add(self.nm('verdict', 'a valid signature can be accepted'), len(good) >= 1, 'no path accepts')
        self.good, self.bad = good, bad
        # the other kind of end states are handled in prove
        return outs, [(s, {}) for s in good]

    def decided(self, ends):
        """end states in which the value returned depends on data: one for each way it can come out"""
        for s in ends:
            rv = s.facts.simplify(s.retval)
            if rv.__class__ is int:
                yield s
                continue
            p = tm.not_(1, tm.ext(rv, 0, 1)) if tm.ext(rv, 1, 31) == 0 else tm.eq(32, rv, 0)
            for v in (0, 1):
                t = s.fork()
                if t.facts.assume(p, v) is False:
                    continue
                c, par = t.facts.split(p)
                one = v ^ par

                def put(x):
                    return tm.rebuild(s.facts.simplify(x), lambda b, lo, w: one if b is c else None, {})
                t.retval = put(rv)
                t.user['split'] = True
                o = self.cut.ctxp.obj
                cells = t.cells(o)
                memo = {}
                for i, x in enumerate(cells):
                    w = x[0] if x.__class__ is tuple else x
                    if w.__class__ is T:
                        r = memo.get(w)
                        if r is None:
                            r = memo[w] = put(w)
                        if r is not w:
                            cells[i] = r if x.__class__ is not tuple else r >> 8 * x[1] & 255 if r.__class__ is int else (r,) + x[1:]
                yield t

    def blame(self, msg):
        if self.suspect:
            return '%s: %s (%s)' % (msg, self.suspect[1], self.suspect[2])
        return msg

    # ------------------------------------------------------------ everything
    def prove(self, modes=()):
        ps, n = self.ps, self.n
        self.S = {}
        self.W = None
        objs = self.begin()
        W = self.newword()
        HM = self.uf.ap('HMSG', (W,), 8 * MLEN)
        s = self.one(self.word(objs, (), 'position', 'message hash', None), 'message hash')
        catv, self.IDX, self.TREE0, self.LEAF0 = pieces(ps, MLEN)
        s = self.reobjs(s, {HM: catv})
        s, pk = self.fors(s)
        if 'fors' in self.parts:
            return
        last, facts = self.hypertree(s, pk)
        want = ps.sig // n
        self.rep.add(self.nm('length', 'number of words is the advertised length'), self.words == want, '%d words, not %d' % (self.words, want))
        self.after(facts)
        if 'calls' in self.parts:
            self.emission()
            self.entry()

    def hypertree(self, objs, X0):
        last, facts = Sign.hypertree(self, objs, X0)
        self.succ = last
        return last, facts

    # ------------------------------------------------------------ after the last word
    def after(self, facts):
        cut = self.cut
        rep = self.rep
        W = self.newword()
        for k, s in self.step(self.succ, facts, W):
            if k == 'ret':
                rep.add(self.nm('verdict', 'a further word is refused'), s.facts.simplify(s.retval) == 0, 'returns %s' % tm.show(s.retval))
                self.bad.append(s)
            else:
                rep.fail(self.nm('verdict', 'a further word is refused'), 'verification goes on')
        nsucc = len(self.visited)
        self.visited.append((self.cells(self.succ), facts))
        # the verdict is negative before the end ...
        for i, (cells, f) in enumerate(self.visited):
            cells = list(cells)
        self.verdicts([(c, f, 0) for c, f in self.visited[:nsucc]] + [(self.cells(self.succ), facts, 1)])
        # ... and after a failure, whatever follows
        fails = []
        seen = set()
        for s in self.bad:
            fails.append((self.cells(s.objs), (), 0))
        keep = self.fixedcells()
        self.verdicts(fails, fixed=True)
        self.refuse([c for c, _, _ in fails])

    def callopq(self, fn, args, cells, facts, keep, over, ctxp, bufargs=None):
        """run a whole call on a context of which only `keep` is known; (ends, context bytes needed)"""
        base = self.opaque(cells, keep, over)
        st = self.cut.h0.fork()
        st.frames = []
        st.objs = {k: v for k, v in self.cut.h0.objs.items() if k in self.base}
        st.objs[ctxp.obj] = base
        st.own = set()
        st.user = {}
        st.facts = type(st.facts)()
        for f in facts:
            f(st.facts)
        if bufargs:
            bufargs(st)
        ends = self.explore(st, fn, args)
        need = set()
        for s in ends:
            need |= self.needed(s, [s.retval]) - keep
        return ends, need, base

    def verdicts(self, cases, fixed=False):
        """ts_verify on each context at every place within a word: 1 only if the case says so and no byte is pending"""
        keep = self.fixedcells()
        oo, oz = self.F['buffer_offset']
        n, ctxp = self.n, self.cut.ctxp
        seen = set()
        i = 0
        while i < len(cases):
            cells, facts, good = cases[i]
            key = (good,) + tuple(cells[j] if cells[j].__class__ is not tuple else (id(cells[j][0]),) + cells[j][1:] for j in sorted(keep))
            if key in seen:
                i += 1
                continue
            again = False
            res = []
            for o in ((None,) if fixed else range(n)):
                over = {} if o is None else {oo + q: (o >> (8 * q)) & 255 for q in range(oz)}
                k2 = keep | set(range(oo, oo + oz))
                ends, need, base = self.callopq('ts_verify', [ctxp], cells, facts, k2, over, ctxp)
                if need:
                    keep |= need
                    again = True
                    break
                for s in ends:
                    v = s.facts.simplify(s.retval)
                    want = 1 if good and o == 0 else 0
                    res.append((v, want, o))
            if again:
                seen = set()
                continue
            seen.add(key)
            i += 1
            for v, want, o in res:
                if want:
                    self.rep.add(self.nm('verdict', 'the verdict is positive after success'), v.__class__ is int and v != 0, 'is %s' % tm.show(v))
                elif good:
                    self.rep.add(self.nm('verdict', 'the verdict is negative after trailing bytes'), v.__class__ is int and v == 0, 'is %s after %d more byte(s)' % (tm.show(v), o))
                elif fixed:
                    self.rep.add(self.nm('verdict', 'the verdict is negative after a failure'), v.__class__ is int and v == 0, 'is %s' % tm.show(v))
                else:
                    self.rep.add(self.nm('verdict', 'the verdict is negative before the end'), v.__class__ is int and v == 0, 'is %s' % tm.show(v))

    def refuse(self, contexts):
        """a failed context takes nothing more"""
        keep = self.fixedcells()
        so, sz = self.F['state']
        keep |= set(range(so, so + sz))
        oo, oz = self.F['buffer_offset']
        cut = self.cut
        M = cut.M
        i = 0
        seen = set()
        while i < len(contexts):
            cells = contexts[i]
            key = tuple(cells[j] if cells[j].__class__ is not tuple else (id(cells[j][0]),) + cells[j][1:] for j in sorted(keep))
            if key in seen:
                i += 1
                continue
            self.W = None

            def buf(st):
                self.m.meta[cut.bufobj].length = tm.zext(M, 32, 64)
                st.objs[cut.bufobj] = None
            try:
                ends, need, base = self.callopq(cut.fn, [mc.Ptr(cut.bufobj, 0, *cut.bufrange), M, cut.ctxp], cells, (), keep, {}, cut.ctxp, buf)
            except (Limit, Fail):
                # it goes on: look at the exact context
                need = {j for j in range(len(cells)) if cells[j] is not None} - keep
                if not need:
                    raise
            if need:
                keep |= need
                seen = set()
                continue
            seen.add(key)
            i += 1
            for s in ends:
                c = s.objs[cut.ctxp.obj]
                ch = [j for j in range(len(c)) if not cellsame(c[j], base[j])]
                self.rep.add(self.nm('verdict', 'a failed context is left alone and returns 0'), same(s.facts, s.retval, 0) and not ch,
                             'returns %s, context byte(s) %s change' % (tm.show(s.retval), ch[:4]))

    # ------------------------------------------------------------ pieces
    def mentions(self, x):
        for b in (atoms_of(x, set()) | {x}) if x.__class__ is T else ():
            if b.__class__ is T and b.k == 'var' and str(b.a[0]).startswith('OPQ'):
                return True
        return False

    def partial(self, cells, facts, keep, p):
        """from offset p with any number of bytes: (returns, stops before anything depends on the rest of the context)"""
        n, cut, m = self.n, self.cut, self.m
        bo, bz = self.F['buffer']
        oo, oz = self.F['buffer_offset']
        over = {bo + i: tm.ext(self.W, 8 * (n - 1 - i), 8) for i in range(p)}
        for i in range(p, n):
            over[bo + i] = self.opq(bo + i)
        for i in range(oz):
            over[oo + i] = (p >> (8 * i)) & 255
        base = self.opaque(cells, keep, over)
        objs = {k: v for k, v in cut.h0.objs.items() if k in self.base}
        objs[cut.ctxp.obj] = base
        st = cut.at(objs, facts)
        self.shift = p
        st.facts.ivl[((1, MU),)] = (0, (1 << 32) - 1)
        stops = []

        def hook(kind, s, what):
            if kind == 'call':
                stops.append((kind, s, what))
                return True
            if kind == 'split':
                u = what[0]
                x = u[1] if u[0] in ('cond',) else (u[0] if u[0].__class__ is T else None)
                if x is None or self.mentions(x):
                    stops.append((kind, s, what))
                    return True
                return False
            if self.mentions(what[0]):
                stops.append((kind, s, what))
                return True
            return False
        m.hook = hook
        try:
            ends = cut.run(st)
        finally:
            m.hook = None
            self.shift = 0
        return base, ends, stops

    def emission(self):
        n, cut = self.n, self.cut
        nm = lambda w: self.nm('join', w)
        bo, bz = self.F['buffer']
        oo, oz = self.F['buffer_offset']
        keep = self.fixedcells()
        ctxo = cut.ctxp.obj
        self.newword()
        WB = split(self.W, n)
        done = set()
        self.joined = 0
        for cells, facts in self.visited:
            key = tuple(cells[i] if cells[i].__class__ is not tuple else (id(cells[i][0]),) + cells[i][1:] for i in sorted(keep))
            if key in done:
                continue
            done.add(key)
            ref = None
            for p in range(n):
                base, ends, stops = self.partial(cells, facts, keep, p)
                for k, s in ends:
                    self.joined += 1
                    if k != 'ret':
                        raise Limit('a word is handled without looking at the context')
                    mu = s.facts.simplify(MU)
                    if mu.__class__ is not int:
                        lo, hi = s.facts.bound(mu)
                        if not self.rep.add(nm('a call ends only when its bytes are used up'), hi < n - p, '%d..%d bytes left at offset %d' % (lo, hi, p)):
                            continue
                        raise Limit('partial word of unknown length')
                    self.rep.add(nm('a call ends only when its bytes are used up'), p + mu < n, '%d bytes at offset %d' % (mu, p))
                    rv = s.facts.simplify(s.retval)
                    self.rep.add(nm('an incomplete word is no error'), rv.__class__ is int and rv != 0, 'returns %s' % tm.show(rv))
                    c = s.objs[ctxo]
                    self.rep.add(nm('the place in the word advances by the bytes taken'), same(s.facts, mc.ldcells(s, c, oo, oz), p + mu), 'from %d by %d to %s' % (p, mu, tm.show(mc.ldcells(s, c, oo, oz))))
                    self.rep.add(nm('bytes taken are kept in order'), all(cellsame(c[bo + i], WB[i]) for i in range(min(n, p + mu))), '%d bytes at offset %d' % (mu, p))
                    ch = [i for i in range(len(c)) if not cellsame(c[i], base[i]) and not oo <= i < oo + oz and not bo + p <= i < bo + n]
                    self.rep.add(nm('nothing else changes'), not ch, 'context byte(s) %s' % ch[:4])
                if p == 0:
                    ref = stops
                else:
                    self.joincheck(p, ref, stops)

    def joincheck(self, p, ref, stops):
        nm = self.nm('join', 'a word completed from several pieces is handled like one in one piece')
        if len(ref) != len(stops):
            raise Limit('join: %d and %d ways on' % (len(ref), len(stops)))
        sub = {DL: tm.sub(64, DL, p), MU: tm.add(32, MU, p)}
        for (k1, s1, w1), (k2, s2, w2) in zip(ref, stops):
            bad = None
            if k1 != k2 or len(s1.frames) != len(s2.frames):
                bad = 'different control'
            else:
                for f1, f2 in zip(s1.frames, s2.frames):
                    if f1.cf is not f2.cf or f1.pc != f2.pc:
                        bad = 'different control'
                        break
                    for r in f1.cf.liveat(f1.pc):
                        a, b = f1.R[r], f2.R[r]
                        if not self.samesub(s2.facts, a, b, sub):
                            bad = 'value %s instead of %s' % (b, a)
                if bad is None:
                    for o, c in s1.objs.items():
                        if o == self.cut.bufobj:
                            continue
                        d = s2.objs.get(o)
                        if c is d or c.__class__ is not list or self.m.meta[o].kind != 'mem':
                            continue
                        if d is None:
                            bad = 'memory'
                            break
                        for i in range(len(c)):
                            x = self.substcell(c[i], sub, {})
                            if not (x is None and d[i] is None) and not cellsame(x, d[i]):
                                bad = 'byte %d of %s' % (i, self.m.meta[o].name)
                                break
            lo, hi = s2.facts.bound(MU)
            if bad is None and lo < self.n - p:
                bad = 'goes on with %d bytes' % lo
            if bad is None or bad.startswith('byte') or bad.startswith('goes'):
                self.rep.add(nm, bad is None, 'piece border after %d bytes: %s' % (p, bad))
            else:
                raise Limit('join after %d bytes: %s' % (p, bad))

    def samesub(self, f, a, b, sub):
        if a.__class__ is Ptr:
            if b.__class__ is not Ptr or a.obj != b.obj:
                return False
            x = tm.subst_vars(a.off, sub) if a.off.__class__ is T else a.off
            return x is b.off or same(f, x if x.__class__ is T else x & (1 << 64) - 1, b.off if b.off.__class__ is T else b.off & (1 << 64) - 1)
        if a.__class__ is T:
            x = tm.subst_vars(a, sub)
            return same(f, x, b) if b.__class__ in (int, T) else False
        return a is b or a == b

    def entryret(self, s, final, o):
        z = s.facts.simplify(self.cut.M)
        rv = s.facts.simplify(s.retval)
        return z == 0 and rv.__class__ is int and rv != 0
