"""L1: the incremental hash interfaces, for messages of any length cut into any pieces.

The states a context can be in form a family A_r(q): q whole blocks and r bytes of the message stream S
have been taken in.  A_r(q) is what one update from the initial state leaves; then
  base   init gives A_0(0), and one update of any length gives A_r(q) for that length,
  step   from every A_r(q), with q arbitrary, an update of any length gives the A_r'(q') it should,
  end    from every A_r(q), finalising gives the digest of the 64q+r (128q+r, 136q+r) bytes.
Bytes of the context on which two histories disagree are made unreadable in A_r (and then may not be read).
For SHAKE256 the squeezing side is the same with a family B_j(q): 136q+j bytes delivered."""
from . import term as tm
from .term import T
from . import machine as mc
from .machine import Ptr, Fail
from .facts import Limit, lin
from . import hspec, autocut, prog, smt
from . import hashproof as hp
from .report import Report

BIGL = 1 << 60
UNSURE = -1        # among the context bytes to forget: some were given up without knowing that they differ


class Api(object):
    def __init__(self, alg, ctx, init, update, final=None, trunc=None, save=None, restore=None, finalize=None, squeeze=None):
        self.alg = alg
        self.ctx = ctx
        self.init, self.update, self.final, self.trunc = init, update, final, trunc
        self.save, self.restore, self.finalize, self.squeeze = save, restore, finalize, squeeze


APIS = {
    'SHA256': Api(hspec.SHA256, 'SHA256_CTX', 'ts_SHA256_init', 'ts_SHA256_update', 'ts_SHA256_final', 'ts_SHA256_final_trunc',
                  'ts_SHA256_save_state', 'ts_SHA256_restore_state_after_64'),
    'SHA512': Api(hspec.SHA512, 'SHA512_CTX', 'ts_SHA512_init', 'ts_SHA512_update', 'ts_SHA512_final', 'ts_SHA512_final_trunc',
                  'ts_SHA512_save_state', 'ts_SHA512_restore_state_after_128'),
    'SHAKE': Api(hspec.SHAKE, 'SHAKE256_CTX', 'ts_shake256_inc_init', 'ts_shake256_inc_absorb',
                 finalize='ts_shake256_inc_finalize', squeeze='ts_shake256_inc_squeeze'),
}


def S(i):
    return hspec.streambyte('S', i)


def signed(c):
    return c - (1 << 64) if c >> 63 else c


def divide(total, blk):
    """total = blk * q + r over the integers, r a constant; (q term, r) or None"""
    if type(total) is int:
        s = signed(total)
        return s // blk & tm.mask(64), s % blk
    c, key = lin(total)
    c = signed(c)
    r = c % blk
    q = ((c - r) // blk) & tm.mask(64)
    for co, x in key:
        co = signed(co)
        if co % blk:
            return None
        q = tm.add(64, q, tm.mulc(64, x, (co // blk) & tm.mask(64)))
    return q, r


class Family(object):
    """canonical states: r -> (cells, q variable)"""

    def __init__(self):
        self.q = tm.var('q', 64)
        self.cells = {}
        self.cache = {}
        self.memo = {}

    def at(self, r, qt):
        k = (r, qt)
        out = self.cache.get(k)
        if out is None:
            out = self.cache[k] = tm_cells(self.cells[r], {self.q: qt}, self.memo.setdefault(qt, {}))
        return out


def tm_cells(cells, sub, memo, pre=None):
    """substitution in a list of memory cells"""
    out = []
    last = res = None
    for c in cells:
        if c.__class__ is tuple:
            v = c[0]
            if v.__class__ is T:
                if v is not last:
                    last = v
                    res = tm.subst_vars(pre(v) if pre else v, sub, memo)
                c = (res, c[1], c[2])
        elif c.__class__ is T:
            c = tm.subst_vars(pre(c) if pre else c, sub, memo)
        out.append(c)
    return out


def cellval(c):
    if c.__class__ is tuple:
        v, i, n = c
        return tm.ext(v, 8 * i, 8) if v.__class__ in (int, T) else c
    return c


def cells_match(f, want, have):
    """indices where a wanted cell is not provably there"""
    bad = []
    i = 0
    n = len(want)
    while i < n:
        x, y = want[i], have[i]
        if x is None or x is y:
            i += 1
            continue
        if x.__class__ is tuple and y.__class__ is tuple and x[1:] == y[1:]:
            if autocut.eqv(f, x[0], y[0]):
                k = i
                while k < n and want[k].__class__ is tuple and have[k].__class__ is tuple and want[k][0] is x[0] and have[k][0] is y[0]                         and want[k][1:] == have[k][1:]:
                    k += 1
                i = k
                continue
            bad.append(i)
            i += 1
            continue
        x, y = cellval(x), cellval(y)
        if y is None or not autocut.eqv(f, x, y):
            bad.append(i)
        i += 1
    return bad


def setghost(st, p, v):
    st.cells(p.obj)[:] = [(v, i, 8) for i in range(8)]


class Stream(object):
    def __init__(self, m, H, name, havoc=()):
        self.m = m
        self.H = H
        self.name = name
        self.api = APIS[name]
        self.alg = self.api.alg
        self.blk = self.alg.block
        self.size = prog.sizeof(m.mods, self.api.ctx)
        if not self.size:
            raise Limit('context type %s not found' % self.api.ctx)
        self.rep = Report(name)
        self.unsure = UNSURE in havoc
        self.havoc = set(havoc) - {UNSURE}
        self.newhavoc = set()
        self.cut = autocut.Cutter(m)
        for key in list(m.fdefs):
            if m.contracts.get(key) is None:
                self.cut.attach(key)
        self.fam = Family()
        self.initcells = None

    def run(self, st, fn, args):
        try:
            return self.cut.attempt(lambda: self.run1(st.fork(), fn, args))
        except Fail as e:
            if e.st is not None and e.st.user.get('gen'):
                # a generalised state may include states that do not occur
                raise Limit('after generalising a loop: %s' % e)
            raise

    def run1(self, st, fn, args):
        out = []
        self.cut.count = 0       # fresh counters may be reused: nothing survives a run but its result
        self.m.start(st, fn, args)
        self.m.explore(st, out.append)
        for e in out:
            e.retval = None
        if not out:
            raise Limit('%s: no path returns' % fn)
        return out

    def src(self, st, base, L):
        p = st.stream('msg', 'in', S, L, base)
        return p

    def fresh(self, cells=None):
        st = mc.St(self.m)
        ctx = st.new('ctx', self.size, init=cells)
        return st, ctx

    def spec_start(self):
        return list(self.alg.IV) if self.alg is not hspec.SHAKE else [0] * 25

    # ------------------------------------------------------------ base
    def classify(self, e, total):
        t = e.facts.simplify(total)
        d = divide(t, self.blk)
        if d is None:
            t = e.facts.conc(t)       # may raise
            d = divide(t, self.blk)
        return d

    def base(self):
        st, ctx = self.fresh()
        o = self.run(st, self.api.init, [ctx])
        if len(o) != 1:
            raise Limit('%s branches' % self.api.init)
        self.initcells = list(o[0].objs[ctx.obj])
        ends = self.update(self.initcells, 0)
        fam = self.fam
        # canonical states: the ends with a symbolic number of blocks
        for e, cells in ends:
            qt, r = self.classify(e, self.L)
            if type(qt) is int:
                continue
            c, key = lin(qt)
            if len(key) != 1 or key[0][0] != 1 or r in fam.cells:
                continue
            back = {key[0][1]: tm.sub(64, fam.q, c)}
            can = tm_cells(cells, back, {}, e.facts.simplify)
            for i in self.havoc:
                can[i] = None
            fam.cells[r] = can
        miss = [r for r in range(self.blk) if r not in fam.cells]
        if miss:
            raise Limit('%s: no general state found for %d buffered byte(s)' % (self.name, miss[0]))
        for e, cells in [(o[0], self.initcells)] + ends:
            total = self.L if e is not o[0] else 0
            self.member(e, cells, total, 'update from the initial state')

    def member(self, e, cells, total, what):
        qt, r = self.classify(e, total)
        want = self.fam.at(r, qt)
        bad = self.settle(e.facts, cells_match(e.facts, want, cells), want, cells)
        self.rep.add('%s %s: gives the state for the bytes taken in' % (self.name, what), not bad, 'context byte(s) %s depend on how the message was cut' % bad[:8])

    def settled(self, f, want, have):
        bad = cells_match(f, want, have)
        if not bad:
            return bad
        ps = [(i, (cellval(want[i]), cellval(have[i]))) for i in bad]
        if any(x.__class__ not in (int, T) or y.__class__ not in (int, T) for _, (x, y) in ps):
            return bad
        return smt.alldiffer(f, ps)[0]

    def settle(self, f, bad, want, have):
        """cells that were not found equal: those that are not, or that may not be"""
        out = []
        for i in bad:
            if i not in self.newhavoc:
                x, y = cellval(want[i]), cellval(have[i])
                if x.__class__ in (int, T) and y.__class__ in (int, T):
                    v, _ = smt.differ(f, x, y, 2000)
                    if v == 'eq':
                        continue
                    if v == 'unknown':
                        self.newhavoc.add(UNSURE)
                self.newhavoc.add(i)
            out.append(i)
        return out

    def update(self, cells, base):
        """ends of an update of any length from the given state; [(state, ctx cells)]"""
        st, ctx = self.fresh(cells)
        self.L = tm.var('L', 64)
        st.facts.ivl[((1, self.L),)] = (0, BIGL)
        if type(base) is not int:
            st.facts.ivl[((1, self.fam.q),)] = (0, BIGL >> 8)
        src = self.src(st, base, self.L)
        return [(e, e.objs[ctx.obj]) for e in self.run(st, self.api.update, [ctx, src, self.L])]

    def step(self, r):
        base = tm.add(64, tm.mulc(64, self.fam.q, self.blk), r)
        what = 'update from %d buffered byte(s)' % r
        try:
            ends = self.update(self.fam.cells[r], base)
        except Fail as e:
            self.rep.fail('%s %s' % (self.name, what), str(e))
            return
        for e, cells in ends:
            self.member(e, cells, tm.add(64, base, self.L), 'update from any state')

    # ------------------------------------------------------------ SHA-2 ends
    def folded(self):
        return hspec.fold(self.alg, self.spec_start(), 'S', 0, self.fam.q)

    def final(self, r, which, nbytes):
        """finalising from A_r(q); which: 'final' or 'trunc'"""
        what = '%s %s' % (self.name, 'final' if which == 'final' else 'truncated final')
        q = self.fam.q
        st, ctx = self.fresh(self.fam.cells[r])
        st.facts.ivl[((1, q),)] = (0, BIGL >> 8)
        out = st.new('digest', nbytes)
        args = [out, ctx] + ([nbytes] if which == 'trunc' else [])
        base = tm.add(64, tm.mulc(64, q, self.blk), r)
        tail = [S(tm.add(64, tm.mulc(64, q, self.blk), i)) for i in range(r)]
        try:
            ends = self.run(st, self.api.final if which == 'final' else self.api.trunc, args)
            spec = self.alg.finish(self.folded(), tail, base, nbytes)
            for e in ends:
                got = mc.getbytes(e, out, nbytes)
                bad = [(i, (got[i], spec[i])) for i in range(nbytes) if not autocut.eqv(e.facts, got[i], spec[i])]
                if bad:
                    bad, _ = smt.alldiffer(e.facts, bad)
                self.rep.add(what + ': digest equals the specification', not bad, 'digest byte(s) %s after 64-bit count = %d (mod block), %d bytes asked' % (bad[:4], r, nbytes))
        except Fail as e:
            self.rep.fail(what, '%s (%d buffered bytes, %d asked)' % (e, r, nbytes))

    def midstate(self):
        """save after one block, restore into a context never used: gives A_0(1)"""
        cells = self.fam.at(0, 1)
        st, ctx = self.fresh(cells)
        nb = 8 * (self.alg.w // 8)
        sv = st.new('saved', nb)
        what = '%s saved chaining value' % self.name
        try:
            for e in self.run(st, self.api.save, [sv, ctx]):
                c2 = e.new('ctx2', self.size)
                for e2 in self.run(e, self.api.restore, [c2, sv]):
                    bad = self.settled(e2.facts, self.fam.at(0, 1), e2.objs[c2.obj])
                    self.rep.add(what + ': restored state equals the state after the first block', not bad, 'context byte(s) %s' % bad[:8])
        except Fail as e:
            self.rep.fail(what, str(e))

    # ------------------------------------------------------------ SHAKE squeezing
    def finalized(self, r):
        """state after finalize from A_r(q), and the lanes the specification has there"""
        q = self.fam.q
        st, ctx = self.fresh(self.fam.cells[r])
        st.facts.ivl[((1, q),)] = (0, BIGL >> 8)
        lanes = self.folded()
        tail = [S(tm.add(64, tm.mulc(64, q, self.blk), i)) for i in range(r)]
        lanes = self.alg.xorbytes(lanes, 0, tail)
        lanes = self.alg.xorbytes(lanes, r, [0x1f])
        lanes = self.alg.xorbytes(lanes, self.blk - 1, [0x80])
        ends = self.run(st, self.api.finalize, [ctx])
        if len(ends) != 1:
            raise Limit('finalize branches')
        return ends[0], ends[0].objs[ctx.obj], lanes

    def layout(self):
        """where the 25 lanes live and the other cells of a finalised context"""
        e, cells, lanes = self.finalized(0)
        self.F = [tm.var('F%d' % i, 64) for i in range(25)]
        for o in range(0, self.size - 199, 8):
            v = mc.ldcells(e, cells, o, 8)
            if v is mc.UNDEF or not autocut.eqv(e.facts, v, lanes[0]):
                continue
            if all(mc.ldcells(e, cells, o + 8 * i, 8) is not mc.UNDEF and autocut.eqv(e.facts, mc.ldcells(e, cells, o + 8 * i, 8), lanes[i]) for i in range(25)):
                self.loff = o
                t = list(cells)
                for i in range(25):
                    for b in range(8):
                        t[o + 8 * i + b] = (self.F[i], b, 8)
                self.template = t
                return
        raise Limit('lanes of the finalised state not found in the context')

    def finalize(self, r):
        what = 'SHAKE finalize: pads the %s' % 'absorbed bytes'
        try:
            e, cells, lanes = self.finalized(r)
        except Fail as x:
            self.rep.fail(what, str(x))
            return
        want = list(self.template)
        for i in range(25):
            for b in range(8):
                want[self.loff + 8 * i + b] = (lanes[i], b, 8)
        bad = self.settled(e.facts, want, cells)
        self.rep.add(what, not bad, 'context byte(s) %s after %d absorbed bytes (mod rate)' % (bad[:8], r))

    def outspec(self, pos):
        """specified output byte at position pos (a term 136*q + c)"""
        d = divide(pos, self.blk)
        if d is None:
            return None
        qt, j = d
        lanes = self.alg.iter(tm.add(64, qt, 1))
        return tm.ext(lanes[j // 8], 8 * (j % 8), 8)

    def squeeze(self, cells, base, q=None):
        st, ctx = self.fresh(cells)
        self.L = tm.var('L', 64)
        st.facts.ivl[((1, self.L),)] = (0, BIGL)
        if q is not None:
            st.facts.ivl[((1, q),)] = (0, BIGL >> 8)
        ghost = st.new('ghost', 8)
        setghost(st, ghost, 0)
        rep = self.rep

        def wr(s, off, v):
            gc = s.objs[ghost.obj]
            cur = mc.ldcells(s, gc, 0, 8)
            if not autocut.eqv(s.facts, cur, off):
                raise Limit('output written out of order')
            pos = s.facts.simplify(tm.add(64, base, off))
            want = self.outspec(pos)
            if want is None:
                raise Limit('output position %s' % tm.show(pos))
            if not autocut.eqv(s.facts, v, want) and smt.alldiffer(s.facts, [(0, (v, want))])[0]:
                raise Fail('spec', None, 'squeezed byte %s differs from the specification' % tm.show(pos))
            setghost(s, ghost, tm.add(64, cur, 1))
            rep.add('SHAKE squeeze: every delivered byte is the specified one', True)
        out = st.stream('out', 'out', wr, self.L)
        r = []
        for e in self.run(st, self.api.squeeze, [out, self.L, ctx]):
            n = mc.ldcells(e, e.objs[ghost.obj], 0, 8)
            self.rep.add('SHAKE squeeze: exactly the requested bytes are written', autocut.eqv(e.facts, n, self.L), 'not all requested bytes were written')
            r.append((e, e.objs[ctx.obj]))
        return r

    def sqbase(self):
        self.fam2 = fam = Family()
        self.fam, keep = fam, self.fam
        hspec.Keccak.iterstart = self.F
        try:
            ends = self.squeeze(self.template, 0)
            for e, cells in ends:
                qt, r = self.classify(e, self.L)
                if type(qt) is int:
                    continue
                c, key = lin(qt)
                if len(key) != 1 or key[0][0] != 1 or r in fam.cells:
                    continue
                back = {key[0][1]: tm.sub(64, fam.q, c)}
                can = tm_cells(cells, back, {}, e.facts.simplify)
                for i in self.havoc:
                    can[i] = None
                fam.cells[r] = can
            miss = [r for r in range(self.blk) if r not in fam.cells]
            if miss:
                raise Limit('squeeze: no general state found for position %d' % miss[0])
            for e, cells in ends:
                self.member(e, cells, self.L, 'squeeze from the finalised state')
            # nothing squeezed yet
            st = mc.St(self.m)
            bad = self.settle(st.facts, cells_match(st.facts, fam.at(0, 0), self.template), fam.at(0, 0), self.template)
            self.rep.add('SHAKE squeeze: the finalised state is the state with nothing delivered', not bad, str(bad))
        finally:
            self.fam = keep

    def sqstep(self, j):
        self.fam, keep = self.fam2, self.fam
        try:
            base = tm.add(64, tm.mulc(64, self.fam.q, self.blk), j)
            ends = self.squeeze(self.fam.cells[j], base, self.fam.q)
            for e, cells in ends:
                self.member(e, cells, tm.add(64, base, self.L), 'squeeze from any state')
        except Fail as e:
            self.rep.fail('SHAKE squeeze from position %d' % j, str(e))
        finally:
            self.fam = keep


def prove_stream(cfg, name, part, nparts, havoc=()):
    """part of the proof; returns the report and the context bytes to forget"""
    m = prog.machine(cfg)
    H = hp.Hashes(m, (name,))
    rep = Report(name)
    if H.kernels[name] is None:
        rep.limit('%s block function' % name, 'no function of the program computes the specified block function')
        return rep, ()
    s = Stream(m, H, name, havoc)
    hspec.Keccak.iterstart = None
    mark = 0
    try:
        try:
            s.base()
        except Fail as e:
            s.rep.fail('%s update from the initial state' % name, str(e))
            raise Limit('base case failed')
        if part == 0 and name != 'SHAKE':
            s.midstate()
        dl = 8 * s.alg.w // 8 if name != 'SHAKE' else 0
        step = s.alg.w // 8 if name != 'SHAKE' else 0
        for r in range(part, s.blk, nparts):
            s.step(r)
            if name != 'SHAKE':
                s.final(r, 'final', dl)
                for n in range(0, dl + 1, step):
                    s.final(r, 'trunc', n)
        if name == 'SHAKE':
            s.layout()
            for r in range(part, s.blk, nparts):
                s.finalize(r)
            try:
                s.sqbase()
            except Fail as e:
                s.rep.fail('SHAKE squeeze from the finalised state', str(e))
                raise Limit('squeeze base case failed')
            hspec.Keccak.iterstart = s.F
            for r in range(part, s.blk, nparts):
                s.sqstep(r)
    except Limit as e:
        s.rep.limit('%s stream proof' % name, str(e))
    finally:
        hspec.Keccak.iterstart = None
    for nm, ok, msg in H.log:
        s.rep.add(nm, ok, msg)
    if s.unsure:
        s.rep.limits += s.rep.fails
        s.rep.fails = []
    s.rep.stats(m)
    return s.rep, tuple(sorted(s.newhavoc))


def task(cfg, name, part, nparts, havoc):
    return prove_stream(prog.CONFIGS[cfg], name, part, nparts, havoc)


def variant(cfg, name, base):
    """the proof made for configuration `base` carries over to cfg when every function behind the interface is
    the same code except the block function, which is proved again here.  extra: 'same' or 'full'"""
    import re
    rep = Report(name)
    api = APIS[name]
    fp = {}
    ms = {}
    for c in (base, cfg):
        mods = prog.modules(prog.CONFIGS[c])
        fp[c] = prog.fingerprints(mods)
        ms[c] = mc.Machine(mods)
    m = ms[cfg]
    H = hp.Hashes(m, (name,))
    k = H.kernels[name]
    if k is None:
        rep.limit('%s block function' % name, 'no function of the program computes the specified block function')
        return rep, 'failed'
    ok, msg, _ = H.proofs(k, None)
    for nm, o, g in H.log:
        rep.add(nm, o, g)
    rep.stats(m)
    if not ok:
        return rep, 'failed'
    kb = hp.Hashes(ms[base], (name,)).kernels[name]
    if kb is None or kb.key != k.key or kb.scratch or k.scratch or kb.sizes != k.sizes or kb.soff != k.soff:
        return rep, 'full'
    todo = [f for f in (api.init, api.update, api.final, api.trunc, api.save, api.restore, api.finalize, api.squeeze) if f]
    seen = set()
    n = 0
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        key = m.find(f)
        if key is None or key == k.key:
            continue
        if fp[base].get(key) != fp[cfg].get(key):
            return rep, 'full'
        n += 1
        fn = m.fdefs[key]
        body = repr([[i.a for i in ins] for _, ins in fn.blocks])
        todo += re.findall(r"\('g', '([^']*)'\)", body)
    rep.add('%s: interface functions are the same code in %s and %s, block function proved for both' % (name, base, cfg), True)
    return rep, 'same'
