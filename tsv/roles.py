"""L2: the hash roles of a parameter set (PRF, F, T, PRF_msg, H_msg), reached through the function pointers of
its ts_parameter_set object and proved against spec.py with only the block functions as contracts.

Each role starts from a context in which only the parameter set, the public key pointer, the address and
what compute_prehash left behind are readable, so it cannot depend on anything else; afterwards only the
output, the role's own iterator and small_iter may have changed."""
from . import term as tm
from .term import T
from . import machine as mc
from .machine import Ptr, Fn, Fail
from .facts import Limit, lin
from . import hspec, autocut, prog, spec, smt
from . import hashproof as hp
from .report import Report
from .streams import cells_match, cellval, divide, S, BIGL

MLEN = 49


def need_msg(ps):
    """bytes of H_msg the set needs"""
    return (ps.k * ps.t + 7) // 8 + (ps.h - ps.mh + 7) // 8 + (ps.mh + 7) // 8


def bytevars(name, n):
    v = tm.var(name, 8 * n)
    return [tm.ext(v, 8 * (n - 1 - i), 8) for i in range(n)]


class Ctx(object):
    """a generic context for a parameter set"""

    def __init__(self, m, ps, generic=False):
        self.m = m
        self.ps = ps
        self.generic = generic     # only n, the family and the functions of the parameter set are readable
        n = ps.n
        self.F = prog.members(m.mods, 'ts_context')
        self.size = prog.sizeof(m.mods, 'ts_context')
        for f in ('ps', 'public_key', 'adr', 'small_iter', 'big_iter'):
            if not self.F or f not in self.F:
                raise Limit('struct ts_context has no member %s' % f)
        self.P = prog.members(m.mods, 'ts_parameter_set')
        self.skseed, self.skprf = bytevars('SKSEED', n), bytevars('SKPRF', n)
        self.seed, self.root = bytevars('PKSEED', n), bytevars('PKROOT', n)
        self.key = self.skseed + self.skprf + self.seed + self.root
        self.al = spec.ADRLEN[ps.sha2]

    def psfield(self, st, name):
        p = self.m.globptr(st, self.pskey())
        o, s = self.P[name]
        return mc.ldcells(st, st.objs[p.obj], o, s)

    def pskey(self):
        r = self.m.gdefs
        if self.ps.obj not in r:
            raise Limit('parameter set %s is not defined' % self.ps.obj)
        return self.ps.obj

    def put(self, st, p, v, size):
        mc.sto(st, p, v, size, 1)

    def fieldptr(self, ctx, name):
        o, s = self.F[name]
        return Ptr(ctx.obj, o, o, o + s)

    def fresh(self, role='f'):
        """(state, ctx pointer) after the prehash.  Only the parts of the key the role may use are readable:
        the public seed, with the secret seed for PRF, the root for H_msg, everything for PRF_msg"""
        m = self.m
        n = self.ps.n
        st = mc.St(m)
        ctx = st.new('ctx', self.size)
        no = [None] * n
        key = {'prf': self.skseed + no + self.seed + no, 'prf_msg': self.key, 'hash_msg': self.seed + self.root}.get(role, self.seed + no)
        self.keyp = st.new('key', len(key), 'ro', init=self.seed + no)
        self.keyp = Ptr(self.keyp.obj, len(key) - 2 * n, 0, len(key))
        st.objs[self.keyp.obj] = [None] * (len(key) - 2 * n) + self.seed + no
        m.meta[self.keyp.obj].size = len(key)
        self.basics(st, ctx)
        pre = self.psfield(st, 'compute_prehash')
        if pre.__class__ is Fn:
            out = []
            m.start(st, pre.name, [ctx])
            m.explore(st, out.append)
            if len(out) != 1:
                raise Limit('compute_prehash branches')
            st = out[0]
            self.blank(st, ctx, 'small_iter')
            self.blank(st, ctx, 'big_iter')
            self.basics(st, ctx)
        st.objs[self.keyp.obj] = key
        self.prehash = list(st.objs[ctx.obj])
        return st, ctx

    def basics(self, st, ctx):
        m, n = self.m, self.ps.n
        psp = m.globptr(st, self.pskey())
        if self.generic:
            cells = list(st.objs[psp.obj])
            for f, (o, z) in self.P.items():
                if f in ('k', 't', 'h', 'd', 'merkle_h'):
                    cells[o:o + z] = [None] * z
            psp = st.new('parameters', len(cells), init=cells)
            m.meta[psp.obj].kind = 'ro'
        self.put(st, self.fieldptr(ctx, 'ps'), psp, 8)
        self.put(st, self.fieldptr(ctx, 'public_key'), self.keyp, 8)

    def blank(self, st, ctx, field):
        o, s = self.F[field]
        st.cells(ctx.obj)[o:o + s] = [None] * s

    def setadr(self, st, ctx, bs):
        o, s = self.F['adr']
        if s < len(bs):
            raise Limit('adr holds %d bytes only' % s)
        st.cells(ctx.obj)[o:o + s] = list(bs) + [None] * (s - len(bs))


class RoleProof(object):
    cut = None

    def __init__(self, cfg, ps, generic=False, m=None, H=None):
        self.cfg, self.ps = cfg, ps
        self.m = m or prog.machine(cfg)
        algs = (('SHA256',) if ps.n == 16 else ('SHA256', 'SHA512')) if ps.sha2 else ('SHAKE',)
        self.H = H or hp.Hashes(self.m, algs)
        self.rep = Report()
        for a in algs:
            if self.H.kernels[a] is None:
                raise Limit('no function of the program computes the specified block function of %s' % a)
        self.c = Ctx(self.m, ps, generic)
        self.spec = spec.Roles(ps, self.c.seed, self.c.root, self.c.skseed, self.c.skprf)
        self.tag = '%s n=%d' % ('SHA-2' if ps.sha2 else 'SHAKE256', ps.n)

    def call(self, st, role, args):
        f = self.c.psfield(st, role)
        if f.__class__ is not Fn:
            raise Fail('spec', None, 'parameter set %s has no %s function' % (self.ps.obj, role))
        def run(s):
            out = []
            self.m.start(s, f.name, args)
            self.m.explore(s, out.append)
            return out
        try:
            out = self.cut.attempt(lambda: run(st.fork())) if self.cut else run(st)
        except Fail as e:
            if e.st is not None and e.st.user.get('gen'):
                raise Limit('after generalising a loop: %s' % e)
            raise
        if not out:
            raise Limit('%s: no path returns' % role)
        return out

    def one(self, st, role, args):
        o = self.call(st, role, args)
        if len(o) != 1:
            raise Limit('%s branches' % role)
        return o[0]

    def same(self, st, got, want):
        f = st.facts
        memo = {}
        bad = []
        for i, (x, y) in enumerate(zip(got, want)):
            if x is y:
                continue
            x, y = f.simplify(x, memo), f.simplify(y, memo)
            if not (x is y or type(x) is int and type(y) is int and x == y):
                bad.append((i, (x, y)))
        if bad:
            bad, self.cex = smt.alldiffer(f, bad)
        return bad

    def frame(self, st, ctx, before, allowed, what):
        """ctx bytes changed outside the allowed members"""
        c = st.objs[ctx.obj]
        ok = set()
        for f in allowed:
            o, s = self.c.F[f]
            ok |= set(range(o, o + s))
        bad = [i for i in range(len(c)) if i not in ok and c[i] is not before[i] and c[i] != before[i]]
        self.rep.add('%s %s: changes nothing but its output and scratch' % (self.tag, what), not bad, 'context byte(s) %s changed' % bad[:6])

    # ------------------------------------------------------------ PRF and F
    def prf(self):
        c = self.c
        st, ctx = c.fresh('prf')
        a = bytevars('ADR', c.al)
        c.setadr(st, ctx, a)
        out = st.new('out', self.ps.n)
        before = list(st.objs[ctx.obj])
        for e in self.call(st, 'prf', [out, ctx]):
            bad = self.same(e, mc.getbytes(e, out, self.ps.n), self.spec.prf(a))
            self.rep.add('%s PRF equals the definition' % self.tag, not bad, 'output byte(s) %s' % bad[:4])
            self.frame(e, ctx, before, ['small_iter'], 'PRF')

    def f(self, inplace):
        c = self.c
        n = self.ps.n
        st, ctx = c.fresh()
        a = bytevars('ADR', c.al)
        x = bytevars('X', n)
        c.setadr(st, ctx, a)
        inp = st.new('in', n, init=x)
        out = inp if inplace else st.new('out', n)
        before = list(st.objs[ctx.obj])
        for e in self.call(st, 'f', [out, inp, ctx]):
            bad = self.same(e, mc.getbytes(e, out, n), self.spec.f(a, x))
            self.rep.add('%s F equals the definition%s' % (self.tag, ' when written in place' if inplace else ''), not bad, 'output byte(s) %s' % bad[:4])
            if not inplace:
                self.rep.add('%s F: leaves its input alone' % self.tag, mc.getbytes(e, inp, n) == x, 'input changed')
            self.frame(e, ctx, before, ['small_iter'], 'F')

    # ------------------------------------------------------------ T
    def t(self, field):
        """every number of inputs the scheme uses, through the iterator `field`"""
        c = self.c
        n = self.ps.n
        st, ctx = c.fresh()
        a = bytevars('ADR', c.al)
        c.setadr(st, ctx, a)
        t = c.fieldptr(ctx, field)
        before = list(st.objs[ctx.obj])
        st = self.one(st, 'init_t', [t, ctx])
        self.frame(st, ctx, before, [field, 'small_iter'], 'T init')
        top = max(self.ps.k, self.ps.wots)
        xs = []
        other = 'small_iter' if field != 'small_iter' else None
        for j in range(1, top + 1):
            # the address may change after init; other scratch is not kept
            c.setadr(st, ctx, [])
            if other:
                c.blank(st, ctx, other)
            x = bytevars('X%d' % j, n)
            xs.append(x)
            inp = st.new('in', n, 'ro', init=x)
            before = list(st.objs[ctx.obj])
            st = self.one(st, 'next_t', [t, inp, ctx])
            self.frame(st, ctx, before, [field, 'small_iter'], 'T next')
            s2 = st.fork()
            if j < 1:
                continue
            out = s2.new('out', n)
            before = list(s2.objs[ctx.obj])
            for e in self.call(s2, 'final_t', [out, t, ctx]):
                bad = self.same(e, mc.getbytes(e, out, n), self.spec.t(a, xs))
                self.rep.add('%s T equals the definition for 1..%d inputs' % (self.tag, top), not bad, '%d inputs: output byte(s) %s' % (j, bad[:4]))
                self.frame(e, ctx, before, [field, 'small_iter'], 'T final')

    # ------------------------------------------------------------ messages of any length
    def msg(self, which, outlen, L=None):
        c = self.c
        n = self.ps.n
        st, ctx = c.fresh(which)
        x = bytevars('OPT' if which == 'prf_msg' else 'R', n)
        inp = st.new('opt', n, 'ro', init=x)
        out = st.new('out', outlen)
        if L is None:
            L = tm.var('L', 64)
            st.facts.ivl[((1, L),)] = (0, BIGL)
            cut = self.cut = autocut.Cutter(self.m)
            for key in list(self.m.fdefs):
                if self.m.contracts.get(key) is None:
                    cut.attach(key)
        src = st.stream('msg', 'in', S, L)
        before = list(st.objs[ctx.obj])
        args = [out] + ([outlen] if which == 'hash_msg' else [])
        args = (args + [inp, src, L, ctx])
        try:
            ends = self.call(st, which, args)
        finally:
            self.m.watch = {}
            self.cut = None
        what = 'PRF_msg' if which == 'prf_msg' else 'H_msg'
        seen = set()
        for e in ends:
            def inner(alg, prefix, nout=None):
                """digest of prefix || message, for this path's message length"""
                tot = e.facts.simplify(tm.add(64, L, len(prefix)))
                d = divide(tot, alg.block)
                if d is None:
                    tot = e.facts.conc(tot)
                    d = divide(tot, alg.block)
                q, r = d
                seen.add((type(q) is int and q, r))
                return digest(alg, prefix, q, r, tot, nout)
            want = self.spec.prfmsg(x, inner) if which == 'prf_msg' else self.spec.hmsg(x, inner, outlen)
            bad = self.same(e, mc.getbytes(e, out, outlen), want)
            self.rep.add('%s %s equals the definition for every message length' % (self.tag, what), not bad, 'output byte(s) %s' % bad[:4])
            self.frame(e, ctx, before, ['small_iter'], what)
        return seen

    def messages(self, which, outlen):
        try:
            return self.msg(which, outlen)
        except Limit as e:
            # bounded stand-in: lengths up to two blocks, contents symbolic
            alg = self.spec.big if self.ps.sha2 else hspec.SHAKE
            top = 2 * alg.block + 3
            for L in range(top):
                self.msg(which, outlen, L)
            self.rep.bounded.append('%s %s: message lengths 0..%d only (%s)' % (self.tag, which, top - 1, e))
            self.rep.limit('%s %s for every message length' % (self.tag, which), 'only lengths up to %d decided: %s' % (top - 1, e))

    def fin(self):
        for nm, ok, msg in self.H.log:
            self.rep.add(nm, ok, msg)
        self.H.log = []
        self.rep.stats(self.m)
        return self.rep


def digest(alg, prefix, q, r, total, nout):
    """alg(prefix || stream bytes), total = q*block + r bytes"""
    blk = alg.block
    p = len(prefix)
    whole = p // blk
    sha = alg is not hspec.SHAKE

    def C(h, b):
        return alg.C(h, b) if sha else alg.P(alg.xorbytes(h, 0, b))
    h = list(alg.IV) if sha else [0] * 25
    for i in range(whole):
        h = C(h, prefix[i * blk:(i + 1) * blk])
    rest = prefix[whole * blk:]

    def sb(i):
        return S(i)
    if type(q) is int and q <= whole:
        # the message ends in the block the prefix ends in
        tail = rest + [sb(i) for i in range(r - len(rest))]
    else:
        first = 0
        if rest:
            first = blk - len(rest)
            h = C(h, rest + [sb(i) for i in range(first)])
            qq = tm.sub(64, q, whole + 1)
        else:
            qq = tm.sub(64, q, whole)
        h = hspec.fold(alg, h, 'S', first, qq)
        base = tm.add(64, tm.mulc(64, qq, blk), first)
        tail = [sb(tm.add(64, base, i)) for i in range(r)]
    if sha:
        return alg.finish(h, tail, total, nout or alg.w)
    return alg.squeeze(alg.xorbytes(h, 0, tail), len(tail), nout)


FNS = ('prf_msg', 'hash_msg', 'prf', 'f', 'init_t', 'next_t', 'final_t', 'compute_prehash')


def run(p, which):
    ps = p.ps
    if which == 'prf':
        p.prf()
    elif which == 'f':
        p.f(False)
        p.f(True)
    elif which == 't':
        p.t('small_iter')
        p.t('big_iter')
    elif which in ('prf_msg', 'hash_msg'):
        p.messages(which, ps.n if which == 'prf_msg' else MLEN)


def task(cfgname, names, roles):
    """the given roles of parameter sets with the same n and family"""
    cfg = prog.CONFIGS[cfgname]
    sets = [prog.BYNAME[x] for x in names]
    p = RoleProof(cfg, sets[0], True)
    try:
        # one proof for all the sets whose functions are the same ones
        st = mc.St(p.m)
        want = [p.c.psfield(st, f) for f in FNS]
        for q in sets[1:]:
            c = Ctx(p.m, q)
            got = [c.psfield(st, f) for f in FNS]
            if got != want:
                raise Limit('different functions')
        for w in roles:
            run(p, w)
        for q in sets[1:]:
            p.rep.add('%s uses the same role functions as %s' % (q.name, sets[0].name), True)
        return p.fin()
    except (Fail, Limit) as e:
        pass
    if not p.rep.fails:
        rep = Report()
        for q in sets:
            p = RoleProof(cfg, q)
            for w in roles:
                try:
                    run(p, w)
                except Fail as e:
                    p.rep.fail('%s %s' % (p.tag, w), str(e))
                except Limit as e:
                    p.rep.limit('%s %s' % (p.tag, w), str(e))
            rep.merge(p.fin())
        return rep
    return p.fin()


def tasks(cfgname, roles):
    """role tasks for every parameter set of a configuration"""
    by = {}
    for q in prog.CONFIGS[cfgname].sets():
        by.setdefault((q.sha2, q.n), []).append(q.name)
    return [('roles.task', (cfgname, tuple(v), (r,))) for k, v in sorted(by.items()) for r in roles]
