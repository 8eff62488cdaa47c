"""L3/L4: key generation, signing and verification of a parameter set, over uninterpreted role functions.

The hash roles (proved in roles.py) are replaced by contracts: each call must be made with the context in
the state the role proof starts from (parameter set, public key pointer, prehash, address, iterator), and
returns the value of an uninterpreted function.  Everything else is the code of the working tree."""
import time
from . import term as tm
from .term import T
from . import machine as mc
from .machine import Ptr, Fn, Fail
from .facts import Limit
from . import prog, spec, roles
from .report import Report

MLEN = roles.MLEN


class Bad(Exception):
    """a property does not hold (obligation, explanation)"""


class UF(object):
    """values of uninterpreted functions, one variable per application"""

    def __init__(self):
        self.tab = {}
        self.defs = {}

    def ap(self, fn, args, w):
        k = (fn, args)
        r = self.tab.get(k)
        if r is None:
            r = self.tab[k] = tm.var('%s#%d' % (fn, len(self.tab)), w)
            self.defs[r] = (fn, args)
        return r

    def show(self, v, d=3):
        if type(v) is not T or v not in self.defs or d == 0:
            return tm.show(v)
        fn, args = self.defs[v]
        return '%s(%s)' % (fn, ', '.join(self.show(a, d - 1) for a in args))


def catb(bs):
    return tm.cat(*[(b, 8) for b in bs])


def split(v, n):
    """n bytes, most significant first"""
    if type(v) is int:
        return list(v.to_bytes(n, 'big'))
    return [tm.ext(v, 8 * (n - 1 - i), 8) for i in range(n)]


class Spec(object):
    """the SPHINCS+ definitions over the role functions"""

    def __init__(self, ps, uf):
        self.ps, self.n, self.uf = ps, ps.n, uf
        self.w = 8 * ps.n

    def adr(self, layer, tree, typ, kp, a, b):
        return catb(spec.adr(self.ps.sha2, layer, tree, typ, kp, a, b))

    def prf(self, adr):
        return self.uf.ap('PRF', (adr,), self.w)

    def F(self, adr, x):
        return self.uf.ap('F', (adr, x), self.w)

    def Tl(self, adr, *xs):
        return self.uf.ap('T', (adr,) + tuple(xs), self.w)

    def chain(self, layer, tree, leaf, i, x, s, e):
        for j in range(s, e):
            x = self.F(self.adr(layer, tree, spec.WOTS, leaf, i, j), x)
        return x

    def start(self, layer, tree, leaf, i):
        return self.prf(self.adr(layer, tree, spec.WOTSPRF, leaf, i, 0))

    def wleaf_def(self, layer, tree, leaf):
        xs = [self.chain(layer, tree, leaf, i, self.start(layer, tree, leaf, i), 0, 15) for i in range(self.ps.wots)]
        return self.Tl(self.adr(layer, tree, spec.WOTSPK, leaf, 0, 0), *xs)

    def wleaf(self, layer, tree, leaf):
        return self.uf.ap('WLEAF', (layer, tree, leaf), self.w)

    def digits(self, x):
        """base-16 digits and checksum of an n-byte value: 4-bit terms and three digits as 32-bit terms"""
        d = []
        for b in split(x, self.n):
            d += [tm.ext(b, 4, 4), tm.ext(b, 0, 4)]
        s = 0
        for v in d:
            s = tm.add(32, s, tm.sub(32, 15, tm.zext(v, 4, 32)))
        return d, s

    def forssecret(self, tree, kp, idx):
        return self.prf(self.adr(0, tree, spec.FORSPRF, kp, 0, idx))

    def forsleaf(self, tree, kp, idx):
        return self.F(self.adr(0, tree, spec.FORSTREE, kp, 0, idx), self.forssecret(tree, kp, idx))

    def subtree(self, h, leaf, node):
        """root of the height-h subtree with leaves leaf(0..2^h-1), interior nodes hashed under node(height, j)"""
        stack = []
        for i in range(1 << h):
            x = leaf(i)
            k, j = 0, i
            while j & 1:
                j >>= 1
                k += 1
                x = self.Tl(node(k, j), stack.pop(), x)
            stack.append(x)
        return stack[0]


class Env(object):
    """machine with role contracts for one parameter set of a configuration"""

    def __init__(self, cfg, ps, kind='sign', m=None):
        self.cfg, self.ps, self.kind = cfg, ps, kind
        self.n = ps.n
        self.m = m or prog.machine(cfg)
        self.rep = Report()
        self.uf = UF()
        self.sp = Spec(ps, self.uf)
        self.tag = ps.name
        # what compute_prehash leaves in the context (roles.py), before any contract is in place
        self.c = c = roles.Ctx(self.m, ps)
        st, ctx = c.fresh()
        self.key = None
        self.pre = []
        skip = set()
        for f in ('ps', 'public_key'):
            o, z = c.F[f]
            skip |= set(range(o, o + z))
        cells = st.objs[ctx.obj]
        self.pre = [i for i in range(c.size) if i not in skip and cells[i] is not None]
        self.prevars = {i: tm.var('PREHASH%d' % i, 8) for i in self.pre}
        self.isize = prog.sizeof(self.m.mods, 't_iterator') or c.F['big_iter'][1]
        st = mc.St(self.m)
        self.psp = self.m.globptr(st, c.pskey())
        self.nocheck = False
        self.msg = None
        self.install(st)
        self.F = c.F

    # ------------------------------------------------------------ contracts
    def install(self, st):
        c = self.c
        for r in ('prf', 'f', 'init_t', 'next_t', 'final_t', 'prf_msg', 'hash_msg', 'compute_prehash'):
            f = c.psfield(st, r)
            if f.__class__ is Fn:
                self.m.contracts[f.name] = getattr(self, 'k_' + r)
            elif r != 'compute_prehash':
                raise Fail('spec', None, 'parameter set %s has no %s function' % (self.ps.obj, r))

    def pre_fail(self, st, role, msg):
        raise Fail('precondition', None, '%s is called %s' % (role, msg), st)

    def ctx(self, st, p, role, adr=False):
        if p.__class__ is not Ptr or p.obj not in st.objs:
            self.pre_fail(st, role, 'with no context')
        me = st.m.meta[p.obj]
        if me.size != self.c.size or p.off != 0:
            raise Limit('%s: context pointer %r' % (role, p))
        cells = st.objs[p.obj]
        o, z = self.F['ps']
        if mc.ldcells(st, cells, o, z) != self.psp:
            self.pre_fail(st, role, 'on a context of another parameter set')
        o, z = self.F['public_key']
        k = mc.ldcells(st, cells, o, z)
        if k.__class__ is not Ptr or k != self.pub:
            self.pre_fail(st, role, 'with another public key pointer')
        if role != 'compute_prehash':
            for i in self.pre:
                if cells[i] is not self.prevars[i]:
                    self.pre_fail(st, role, 'before the prehash of the public seed was made')
        return p.obj

    def ctxregions(self, names):
        out = []
        for f in names:
            o, z = self.F[f]
            out.append((o, o + z))
        return out

    def clash(self, obj, p, n, names, what):
        """a role's output or input may not overlap these parts of the context"""
        if p.__class__ is not Ptr or p.hi is None or p.obj != obj:
            return
        off = p.off
        for a, b in self.ctxregions(names):
            if off < b and a < off + n:
                raise Limit('%s overlaps other parts of the context' % what)
        if any(off <= i < off + n for i in self.pre):
            raise Limit('%s overlaps the prehash' % what)

    def outp(self, st, obj, p, what):
        if p.__class__ is Ptr and p.off.__class__ is not int:
            raise Limit('%s at a symbolic place' % what)
        self.clash(obj, p, self.n, ('ps', 'public_key', 'adr', 'small_iter', 'big_iter'), what)

    def adr(self, st, obj):
        o, z = self.F['adr']
        return catb(mc.getbytes(st, Ptr(obj, o, o, o + z), self.c.al, 'hash address'))

    def scratch(self, st, obj, keep=None):
        """small_iter is scratch of every role"""
        o, z = self.F['small_iter']
        if keep is not None and keep.obj == obj and keep.off == o:
            return
        st.cells(obj)[o:o + z] = [None] * z

    def k_compute_prehash(self, st, a):
        obj = self.ctx(st, a[0], 'compute_prehash')
        c = st.cells(obj)
        for f in ('small_iter', 'big_iter'):
            o, z = self.F[f]
            c[o:o + z] = [None] * z
        for i in self.pre:
            c[i] = self.prevars[i]
        return None

    def value(self, st, p, what):
        return catb(mc.getbytes(st, p, self.n, what))

    def k_prf(self, st, a):
        out, ctx = a
        obj = self.ctx(st, ctx, 'PRF')
        if self.kind == 'verify':
            self.pre_fail(st, 'PRF', 'during verification')
        self.outp(st, obj, out, 'PRF output')
        v = self.uf.ap('PRF', (self.adr(st, obj),), 8 * self.n)
        self.scratch(st, obj)
        mc.putbytes(st, out, split(v, self.n))
        return None

    def k_f(self, st, a):
        out, inp, ctx = a
        obj = self.ctx(st, ctx, 'F')
        self.outp(st, obj, out, 'F output')
        self.clash(obj, inp, self.n, ('small_iter', 'big_iter'), 'F input')
        if out.obj == inp.obj and out.off != inp.off and abs(out.off - inp.off) < self.n:
            raise Limit('F input and output overlap in part')
        v = self.uf.ap('F', (self.adr(st, obj), self.value(st, inp, 'F input')), 8 * self.n)
        self.scratch(st, obj)
        mc.putbytes(st, out, split(v, self.n))
        return None

    def iterp(self, st, obj, t, role):
        if t.__class__ is not Ptr or t.off.__class__ is not int or t.hi is None:
            raise Limit('%s: iterator %r' % (role, t))
        if t.obj == obj and t.off not in (self.F['small_iter'][0], self.F['big_iter'][0]):
            raise Limit('%s: iterator inside the context' % role)
        return t

    def seti(self, st, t, v):
        cells = [None] * self.isize
        if v is not None:
            for i in range(8):
                cells[i] = (v, i, 8)
        mc.putcells(st, t, cells)

    def geti(self, st, t, role):
        cells = mc.getcells(st, t, self.isize)
        v = mc.ldcells(st, cells, 0, 8)
        if v.__class__ is not T or self.uf.defs.get(v, ('',))[0] not in ('TI', 'TN', 'TX'):
            self.pre_fail(st, role, 'on an iterator that is not in use')
        return v

    def k_init_t(self, st, a):
        t, ctx = a
        obj = self.ctx(st, ctx, 'T (init)')
        self.iterp(st, obj, t, 'T (init)')
        v = self.uf.ap('TI', (self.adr(st, obj),), 64)
        self.scratch(st, obj, t)
        self.seti(st, t, v)
        return None

    def k_next_t(self, st, a):
        t, inp, ctx = a
        obj = self.ctx(st, ctx, 'T (next)')
        self.iterp(st, obj, t, 'T (next)')
        self.clash(obj, inp, self.n, ('small_iter', 'big_iter'), 'T input')
        v = self.geti(st, t, 'T (next)')
        x = self.value(st, inp, 'T input')
        v = self.uf.ap('TN', (v, x), 64)
        self.scratch(st, obj, t)
        self.seti(st, t, v)
        return None

    def finalt(self, it):
        adr, xs = self.inputs(it)
        if adr is None:
            return self.uf.ap('TP', (it,), 8 * self.n)
        if not 1 <= len(xs) <= max(self.ps.k, self.ps.wots):
            raise Limit('T on %d inputs' % len(xs))
        return self.uf.ap('T', (adr,) + xs, 8 * self.n)

    def inputs(self, v):
        xs = []
        while True:
            fn, args = self.uf.defs[v]
            if fn == 'TX':
                return None, None
            if fn == 'TI':
                return args[0], tuple(reversed(xs))
            xs.append(args[1])
            v = args[0]

    def k_final_t(self, st, a):
        out, t, ctx = a
        obj = self.ctx(st, ctx, 'T (final)')
        self.iterp(st, obj, t, 'T (final)')
        self.outp(st, obj, out, 'T output')
        it = self.geti(st, t, 'T (final)')
        v = self.finalt(it)
        self.seti(st, t, None)
        self.scratch(st, obj)
        mc.putbytes(st, out, split(v, self.n))
        return None

    def message(self, st, role, p, L):
        if p.__class__ is not Ptr or self.msg is None or p.obj != self.msg.obj or p.off != 0 or L is not self.L:
            self.pre_fail(st, role, 'on something else than the message')
        if p.obj not in st.objs:
            self.pre_fail(st, role, 'on a message that need not exist any more')

    def k_prf_msg(self, st, a):
        out, opt, msg, L, ctx = a
        obj = self.ctx(st, ctx, 'PRF_msg')
        if self.kind == 'verify':
            self.pre_fail(st, 'PRF_msg', 'during verification')
        self.outp(st, obj, out, 'PRF_msg output')
        self.clash(obj, opt, self.n, ('small_iter', 'big_iter'), 'PRF_msg input')
        self.message(st, 'PRF_msg', msg, L)
        x = self.value(st, opt, 'optional randomness')
        v = self.uf.ap('PRFMSG', (x,), 8 * self.n)
        self.scratch(st, obj)
        mc.putbytes(st, out, split(v, self.n))
        return None

    def k_hash_msg(self, st, a):
        out, n, R, msg, L, ctx = a
        obj = self.ctx(st, ctx, 'H_msg')
        if n != MLEN:
            raise Limit('H_msg with %s bytes of output' % tm.show(n))
        self.clash(obj, out, n, ('ps', 'public_key', 'adr', 'small_iter', 'big_iter'), 'H_msg output')
        self.clash(obj, R, self.n, ('small_iter', 'big_iter'), 'H_msg input')
        if out.obj == R.obj and abs(out.off - R.off) < n + self.n:
            if out.off < R.off + self.n and R.off < out.off + n:
                raise Limit('H_msg input and output overlap')
        self.message(st, 'H_msg', msg, L)
        x = self.value(st, R, 'randomiser')
        v = self.uf.ap('HMSG', (x,), 8 * n)
        self.scratch(st, obj)
        mc.putbytes(st, out, split(v, n))
        return None

    # ------------------------------------------------------------ building blocks
    def cell(self, ctx, name):
        o, z = self.F[name]
        return Ptr(ctx.obj, o, o, o + z)

    def get(self, st, ctx, name):
        o, z = self.F[name]
        return mc.ldcells(st, st.objs[ctx.obj], o, z)

    def put(self, st, ctx, name, v):
        o, z = self.F[name]
        mc.sto(st, Ptr(ctx.obj, o, o, o + z), v, z, 1)

    def blank(self):
        """a context with only the parameter set, the key and the prehash"""
        st = mc.St(self.m)
        ctx = st.new('ctx', self.c.size)
        self.psp = self.m.globptr(st, self.c.pskey())
        self.newkey(st)
        self.put(st, ctx, 'ps', self.psp)
        self.put(st, ctx, 'public_key', self.pub)
        c = st.cells(ctx.obj)
        for i in self.pre:
            c[i] = self.prevars[i]
        return st, ctx

    def newkey(self, st):
        n = self.n
        if self.kind == 'verify':
            k = st.new('public key', 2 * n, 'ro', init=self.c.seed + self.c.root)
            self.pub = k
        else:
            k = st.new('private key', 4 * n, 'ro', init=self.c.key)
            self.pub = Ptr(k.obj, 2 * n, 0, 4 * n)
        self.keyobj = k
        return k

    def explore(self, st, key, args):
        """(ends, fails)"""
        out = []
        if key.__class__ is str:
            k = self.m.find(key)
            if k is None:
                raise Limit('no function %s' % key)
            key = k
        self.m.start(st, key, args)
        self.m.explore(st, out.append)
        return out

    # ------------------------------------------------------------ the leaf contract
    def find_leaf(self):
        """the function computing a hypertree leaf, proved for every layer, tree and leaf, becomes a contract"""
        self.leafkey = None
        keep = [getattr(self, x, None) for x in ('psp', 'pub', 'keyobj')]
        try:
            self.find_leaf_()
        finally:
            self.psp, self.pub, self.keyobj = keep

    def find_leaf_(self):
        for need in ('hypertree_level', 'tree_address'):
            if need not in self.F:
                return
        for key, f in sorted(self.m.fdefs.items(), key=lambda x: str(x[0])):
            if key in self.m.contracts:
                continue
            ty = [f.mod.types.res(t) for t, _ in f.params]
            if f.mod.types.res(f.ret)[0] not in ('v', 'void') or sorted(t[0] for t in ty) != ['i', 'p', 'p']:
                continue
            for order in ((0, 1), (1, 0)):
                try:
                    ch = self.prove_leaf(key, ty, order)
                except (Limit, Fail):
                    continue
                if ch is not None:
                    self.leafkey = key
                    self.leafchanges = ch
                    self.leaforder = (ty, order)
                    self.m.contracts[key] = self.k_leaf
                    self.rep.add('%s hypertree leaf: chains of full length hashed together, for every layer, tree and leaf' % self.tag, True)
                    return

    def leafargs(self, ty, order, args):
        ps = [a for a, t in zip(args, ty) if t[0] == 'p']
        i = [a for a, t in zip(args, ty) if t[0] == 'i'][0]
        return ps[order[0]], ps[order[1]], i

    def prove_leaf(self, key, ty, order):
        changed = set()
        for opaque in (0, 1):
            st, ctx = self.blank()
            c = st.cells(ctx.obj)
            if opaque:
                for i in range(len(c)):
                    if c[i] is None:
                        c[i] = tm.var('P%d' % i, 8)
            layer, tree, leaf = tm.var('LAYER', 8 * self.F['hypertree_level'][1]), tm.var('TREE', 8 * self.F['tree_address'][1]), tm.var('LEAF', 32)
            st.facts.ivl[((1, layer),)] = (0, self.ps.d - 1)
            st.facts.ivl[((1, leaf),)] = (0, (1 << self.ps.mh) - 1)
            self.put(st, ctx, 'hypertree_level', layer)
            self.put(st, ctx, 'tree_address', tree)
            before = list(st.objs[ctx.obj])
            out = st.new('out', self.n)
            pl = [out, ctx]
            ptrs = iter(pl if order == (0, 1) else pl[::-1])
            iw = [t[1] for t in ty if t[0] == 'i'][0]
            args = [next(ptrs) if t[0] == 'p' else (leaf if iw == 32 else tm.zext(leaf, 32, iw) if iw > 32 else tm.ext(leaf, 0, iw)) for t in ty]
            save = self.m.steps, self.m.maxsteps
            self.m.maxsteps = self.m.steps + 3000000
            try:
                ends = self.explore(st, key, args)
            finally:
                self.m.maxsteps = save[1]
            if len(ends) != 1:
                return None
            e = ends[0]
            o = e.objs[out.obj]
            if any(x is None for x in o):
                return None
            v = self.value(e, out, 'leaf')
            if v is not self.sp.wleaf_def(layer, tree, leaf):
                return None
            after = e.objs[ctx.obj]
            changed |= {i for i in range(len(after)) if after[i] is not before[i] and after[i] != before[i]}
        return changed

    def k_leaf(self, st, args):
        out, ctx, leaf = self.leafargs(*self.leaforder, args=args)
        try:
            obj = self.ctx(st, ctx, 'leaf')
        except Fail:
            return mc.INLINE
        cells = st.objs[obj]
        if out.__class__ is not Ptr or out.off.__class__ is not int or out.hi is None:
            return mc.INLINE
        if out.obj == obj:
            r = range(out.off, out.off + self.n)
            fixed = set(self.pre) | self.leafchanges
            for a, b in self.ctxregions(('ps', 'public_key', 'hypertree_level', 'tree_address')):
                fixed |= set(range(a, b))
            if any(i in fixed for i in r):
                return mc.INLINE
        layer, tree = self.get(st, ctx, 'hypertree_level'), self.get(st, ctx, 'tree_address')
        for v in (layer, tree, leaf):
            if v.__class__ not in (int, T):
                return mc.INLINE
        lw = leaf if leaf.__class__ is int else tm.zext(leaf, leaf.w, 32) if leaf.w < 32 else tm.ext(leaf, 0, 32)
        lo, hi = st.facts.bound(lw)
        if hi >= 1 << self.ps.mh or st.facts.bound(layer)[1] >= self.ps.d:
            return mc.INLINE
        c = st.cells(obj)
        for i in self.leafchanges:
            c[i] = None
        mc.putbytes(st, out, split(self.sp.wleaf(layer, tree, lw), self.n))
        return None


# ---------------------------------------------------------------------- key generation
def keygen(cfgname, name):
    cfg = prog.CONFIGS[cfgname]
    ps = prog.BYNAME[name]
    e = Env(cfg, ps, 'sign')
    n = e.n
    rep, sp = e.rep, e.sp
    st0, _ = e.blank()
    e.find_leaf()
    RND = roles.bytevars('RND', 3 * n)
    calls = []

    def rand_ok(verdict):
        def c(st, a):
            p, k = a
            ln = k if k.__class__ is int else None
            st.user['rnd'] = st.user.get('rnd', 0) + 1
            if ln != 3 * n:
                raise Fail('spec', None, 'the random source is asked for %s bytes, not %d' % (tm.show(k), 3 * n))
            if st.user['rnd'] > 1:
                raise Fail('spec', None, 'the random source is asked twice')
            if verdict:
                mc.putbytes(st, p, RND)
                return verdict
            # a failing source may have written anything
            mc.putbytes(st, p, roles.bytevars('JUNK', 3 * n))
            return 0
        return c
    fn = Fn(('harness', 'random'))
    nm = '%s key generation' % e.tag
    for verdict in (1,):        # the documented answer of a random source that succeeds
        for withpub in (1, 0):
            st = mc.St(e.m)
            e.m.contracts[fn.name] = rand_ok(verdict)
            psp = e.m.globptr(st, e.c.pskey())
            e.psp = psp
            sk = st.new('private key', 4 * n)
            pk = st.new('public key', 2 * n) if withpub else 0
            e.pub = Ptr(sk.obj, 2 * n, 0, 4 * n)
            ends = e.explore(st, 'ts_gen_key', [sk, pk, psp, fn])
            top = ps.d - 1

            def leaf(i):
                return sp.wleaf(top, 0, i)
            if e.leafkey is None:
                def leaf(i):
                    return sp.wleaf_def(top, 0, i)
            root = sp.subtree(ps.mh, leaf, lambda h, j: sp.adr(top, 0, spec.TREE, 0, h, j))
            want = RND + split(root, n)
            for s in ends:
                rep.add(nm + ': returns 1', s.retval == 1, 'returns %s' % tm.show(s.retval))
                rep.add(nm + ': random source used once', s.user.get('rnd') == 1, 'used %s times' % s.user.get('rnd'))
                got = s.objs[sk.obj]
                bad = [i for i in range(4 * n) if got[i] is not want[i] and got[i] != want[i]]
                rep.add(nm + ': private key is seeds and root', not bad, 'byte(s) %s' % bad[:4])
                if withpub:
                    got = s.objs[pk.obj]
                    bad = [i for i in range(2 * n) if got[i] is not want[2 * n + i] and got[i] != want[2 * n + i]]
                    rep.add(nm + ': public key is the second half', not bad, 'byte(s) %s' % bad[:4])
    # failures
    for what, args in (('no random source', lambda sk, pk, ps_, f: [sk, pk, ps_, 0]), ('no private key', lambda sk, pk, ps_, f: [0, pk, ps_, f]),
                       ('no parameter set', lambda sk, pk, ps_, f: [sk, pk, 0, f]), ('random source fails', lambda sk, pk, ps_, f: [sk, pk, ps_, f]),
                       ('random source fails, no public key', lambda sk, pk, ps_, f: [sk, 0, ps_, f])):
        st = mc.St(e.m)
        e.m.contracts[fn.name] = rand_ok(0)
        sk = st.new('private key', 4 * n)
        pk = st.new('public key', 2 * n)
        e.pub = Ptr(sk.obj, 2 * n, 0, 4 * n)
        psp = e.psp = e.m.globptr(st, e.c.pskey())
        for s in e.explore(st, 'ts_gen_key', args(sk, pk, psp, fn)):
            rep.add('%s (%s): returns 0' % (nm, what), s.retval == 0, 'returns %s' % tm.show(s.retval))
            rep.add('%s (%s): public key untouched' % (nm, what), all(x is None for x in s.objs[pk.obj]), 'public key written')
    rep.stats(e.m)
    return rep


# ---------------------------------------------------------------------- cutting the calls at their loop
def atoms_of(v, acc):
    if type(v) is T:
        tm.atoms(v, acc, set())
    elif v.__class__ is Ptr and type(v.off) is T:
        tm.atoms(v.off, acc, set())
    return acc


DL = tm.var('DL', 64)        # bytes handled by this call so far
MU = tm.var('MU', 32)        # bytes of the request left
DL32 = tm.ext(DL, 0, 32)
MU64 = tm.zext(MU, 32, 64)


def place(f, t):
    """a place in the caller's buffer, counted from DL where the code counts in 32 bits: zext(DL32 + c) is DL + c when the
    facts rule out that it wraps (f None: no facts)"""
    if type(t) is not T or t.w != 64:
        return t
    from .facts import lin
    c, key = lin(t)
    r = c
    for co, x in key:
        y = x
        if x.k == 'bits' and tm.zext(tm.ext(x, 0, 32), 32, 64) is tm.zext(x, x.w, 64):
            z = tm.ext(x, 0, 32)
            if z is DL32:
                y = DL
            elif type(z) is T and f is not None:
                c2, k2 = lin(z)
                if k2 == ((1, DL32),):
                    w = tm.add(64, DL, c2)
                    if f.fits(w, 0, (1 << 32) - 1):
                        y = w
        r = tm.add(64, r, tm.mulc(64, tm.zext(y, y.w, 64), co))
    return r


class Cut(object):
    """the loop of an API call that works through the caller's buffer.

    The first loop header reached whose live values depend on the request size is the cut point; the values
    there are functions of the number of bytes handled so far (DL) and left (MU), learnt from two
    consecutive visits and then proved for every step."""

    def __init__(self, env, fn, kind):
        self.e = env
        self.m = env.m
        self.fn = fn
        self.kind = kind            # 'out': the call delivers bytes; 'in': it takes them
        self.key = env.m.find(fn)
        if self.key is None:
            raise Limit('no function %s' % fn)
        self.site = None
        self.facts0 = []            # functions adding facts about the variables in use

    def watchall(self, cb):
        w = {}
        for key in self.m.fdefs:
            if key in self.m.contracts:
                continue
            cf = self.m.cf(key)
            d = {}
            for bi in cf.loops():
                d[cf.blockpc[cf.f.blocks[bi][0]]] = cb
            if d:
                w[key] = d
        self.m.watch = w

    def stream(self, st, length):
        if self.kind == 'out':
            return st.stream('destination', 'out', None, length)
        return st.stream('signature piece', 'in', self.sig, length)

    def sig(self, i):
        return self.e.sigbyte(i)

    def entry(self, st, ctx, M):
        """start the call; -> pointer to the caller's buffer"""
        p = self.stream(st, tm.zext(M, 32, 64) if type(M) is T else M)
        self.m.start(st, self.key, [p, M, ctx])
        return p

    # ------------------------------------------------------------ learning the loop
    def learn(self, st, ctx):
        M = tm.var('M', 32)
        st = st.fork()
        st.frames = []
        p = self.entry(st, ctx, M)
        hits = []
        me = self

        def cb(s, fr):
            cf = fr.cf
            bi = cf.info[fr.pc][0]
            live = cf.livein(bi)
            if me.site is None:
                acc = set()
                for r in live:
                    acc |= set(atoms_of(fr.R[r], set()))
                if M not in acc:
                    return None
                me.site = (len(s.frames), cf.key, fr.pc)
                me.live = sorted(live)
            if (len(s.frames), cf.key, fr.pc) != me.site:
                return None
            k = s.user.get('hits', 0)
            s.user['hits'] = k + 1
            if k == 0:
                hits.append(s.fork())
                return None
            hits.append(s.fork())
            return 'stop'
        self.watchall(cb)
        try:
            self.m.explore(st, lambda s: None)
        finally:
            self.m.watch = {}
        if not hits:
            raise Limit('%s: no loop over the caller\'s buffer found' % self.fn)
        h0 = hits[0]
        self.h0 = h0
        self.ctxp = ctx
        self.bufobj = p.obj
        self.bufrange = (p.lo, p.hi)
        x0 = [h0.frames[-1].R[r] for r in self.live]
        best = None
        for h in hits[1:]:
            r = self.moved(h, x0)
            # prefer a visit that leaves the request size open
            if r and (best is None or type(h.facts.simplify(M)) is T):
                best = h, r
                if type(h.facts.simplify(M)) is T:
                    break
        if best is None:
            raise Limit('%s: the loop makes no progress' % self.fn)
        h1, r = best
        self.form = []
        for reg, a in zip(self.live, x0):
            b = h1.frames[-1].R[reg]
            b = h1.facts.simplify(b) if type(b) is T else b
            a_ = h1.facts.simplify(a) if type(a) is T else a
            if a.__class__ is Ptr:
                if b.__class__ is not Ptr or b.obj != a.obj or type(a.off) is not int:
                    raise Limit('loop form')
                d = h1.facts.simplify(tm.sub(64, b.off if type(b.off) is T else b.off & (1 << 64) - 1, a.off & (1 << 64) - 1))
                if d not in (0, r):
                    raise Limit('loop form: pointer moves by %s' % tm.show(d))
                self.form.append(1 if d else 0)
            elif a.__class__ in (int, T):
                w = self.h0.frames[-1].cf.regw(reg)
                d = tm.sub(w, b, a_)
                if d == 0:
                    self.form.append(0)
                elif d == r:
                    self.form.append(1)
                elif d == (-r) & tm.mask(w):
                    self.form.append(-1)
                elif not M in atoms_of(a, set()) and not M in atoms_of(b, set()) and self.scratchreg(reg):
                    self.form.append(None)
                else:
                    raise Limit('loop form: %s then %s' % (tm.show(a), tm.show(b)))
            elif a == b:
                self.form.append(0)
            else:
                raise Limit('loop form')
        self.M = M
        self.x0 = x0

    def scratchreg(self, reg):
        return False

    def moved(self, h, x0):
        """how many bytes were handled between the two visits"""
        if self.kind == 'out':
            return len(h.objs[self.bufobj])
        for reg, a in zip(self.live, x0):
            b = h.frames[-1].R[reg]
            if a.__class__ is Ptr and a.obj == self.bufobj and b.__class__ is Ptr and b.obj == a.obj and type(b.off) is int:
                return b.off - a.off
        return None

    def genreg(self, reg, a, c, dl, mu):
        """value of a live register after dl bytes with mu left"""
        if c is None:
            return None
        if a.__class__ is Ptr:
            if not c:
                return a
            off = tm.add(64, dl, a.off & (1 << 64) - 1)
            return Ptr(a.obj, off if type(off) is T or not off >> 63 else off - (1 << 64), a.lo, a.hi)
        if a.__class__ not in (int, T):
            return a
        w = self.h0.frames[-1].cf.regw(reg)
        d32 = tm.ext(dl, 0, 32)
        v = a
        if type(a) is T:
            v = tm.subst_vars(a, {self.M: tm.add(32, mu, d32)})
        if c:
            d = tm.ext(dl, 0, w) if w <= 64 else tm.zext(dl, 64, w)
            v = tm.add(w, v, d) if c > 0 else tm.sub(w, v, d)
        return v

    # ------------------------------------------------------------ states at the cut
    def at(self, objs, facts=(), dl=DL, mu=MU):
        """a state at the cut: dl bytes handled, mu left, memory as given"""
        st = self.h0.fork()
        st.objs = dict(objs)
        st.own = set()
        st.user = {}
        f = st.facts = type(st.facts)()
        if dl is DL:
            f.ivl[((1, DL),)] = (0, (1 << 32) - 1)
            if type(mu) is T:
                # together they are the request, a 32-bit number
                from .facts import lin
                f.ivl[lin(tm.add(64, DL, tm.zext(mu, 32, 64)))[1]] = (0, (1 << 32) - 1)
        self.addfacts(f)
        for x in facts:
            x(f)
        if self.kind == 'out':
            st.objs[self.bufobj] = {}
        else:
            st.objs[self.bufobj] = None
        self.m.meta[self.bufobj].length = tm.add(64, dl, tm.zext(mu, 32, 64) if type(mu) is T else mu)
        fr = st.frames[-1]
        # what an earlier round left in the arrays of the call itself is gone when another call goes on
        for o in self.scratch():
            if o in st.objs and (st.objs[o].__class__ is not list or any(c is not None for c in st.objs[o])):
                self.e.poisoned = True
                st.objs[o] = self.h0.objs[o]
        for reg, a, c in zip(self.live, self.x0, self.form):
            fr.R[reg] = self.genreg(reg, a, c, dl, mu)
        keep = set(self.live)
        for i in range(1, len(fr.R)):
            if i not in keep:
                fr.R[i] = None
        return st

    def scratch(self):
        """the local arrays of the call, not yet written when the loop is entered"""
        h = self.h0
        return [o for fr in h.frames for o in fr.allocas
                if o in h.objs and h.objs[o].__class__ is list and all(c is None for c in h.objs[o])]

    def renamed(self, s, v):
        """a pointer to a local array of the call in s, as one to the same array in h0"""
        if v.__class__ is not Ptr:
            return v
        ok = set(self.scratch())
        for a, b in zip(s.frames, self.h0.frames):
            if len(a.allocas) != len(b.allocas):
                break
            for x, y in zip(a.allocas, b.allocas):
                if x == v.obj and y in ok and all(c is None for c in s.objs[x]):
                    return Ptr(y, v.off, v.lo, v.hi)
        return v

    def addfacts(self, f):
        for x in self.facts0:
            x(f)

    def run(self, st):
        """to the next visit of the cut, or the return: [(kind, state)]"""
        out = []

        def cb(s, fr):
            if (len(s.frames), fr.cf.key, fr.pc) != self.site:
                return None
            out.append(('head', s))
            return 'stop'
        self.m.watch = {self.site[1]: {self.site[2]: cb}}
        try:
            # the frames below the cut return to the caller of explore
            self.exploreall(st, lambda s: out.append(('ret', s)))
        finally:
            self.m.watch = {}
        return out

    def exploreall(self, st, onret):
        m = self.m
        work = [st]
        while work:
            s = work.pop()
            try:
                r = m.run(s, 0, work)
            except Fail as e:
                if e.st is None:
                    e.st = s
                raise
            if r in ('ret', 'stop'):
                m.stats['paths'] += 1
            if r == 'ret':
                onret(s)

    def written(self, st):
        """[bytes] delivered at DL, DL+1, ...; None if the places are others"""
        d = st.objs[self.bufobj]
        out = []
        for i in range(len(d)):
            k = tm.add(64, DL, i)
            if k not in d:
                k2 = [q for q in d if st.facts.simplify(q) is k or place(st.facts, q) is k] if len(d) < 80 else []
                if not k2:
                    return None
                k = k2[0]
            out.append(d[k])
        return out

    def consistent(self, st, r):
        """the live values at the cut are those after r more bytes; None or what differs"""
        fr = st.frames[-1]
        f = st.facts
        dl = tm.add(64, DL, r)
        mu = tm.sub(32, MU, r)
        for reg, a, c in zip(self.live, self.x0, self.form):
            want = self.genreg(reg, a, c, dl, mu)
            got = fr.R[reg]
            if c is None:
                continue
            if self.sameval(f, got, want):
                continue
            return 'loop value %s instead of %s' % (tm.show(got), tm.show(want))
        # frames below must not have changed
        return None

    def sameval(self, f, got, want):
        if want.__class__ is Ptr:
            if got.__class__ is Ptr and got.obj == want.obj:
                g = got.off if type(got.off) is T else got.off & (1 << 64) - 1
                w = want.off if type(want.off) is T else want.off & (1 << 64) - 1
                return same(f, g, w)
            return False
        if want.__class__ in (int, T):
            return same(f, got, want)
        return want == got


def same(f, a, b):
    if a is b or (type(a) is int and type(b) is int and a == b):
        return True
    if a.__class__ not in (int, T) or b.__class__ not in (int, T):
        return a == b
    a, b = f.simplify(a), f.simplify(b)
    if a is b or (type(a) is int and type(b) is int and a == b):
        return True
    w = a.w if type(a) is T else b.w
    if w == 64:
        a, b = place(f, a), place(f, b)
        if a is b:
            return True
    d = f.simplify(tm.sub(w, a, b)) if w in (8, 16, 32, 64) else None
    if type(d) is int:
        return d == 0
    if type(d) is T:
        lo, hi = f.bound(d)
        return lo == hi == 0
    return False
