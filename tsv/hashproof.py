"""L1: the block functions (SHA-256, SHA-512 compression, Keccak-f).

A block function is recognised by what it computes on random concrete data (any function whose parameters
are pointers), then its contract
    state' = C(state, block)   (resp. P(state));   other bytes it changed become unreadable
is proved for all states and blocks, for every aliasing of block and state that callers use, and from
then on callers are executed against the contract."""
import random
import itertools
from . import term as tm
from .term import T
from . import machine as mc
from .machine import Ptr, Fail
from .facts import Limit
from . import hspec


class Kernel(object):
    """a block function: parameter roles and sizes"""

    def __init__(self, alg, key, sidx, bidx, soff, sizes):
        self.alg = alg
        self.key = key
        self.sidx = sidx       # index of the state argument
        self.bidx = bidx       # index of the block argument (None for Keccak)
        self.soff = soff       # offset of the chaining state inside the state argument
        self.sizes = sizes     # bytes needed behind each pointer argument
        self.scratch = None    # {arg: offsets changed besides the state}
        self.patterns = {}     # aliasing pattern -> proof result

    def name(self):
        return self.key if type(self.key) is str else self.key[1]


ALGS = {'SHA256': hspec.SHA256, 'SHA512': hspec.SHA512, 'SHAKE': hspec.SHAKE}


def words_of(alg):
    if alg is hspec.SHAKE:
        return 25, 8
    return 8, alg.w // 8


def spec_concrete(alg, words, block):
    return alg.permute(words) if alg is hspec.SHAKE else alg.compress(words, block)


def ptrparams(f):
    return all(f.mod.types.res(t)[0] == 'p' for t, _ in f.params)


def concrete(m, key, objs, maxsteps=60000):
    """run a function on concrete byte objects; list of resulting cell lists or None"""
    st = mc.St(m)
    ps = [st.new('a%d' % i, len(o), init=o) for i, o in enumerate(objs)]
    out = []
    save = m.contracts, m.watch, m.maxsteps, m.steps
    m.contracts, m.watch = {}, {}
    m.steps = 0
    m.maxsteps = maxsteps
    try:
        m.start(st, key, ps)
        m.explore(st, out.append)
    except (Fail, Limit, RecursionError):
        return None
    finally:
        m.contracts, m.watch, m.maxsteps = save[:3]
        m.steps = save[3] + m.steps
    if len(out) != 1:
        return None
    return [out[0].objs[p.obj] for p in ps]


def asbytes(cells):
    r = []
    for c in cells:
        b = mc._cell_byte(c, None)
        if type(b) is not int:
            if type(c) is tuple and type(c[0]) is int:
                b = (c[0] >> (8 * c[1])) & 255
            else:
                return None
        r.append(b)
    return r


def toint(cells):
    out = []
    for c in cells:
        if type(c) is int:
            out.append(c)
        elif type(c) is tuple and type(c[0]) is int:
            out.append((c[0] >> (8 * c[1])) & 255)
        else:
            out.append(None)
    return out


def identify(m, alg):
    """the function of the program that computes alg's block function, or None"""
    rnd = random.Random(7)
    nw, ws = words_of(alg)
    need = 1 if alg is hspec.SHAKE else 2
    BIG = 512
    cands = []
    for key, f in m.fdefs.items():
        if f.ret != ('v',) and m_ret(f) != 'v':
            continue
        if not (need <= len(f.params) <= 3) or not ptrparams(f):
            continue
        nm = (key if type(key) is str else key[1]).lower()
        src = f.mod.path.split('/')[-1].lower()
        rank = 0 if ('compress' in nm or 'permut' in nm or 'keccakf' in nm or 'transform' in nm or 'block' in nm) else 1
        cands.append((rank, len(f.blocks), nm, key, f))
    cands.sort(key=lambda c: (c[0], c[2]))
    for rank, _, nm, key, f in cands:
        k = len(f.params)
        for perm in itertools.permutations(range(k), need):
            objs = [[rnd.getrandbits(8) for _ in range(BIG)] for _ in range(k)]
            res = concrete(m, key, objs)
            if res is None:
                continue
            s = perm[0]
            b = perm[1] if need == 2 else None
            block = objs[b][:alg.block] if b is not None else None
            res = [toint(r) for r in res]
            for off in range(0, BIG - nw * ws + 1, ws):
                if res[s][off:off + nw * ws] == objs[s][off:off + nw * ws]:
                    continue
                w = [int.from_bytes(bytes(objs[s][off + i * ws:off + i * ws + ws]), 'little') for i in range(nw)]
                exp = b''.join(x.to_bytes(ws, 'little') for x in spec_concrete(alg, w, block))
                if all(x == y for x, y in zip(res[s][off:off + nw * ws], exp)):
                    sizes = []
                    for j in range(k):
                        lo, hi = 0, BIG
                        while lo < hi:
                            mid = (lo + hi) // 2
                            o2 = [o if i != j else o[:mid] for i, o in enumerate(objs)]
                            if concrete(m, key, o2) is not None:
                                hi = mid
                            else:
                                lo = mid + 1
                        sizes.append(lo)
                    return Kernel(alg, key, s, b, off, sizes)
                if off >= 64:
                    break
            # the remaining permutations use the same run only when the roles differ
    return None


def m_ret(f):
    return f.mod.types.res(f.ret)[0]


# ------------------------------------------------------------------ proof of a block function

def state_vars(alg):
    nw, ws = words_of(alg)
    return [tm.var('h%d' % i, 8 * ws) for i in range(nw)]


class Cuts(object):
    def __init__(self, which):
        self.which = which
        self.map = {}
        self.n = 0
        self.defs = {}

    def __call__(self, v):
        if type(v) is int:
            return v
        a = self.map.get(v)
        if a is None:
            self.n += 1
            a = tm.var('cut%d' % self.n, v.w)
            self.map[v] = a
            self.map[a] = a
            self.defs[a] = v
        return a


def keccak_coarse(s, cut):
    """permutation with only the lanes of each round abbreviated"""
    cnt = [0]

    def c(v):
        cnt[0] += 1
        # per round: 5 C, 5 D, 25 theta, 25 chi
        if cnt[0] > 35:
            if cnt[0] == 60:
                cnt[0] = 0
            return cut(v)
        return v
    return hspec.SHAKE.permute(s, c)


def prove(m, k, pattern):
    """pattern: None (separate objects) or the offset of the block relative to the state object.
    Returns (ok, message, scratch)"""
    alg = k.alg
    nw, ws = words_of(alg)
    for mode in (('plain',) if alg is not hspec.SHAKE else ('fine', 'coarse')):
        st = mc.St(m)
        h = state_vars(alg)
        args = []
        ptrs = []
        blk = [tm.var('b%d' % i, 8) for i in range(alg.block)] if k.bidx is not None else None
        nargs = len(k.sizes)
        for j in range(nargs):
            size = k.sizes[j]
            if j == k.bidx and pattern is None:
                p = st.new('block', alg.block, init=blk)
            elif j == k.bidx:
                p = None
            else:
                p = st.new('state' if j == k.sidx else 'scratch', size)
            ptrs.append(p)
        sp = ptrs[k.sidx]
        cells = st.cells(sp.obj)
        if pattern is not None:
            if pattern < 0 or pattern + alg.block > k.sizes[k.sidx]:
                return False, 'block partly outside the state object', None
            cells[pattern:pattern + alg.block] = blk
            ptrs[k.bidx] = Ptr(sp.obj, pattern, pattern, pattern + alg.block)
        for i in range(nw):
            for b in range(ws):
                cells[k.soff + i * ws + b] = (h[i], b, ws)
        before = {j: list(st.objs[p.obj]) for j, p in enumerate(ptrs)}
        if mode == 'plain':
            spec = alg.compress(h, blk)
            cuts = {}
        else:
            c = Cuts(None)
            spec = alg.permute(h, c) if mode == 'fine' else keccak_coarse(h, c)
            cuts = c.map
        save = m.contracts, m.watch
        m.contracts, m.watch = {}, {}
        mc.CUT.clear()
        mc.CUT.update(cuts)
        out = []
        try:
            m.start(st, k.key, ptrs)
            m.explore(st, out.append)
        except Fail as e:
            return False, str(e), None
        finally:
            m.contracts, m.watch = save
            mc.CUT.clear()
        if not out:
            return False, 'no path returns', None
        bad = None
        scratch = {}
        for s in out:
            oc = s.objs[sp.obj]
            for i in range(nw):
                g = mc.ldcells(s, oc, k.soff + i * ws, ws)
                if g is mc.UNDEF:
                    bad = 'state word %d is left uninitialised' % i
                    break
                x, y = s.facts.simplify(g), s.facts.simplify(spec[i])
                if not (x is y or (type(x) is int and x == y)):
                    bad = 'state word %d differs from the specification' % i
                    break
            if bad:
                break
            for j, p in enumerate(ptrs):
                a = s.objs[p.obj]
                for o in range(len(a)):
                    if j == k.bidx and pattern is not None:
                        continue
                    if j == k.sidx and k.soff <= o < k.soff + nw * ws:
                        continue
                    x, y = a[o], before[j][o]
                    if x is not y and x != y:
                        scratch.setdefault(j, set()).add(o)
        if bad is None:
            return True, '%s: %d path(s), %s' % (k.name(), len(out), mode), scratch
    if len(out) == 1 and bad.endswith('differs from the specification') and not refuted(m, k):
        raise Limit('%s: %s in form, and on no concrete input tried' % (k.name(), bad))
    return False, bad, None


def refuted(m, k, tries=60):
    """a concrete state and block on which the block function is wrong"""
    rnd = random.Random(11)
    alg = k.alg
    nw, ws = words_of(alg)
    for t in range(tries):
        fill = (lambda: rnd.getrandbits(8)) if t % 3 else (lambda: rnd.choice((0, 0xff, 0x80, 1)))
        objs = [[fill() for _ in range(n)] for n in k.sizes]
        if k.bidx is not None:
            objs[k.bidx] = [fill() for _ in range(max(alg.block, k.sizes[k.bidx]))]
        res = concrete(m, k.key, objs)
        if res is None:
            return True
        o = k.soff
        w = [int.from_bytes(bytes(objs[k.sidx][o + i * ws:o + i * ws + ws]), 'little') for i in range(nw)]
        exp = b''.join(x.to_bytes(ws, 'little') for x in spec_concrete(alg, w, objs[k.bidx][:alg.block] if k.bidx is not None else None))
        if toint(res[k.sidx])[o:o + nw * ws] != list(exp):
            return True
    return False


class Hashes(object):
    """block functions of a program: identified, proved, and used as contracts"""

    def __init__(self, m, algs=('SHA256', 'SHA512', 'SHAKE'), assume_proved=None):
        self.m = m
        self.kernels = {}
        self.log = []          # (obligation, ok, message)
        for a in algs:
            alg = ALGS[a]
            k = identify(m, alg)
            self.kernels[a] = k
            if k is not None:
                m.contracts[k.key] = self.contract(k)

    def proofs(self, k, pattern):
        r = k.patterns.get(pattern)
        if r is None:
            r = prove(self.m, k, pattern)
            k.patterns[pattern] = r
            if r[2] is not None:
                k.scratch = merge(k.scratch, r[2])
            self.log.append(('%s: block function equals the specification for all inputs (%s)' % (
                k.name(), 'separate block' if pattern is None else 'block inside the state object at offset %d' % pattern), r[0], r[1]))
        return r

    def contract(self, k):
        alg = k.alg
        nw, ws = words_of(alg)

        def c(st, args):
            for a in args:
                if a.__class__ is not Ptr:
                    return mc.INLINE
            sp = args[k.sidx]
            pattern = None
            if k.bidx is not None:
                bp = args[k.bidx]
                if bp.obj == sp.obj:
                    if bp.off.__class__ is not int or sp.off.__class__ is not int:
                        return mc.INLINE
                    pattern = bp.off - sp.off
                    if pattern + alg.block <= 0 or pattern >= k.sizes[k.sidx]:
                        pattern = None
            key = pattern
            r = self.proofs(k, key)
            if not r[0]:
                return mc.INLINE
            if k.bidx is not None:
                block = mc.getbytes(st, args[k.bidx], alg.block, 'block')
            for j, p in enumerate(args):
                if j == k.bidx:
                    continue
                mc.deref(st, p, k.sizes[j], True, 1)
            so = mc.deref(st, sp, k.sizes[k.sidx], True, ws)
            cells = st.objs[sp.obj]
            h = []
            for i in range(nw):
                v = mc.ldcells(st, cells, so + k.soff + i * ws, ws)
                if v is mc.UNDEF:
                    raise Fail('init', None, 'chaining value word %d is uninitialised' % i)
                h.append(v)
            new = alg.C(h, block) if k.bidx is not None else alg.P(h)
            sc = r[2]
            for j, offs in sc.items():
                cc = st.cells(args[j].obj)
                base = args[j].off
                for o in offs:
                    cc[base + o] = None
            for i in range(nw):
                mc.sto(st, Ptr(sp.obj, so + k.soff + i * ws, so, so + k.sizes[k.sidx]), new[i], ws, 1)
            return 0
        return c


def merge(a, b):
    r = dict(a or {})
    for j, s in b.items():
        r[j] = r.get(j, set()) | s
    return r
