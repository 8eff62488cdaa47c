"""What the hash functions have to compute, written from FIPS 180-4 and FIPS 202 alone (constants are
derived, not copied).  Values are ints or terms: the same text serves proofs and concrete replays."""
from . import term as tm


def _primes(n):
    ps = []
    k = 2
    while len(ps) < n:
        if all(k % p for p in ps):
            ps.append(k)
        k += 1
    return ps


def _root(x, k):
    lo, hi = 0, 1 << ((x.bit_length() // k) + 2)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= x:
            lo = m
        else:
            hi = m - 1
    return lo


def _frac(p, k, bits):
    return _root(p << (k * bits), k) & ((1 << bits) - 1)


K256 = [_frac(p, 3, 32) for p in _primes(64)]
K512 = [_frac(p, 3, 64) for p in _primes(80)]
IV256 = [_frac(p, 2, 32) for p in _primes(8)]
IV512 = [_frac(p, 2, 64) for p in _primes(8)]


def ror(w, x, r):
    return tm.cat((tm.ext(x, 0, r), r), (tm.ext(x, r, w - r), w - r))


def rol(w, x, r):
    return ror(w, x, w - r) if r % w else x


class Sha2(object):
    def __init__(self, w):
        self.w = w
        self.rounds = 64 if w == 32 else 80
        self.K = K256 if w == 32 else K512
        self.IV = IV256 if w == 32 else IV512
        self.S0 = (2, 13, 22) if w == 32 else (28, 34, 39)
        self.S1 = (6, 11, 25) if w == 32 else (14, 18, 41)
        self.s0 = (7, 18, 3) if w == 32 else (1, 8, 7)
        self.s1 = (17, 19, 10) if w == 32 else (19, 61, 6)
        self.block = 2 * w
        self.lenbytes = w // 4
        self.fn = 'C256' if w == 32 else 'C512'

    def big(self, x, r):
        w = self.w
        return tm.xor(w, tm.xor(w, ror(w, x, r[0]), ror(w, x, r[1])), ror(w, x, r[2]))

    def small(self, x, r):
        w = self.w
        return tm.xor(w, tm.xor(w, ror(w, x, r[0]), ror(w, x, r[1])), tm.lshr(w, x, r[2]))

    def words(self, block):
        n = self.w // 8
        return [tm.cat(*[(block[n * i + j], 8) for j in range(n)]) for i in range(16)]

    def compress(self, h, block, cut=None):
        """the compression function on 8 words and 2*w bytes; cut(value) may replace intermediate values"""
        w = self.w
        if cut is None:
            def cut(x):
                return x
        W = self.words(block)
        for t in range(16, self.rounds):
            W.append(cut(tm.sumn(w, [self.small(W[t - 2], self.s1), W[t - 7], self.small(W[t - 15], self.s0), W[t - 16]])))
        a, b, c, d, e, f, g, hh = h
        for t in range(self.rounds):
            ch = tm.xor(w, tm.and_(w, e, f), tm.and_(w, tm.not_(w, e), g))
            maj = tm.xor(w, tm.xor(w, tm.and_(w, a, b), tm.and_(w, a, c)), tm.and_(w, b, c))
            t1 = tm.sumn(w, [hh, self.big(e, self.S1), ch, self.K[t], W[t]])
            t2 = tm.add(w, self.big(a, self.S0), maj)
            hh, g, f, e, d, c, b, a = g, f, e, cut(tm.add(w, d, t1)), c, b, a, cut(tm.add(w, t1, t2))
        return [tm.add(w, x, y) for x, y in zip(h, (a, b, c, d, e, f, g, hh))]

    # ------------------------------------------------------ abstract compression
    def C(self, h, block):
        """compression as an uninterpreted function, folding over stream blocks (see fold)"""
        if all(type(x) is int for x in h) and all(type(x) is int for x in block):
            return self.compress(h, block)
        r = fold_step(self, h, block)
        if r is not None:
            return r
        c = tm.app(self.fn, (tuple(h), tm.cat(*[(b, 8) for b in block])), 8 * self.w)
        return [tm.ext(c, self.w * (7 - i), self.w) for i in range(8)]

    def pad(self, nbits_hi):
        raise NotImplementedError

    def out(self, h, n):
        """first n bytes of the digest"""
        bs = []
        for x in h:
            for j in range(self.w // 8):
                bs.append(tm.ext(x, self.w - 8 - 8 * j, 8))
        return bs[:n]

    def finish(self, h, tail, total, n):
        """tail: the bytes after the last whole block processed; total: byte count (64-bit int or term)"""
        r = list(tail) + [0x80]
        while len(r) % self.block != self.block - self.lenbytes:
            r.append(0)
        bits = tm.mulc(64, total, 8) if type(total) is not int else total * 8
        if type(bits) is int:
            lb = list(bits.to_bytes(self.lenbytes, 'big'))
        else:
            lb = [0] * (self.lenbytes - 8) + [tm.ext(bits, 56 - 8 * i, 8) for i in range(8)]
        r += lb
        for i in range(0, len(r), self.block):
            h = self.C(h, r[i:i + self.block])
        return self.out(h, n)

    def absorb(self, h, data):
        """whole blocks of data folded; (h, rest)"""
        i = 0
        while i + self.block <= len(data):
            h = self.C(h, data[i:i + self.block])
            i += self.block
        return h, data[i:]

    def hash(self, data, n=None):
        h, rest = self.absorb(list(self.IV), list(data))
        return self.finish(h, rest, len(data), n or self.w)


SHA256 = Sha2(32)
SHA512 = Sha2(64)


# ------------------------------------------------------------------ folding over a stream
# FOLD(id, q) is the chaining value after q whole blocks; id = (name of hash, start state, stream, base)
# with  FOLD(id,0) = start state,  FOLD(id,q+1) = C(FOLD(id,q), stream[base+q*block ..]).

def streambyte(name, idx):
    return tm.app('S', (name, idx), 8)


def fold(alg, start, name, base, q):
    """8 words of FOLD(id, q)"""
    if type(q) is int and q == 0:
        return list(start)
    c = tm.app('FOLD', ((alg.fn, tuple(start), name, base), q), alg.statebits)
    return alg.split(c)


def streamrun(bs):
    """(name, index of the first) when the bytes are consecutive bytes of one stream"""
    b0 = bs[0]
    if type(b0) is not tm.T or b0.k != 'app' or b0.a[0] != 'S':
        return None
    name, i0 = b0.a[1]
    for j in range(1, len(bs)):
        if bs[j] is not streambyte(name, tm.add(64, i0, j)):
            return None
    return name, i0


def fold_step(alg, h, block):
    """C(h, stream block) as a FOLD term"""
    r = streamrun(block)
    if r is None:
        return None
    name, i0 = r
    f = alg.unsplit(h)
    if f is not None and f.k == 'app' and f.a[0] == 'FOLD':
        (fn, start, nm, base), q = f.a[1]
        if fn == alg.fn and nm == name and tm.add(64, base, tm.mulc(64, q, alg.block)) == i0:
            return fold(alg, start, nm, base, tm.add(64, q, 1))
    return fold(alg, h, name, i0, 1)


Sha2.statebits = property(lambda s: 8 * s.w)
Sha2.split = lambda s, c: [tm.ext(c, s.w * (7 - i), s.w) for i in range(8)]


def _unsplit(s, h):
    if any(type(x) is int for x in h):
        return None
    c = tm.cat(*[(x, s.w) for x in h])
    return c if type(c) is tm.T and c.k == 'app' else None


Sha2.unsplit = _unsplit


# ------------------------------------------------------------------ Keccak
def _rc():
    out = []
    for ir in range(24):
        v = 0
        for j in range(7):
            t = (j + 7 * ir) % 255
            R = 1
            for _ in range(t):
                R <<= 1
                if R & 0x100:
                    R ^= 0x171
            if R & 1:
                v |= 1 << ((1 << j) - 1)
        out.append(v)
    return out


RC = _rc()


def _rho():
    r = {(0, 0): 0}
    x, y = 1, 0
    for t in range(24):
        r[(x, y)] = ((t + 1) * (t + 2) // 2) % 64
        x, y = y, (2 * x + 3 * y) % 5
    return r


RHO = _rho()
RATE = 136


def mons(v):
    return frozenset(m for p in tm.pieces(v, 64) for m in p[2])


def streamleaves(v, name, i0, off):
    """linear stream bytes of the block starting at i0 that occur in lane value v"""
    if type(v) is int:
        return frozenset()
    want = set(streambyte(name, tm.add(64, i0, off + j)) for j in range(8))
    out = set()
    for m in mons(v):
        if len(m) == 1:
            ((b, lo),) = m
            if b in want:
                out.add(m)
    return frozenset(out)


class Keccak(object):
    fn = 'KECCAK'
    block = RATE
    statebits = 1600

    def split(self, c):
        return [tm.ext(c, 64 * i, 64) for i in range(25)]

    def unsplit(self, lanes):
        if any(type(x) is int for x in lanes):
            return None
        c = tm.cat(*[(lanes[i], 64) for i in range(24, -1, -1)])
        return c if type(c) is tm.T and c.k == 'app' else None

    def permute(self, s, cut=None):
        if cut is None:
            def cut(x):
                return x
        A = {(x, y): s[x + 5 * y] for x in range(5) for y in range(5)}
        for r in range(24):
            C = [A[(x, 0)] for x in range(5)]
            for x in range(5):
                for y in range(1, 5):
                    C[x] = tm.xor(64, C[x], A[(x, y)])
                C[x] = cut(C[x])
            D = [cut(tm.xor(64, C[(x - 1) % 5], rol(64, C[(x + 1) % 5], 1))) for x in range(5)]
            B = {}
            for x in range(5):
                for y in range(5):
                    B[(y, (2 * x + 3 * y) % 5)] = rol(64, cut(tm.xor(64, A[(x, y)], D[x])), RHO[(x, y)])
            for x in range(5):
                for y in range(5):
                    v = tm.xor(64, B[(x, y)], tm.and_(64, tm.not_(64, B[((x + 1) % 5, y)]), B[((x + 2) % 5, y)]))
                    if (x, y) == (0, 0):
                        v = tm.xor(64, v, RC[r])
                    A[(x, y)] = cut(v)
        return [A[(i % 5, i // 5)] for i in range(25)]

    def P(self, s):
        if all(type(x) is int for x in s):
            return self.permute(s)
        r = self.iterate(s)
        if r is not None:
            return r
        r = self.foldperm(s)
        if r is not None:
            return r
        c = tm.app(self.fn, tuple(s), 1600)
        return self.split(c)

    # ITER(start, q) is the state after q applications of P to start, for one registered start state
    iterstart = None

    def iter(self, q):
        if type(q) is int and q == 0:
            return list(self.iterstart)
        return self.split(tm.app('ITER', (tuple(self.iterstart), q), 1600))

    def iterate(self, s):
        if self.iterstart is None:
            return None
        f = self.unsplit(s)
        if f is not None and f.k == 'app' and f.a[0] == 'ITER' and f.a[1][0] == tuple(self.iterstart):
            return self.iter(tm.add(64, f.a[1][1], 1))
        if all(x is y or (type(x) is int and type(y) is int and x == y) for x, y in zip(s, self.iterstart)):
            return self.iter(1)
        return None

    def foldperm(self, s):
        """P(s xor stream block) as a FOLD term"""
        x = tm.ext(s[0], 0, 8)
        if type(x) is not tm.T or x.k not in ('bits', 'app'):
            return None
        cands = []
        for p in tm.pieces(x, 8):
            if p[0] != 8:
                return None
            for mon in p[2]:
                if len(mon) == 1:
                    ((b, lo),) = mon
                    if lo == 0 and b.k == 'app' and b.a[0] == 'S':
                        cands.append(b)
        for b0 in cands:
            name, i0 = b0.a[1]
            start = []
            for i in range(25):
                v = s[i]
                if i < RATE // 8:
                    if type(v) is int:
                        break
                    v = tm.xor(64, v, tm.cat(*[(streambyte(name, tm.add(64, i0, 8 * i + j)), 8) for j in range(7, -1, -1)]))
                    if streamleaves(v, name, i0, 8 * i):
                        break
                start.append(v)
            else:
                f = self.unsplit(start)
                if f is not None and f.k == 'app' and f.a[0] == 'FOLD':
                    (fn, st, nm, base), q = f.a[1]
                    if fn == self.fn and nm == name and tm.add(64, base, tm.mulc(64, q, RATE)) == i0:
                        return fold(self, st, nm, base, tm.add(64, q, 1))
                return fold(self, start, name, i0, 1)
        return None

    def xorbytes(self, s, pos, data):
        s = list(s)
        for j, b in enumerate(data):
            p = pos + j
            s[p // 8] = tm.xor(64, s[p // 8], tm.shl(64, tm.zext(b, 8, 64) if type(b) is not int else b, 8 * (p % 8)))
        return s

    def absorb(self, s, pos, data):
        i = 0
        while i < len(data):
            n = min(RATE - pos, len(data) - i)
            s = self.xorbytes(s, pos, data[i:i + n])
            pos += n
            i += n
            if pos == RATE:
                s = self.P(s)
                pos = 0
        return s, pos

    def squeeze(self, s, pos, n):
        """finish absorbing and produce n bytes"""
        s = self.xorbytes(s, pos, [0x1f])
        s = self.xorbytes(s, RATE - 1, [0x80])
        out = []
        while len(out) < n:
            s = self.P(s)
            out += [tm.ext(s[i // 8], 8 * (i % 8), 8) for i in range(RATE)]
        return out[:n]

    def hash(self, data, n):
        s, pos = self.absorb([0] * 25, 0, list(data))
        return self.squeeze(s, pos, n)


SHAKE = Keccak()


# ------------------------------------------------------------------ substitution inside folded states
def _reiter(args, w):
    start, q = args
    if type(q) is int and q == 0:
        return tm.cat(*[(start[i], 64) for i in range(24, -1, -1)])
    return tm.app('ITER', args, w)


def _refold(args, w):
    (fn, start, name, base), q = args
    if type(q) is int and q == 0:
        bits = 32 if fn == 'C256' else 64
        if fn == 'KECCAK':
            return tm.cat(*[(start[i], 64) for i in range(24, -1, -1)])
        return tm.cat(*[(x, bits) for x in start])
    return tm.app('FOLD', args, w)


tm.REAPP['FOLD'] = _refold
tm.REAPP['ITER'] = _reiter
