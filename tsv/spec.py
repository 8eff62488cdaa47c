"""The SPHINCS+ submission ("simple" instantiation), over terms.  Bytes are ints or 8-bit terms.

  ADR forms      32 bytes for SHAKE256; 22 bytes compressed for SHA-2
  T_l(adr, M)    SHAKE256(seed || ADR || M)           | SHA-X(seed || 0.. || ADRc || M)
  PRF(adr)       SHAKE256(seed || ADR || SK.seed)     | SHA-256(seed || 0.. || ADRc || SK.seed)
  PRFmsg         SHAKE256(SK.prf || opt || M)         | HMAC-SHA-X(SK.prf, opt || M)
  Hmsg           SHAKE256(R || seed || root || M)     | MGF1-SHA-X(R || seed || SHA-X(R || seed || root || M))
  X: 256 for n = 16; for n = 24, 32 it is 512 except in F (T_1) and PRF."""
from . import term as tm
from . import hspec

WOTS, WOTSPK, TREE, FORSTREE, FORSPK, WOTSPRF, FORSPRF = range(7)


def be(v, n, w=None):
    """n bytes, big-endian, of an int or a term of width w (zero-extended)"""
    if type(v) is int:
        return list(v.to_bytes(n, 'big'))
    w = v.w
    if w < 8 * n:
        v = tm.zext(v, w, 8 * n)
    elif w > 8 * n:
        v = tm.ext(v, 0, 8 * n)
    return [tm.ext(v, 8 * (n - 1 - i), 8) for i in range(n)]


def adr(sha2, layer, tree, typ, kp, a, b):
    """layer address, tree address, type, keypair, chain/height, hash/index"""
    if sha2:
        return be(layer, 1) + be(tree, 8) + be(typ, 1) + be(kp, 4) + be(a, 4) + be(b, 4)
    return be(layer, 4) + be(tree, 12) + be(typ, 4) + be(kp, 4) + be(a, 4) + be(b, 4)


ADRLEN = {1: 22, 0: 32}


class Stream(object):
    """a message: the L bytes of stream `name`"""

    def __init__(self, name, L):
        self.name = name
        self.L = L


class Roles(object):
    def __init__(self, ps, seed, root, skseed, skprf):
        self.ps, self.n = ps, ps.n
        self.seed, self.root, self.skseed, self.skprf = seed, root, skseed, skprf
        self.big = hspec.SHA256 if ps.n == 16 else hspec.SHA512
        self.seedblock = {}

    def seeded(self, alg):
        """state after seed || zeros, one block"""
        h = self.seedblock.get(alg)
        if h is None:
            h = self.seedblock[alg] = alg.absorb(list(alg.IV), self.seed + [0] * (alg.block - self.n))[0]
        return h

    def sha2(self, alg, adr, data, n):
        h, rest = alg.absorb(self.seeded(alg), adr + data)
        return alg.finish(h, rest, alg.block + len(adr) + len(data), n)

    def prf(self, adr):
        if self.ps.sha2:
            return self.sha2(hspec.SHA256, adr, self.skseed, self.n)
        return hspec.SHAKE.hash(self.seed + adr + self.skseed, self.n)

    def f(self, adr, x):
        if self.ps.sha2:
            return self.sha2(hspec.SHA256, adr, x, self.n)
        return hspec.SHAKE.hash(self.seed + adr + x, self.n)

    def t(self, adr, xs):
        data = [b for x in xs for b in x]
        if self.ps.sha2:
            return self.sha2(self.big, adr, data, self.n)
        return hspec.SHAKE.hash(self.seed + adr + data, self.n)

    # ---------------------------------------------------------------- with a message of any length
    # the message ends are given by (q, r) with q whole blocks after `pre` and r bytes left
    def split(self, prelen, L, blk):
        raise NotImplementedError

    def hmac(self, opt, inner):
        """inner(prefix) -> digest bytes of prefix || message"""
        alg = self.big
        key = self.skprf + [0] * (alg.block - self.n)
        d = inner(alg, [tm.xor(8, b, 0x36) for b in key] + opt)
        return alg.hash([tm.xor(8, b, 0x5c) for b in key] + d, self.n)

    def mgf1(self, R, inner, n):
        alg = self.big
        d = inner(alg, R + self.seed + self.root)
        out = []
        i = 0
        while len(out) < n:
            out += alg.hash(R + self.seed + d + list(i.to_bytes(4, 'big')))
            i += 1
        return out[:n]

    def prfmsg(self, opt, inner):
        if self.ps.sha2:
            return self.hmac(opt, inner)
        return inner(hspec.SHAKE, self.skprf + opt, self.n)

    def hmsg(self, R, inner, n):
        if self.ps.sha2:
            return self.mgf1(R, inner, n)
        return inner(hspec.SHAKE, R + self.seed + self.root, n)
