"""Concrete SPHINCS+ ("simple" sets), written from the specification with the hash functions of Python's
library.  Used for replays and for checking the symbolic specification; no code of the repository."""
import hashlib
import hmac
from .prog import BYNAME

WOTS, WOTSPK, TREE, FORSTREE, FORSPK, WOTSPRF, FORSPRF = range(7)


class Adr(object):
    __slots__ = ('layer', 'tree', 'type', 'kp', 'a', 'b')

    def __init__(self, layer=0, tree=0, type=0, kp=0, a=0, b=0):
        self.layer, self.tree, self.type, self.kp, self.a, self.b = layer, tree, type, kp, a, b

    def full(self):
        return (self.layer.to_bytes(4, 'big') + self.tree.to_bytes(12, 'big') + self.type.to_bytes(4, 'big') +
                self.kp.to_bytes(4, 'big') + self.a.to_bytes(4, 'big') + self.b.to_bytes(4, 'big'))

    def short(self):
        f = self.full()
        return f[3:4] + f[8:16] + f[19:20] + f[20:32]


def feed(h, msg):
    """hash a message, or (an integer) that many zero bytes"""
    if type(msg) is not int:
        h.update(msg)
        return h
    z = bytes(1 << 20)
    for _ in range(msg >> 20):
        h.update(z)
    h.update(bytes(msg & (1 << 20) - 1))
    return h


class Sphincs(object):
    def __init__(self, name, pkseed=b'', skseed=b'', skprf=b'', root=b''):
        p = BYNAME[name]
        self.p = p
        self.n = p.n
        self.setkeys(pkseed, skseed, skprf, root)

    def setkeys(self, pkseed, skseed=b'', skprf=b'', root=b''):
        self.pkseed, self.skseed, self.skprf, self.root = pkseed, skseed, skprf, root
        if self.p.sha2:
            self.m256 = hashlib.sha256(pkseed + bytes(64 - len(pkseed)))
            self.m512 = hashlib.sha512(pkseed + bytes(128 - len(pkseed)))

    # tweakable hashes
    def _small(self, adr, x):
        if self.p.sha2:
            h = self.m256.copy()
            h.update(adr.short() + x)
            return h.digest()[:self.n]
        return hashlib.shake_256(self.pkseed + adr.full() + x).digest(self.n)

    def F(self, adr, x):
        return self._small(adr, x)

    def T(self, adr, x):
        if self.p.sha2 and self.n > 16:
            h = self.m512.copy()
            h.update(adr.short() + x)
            return h.digest()[:self.n]
        return self._small(adr, x)

    def prf(self, adr):
        return self._small(adr, self.skseed)

    def prfmsg(self, opt, msg):
        n = self.n
        if not self.p.sha2:
            return feed(hashlib.shake_256(self.skprf + opt), msg).digest(n)
        return feed(hmac.new(self.skprf, opt, hashlib.sha256 if n == 16 else hashlib.sha512), msg).digest()[:n]

    def mlen(self):
        p = self.p
        return (p.k * p.t + 7) // 8 + (p.h - p.mh + 7) // 8 + (p.mh + 7) // 8

    def hmsg(self, R, msg, m=None):
        m = m or self.mlen()
        if not self.p.sha2:
            return feed(hashlib.shake_256(R + self.pkseed + self.root), msg).digest(m)
        H = hashlib.sha256 if self.n == 16 else hashlib.sha512
        seed = R + self.pkseed + feed(H(R + self.pkseed + self.root), msg).digest()
        out = b''
        c = 0
        while len(out) < m:
            out += H(seed + c.to_bytes(4, 'big')).digest()
            c += 1
        return out[:m]

    def position(self, dig):
        p = self.p
        a = (p.k * p.t + 7) // 8
        v = int.from_bytes(dig[:a], 'big')
        idx = [(v >> (8 * a - p.t * (i + 1))) & ((1 << p.t) - 1) for i in range(p.k)]
        b = (p.h - p.mh + 7) // 8
        tree = int.from_bytes(dig[a:a + b], 'big') & ((1 << (p.h - p.mh)) - 1)
        c = (p.mh + 7) // 8
        leaf = int.from_bytes(dig[a + b:a + b + c], 'big') & ((1 << p.mh) - 1)
        return idx, tree, leaf

    def digits(self, x):
        d = []
        for b in x:
            d += [b >> 4, b & 15]
        s = sum(15 - y for y in d)
        return d + [(s >> 8) & 15, (s >> 4) & 15, s & 15]

    def chain(self, layer, tree, leaf, i, x, s, e):
        for j in range(s, e):
            x = self.F(Adr(layer, tree, WOTS, leaf, i, j), x)
        return x

    def wleaf(self, layer, tree, leaf):
        n = self.p.wots
        x = b''.join(self.chain(layer, tree, leaf, i, self.prf(Adr(layer, tree, WOTSPRF, leaf, i, 0)), 0, 15) for i in range(n))
        return self.T(Adr(layer, tree, WOTSPK, leaf), x)

    def merkle(self, leaves, node, pos):
        """(root, auth path); node(height, index) -> address"""
        auth = []
        h = 0
        while len(leaves) > 1:
            auth.append(leaves[pos ^ 1])
            h += 1
            pos >>= 1
            leaves = [self.T(node(h, i), leaves[2 * i] + leaves[2 * i + 1]) for i in range(len(leaves) // 2)]
        return leaves[0], auth

    def xtree(self, layer, tree, pos):
        return self.merkle([self.wleaf(layer, tree, i) for i in range(1 << self.p.mh)], lambda h, i: Adr(layer, tree, TREE, 0, h, i), pos)

    def keygen(self, rnd):
        n = self.n
        self.setkeys(rnd[2 * n:3 * n], rnd[:n], rnd[n:2 * n])
        self.root = self.xtree(self.p.d - 1, 0, 0)[0]
        return rnd[:3 * n] + self.root

    def loadsk(self, sk):
        n = self.n
        self.setkeys(sk[2 * n:3 * n], sk[:n], sk[n:2 * n], sk[3 * n:])

    def sign(self, sk, msg, opt=None, R=None):
        """R: any randomiser makes a signature that verifies"""
        self.loadsk(sk)
        p = self.p
        if R is None:
            R = self.prfmsg(self.pkseed if opt is None else opt, msg)
        idx, tree, leaf = self.position(self.hmsg(R, msg))
        out = [R]
        roots = []
        for i in range(p.k):
            base = i << p.t
            sec = [self.prf(Adr(0, tree, FORSPRF, leaf, 0, base + j)) for j in range(1 << p.t)]
            leaves = [self.F(Adr(0, tree, FORSTREE, leaf, 0, base + j), sec[j]) for j in range(1 << p.t)]
            r, auth = self.merkle(leaves, lambda h, q: Adr(0, tree, FORSTREE, leaf, h, (base >> h) + q), idx[i])
            out += [sec[idx[i]]] + auth
            roots.append(r)
        x = self.T(Adr(0, tree, FORSPK, leaf), b''.join(roots))
        for l in range(p.d):
            d = self.digits(x)
            for i in range(p.wots):
                out.append(self.chain(l, tree, leaf, i, self.prf(Adr(l, tree, WOTSPRF, leaf, i, 0)), 0, d[i]))
            x, auth = self.xtree(l, tree, leaf)
            out += auth
            leaf = tree & ((1 << p.mh) - 1)
            tree >>= p.mh
        return b''.join(out)

    def head(self, sk, msg, opt=None):
        """the first two words of the signature"""
        self.loadsk(sk)
        R = self.prfmsg(self.pkseed if opt is None else opt, msg)
        idx, tree, leaf = self.position(self.hmsg(R, msg))
        return R + self.prf(Adr(0, tree, FORSPRF, leaf, 0, idx[0]))

    def fors(self, pk, msg, sig):
        """(FORS roots but the last, value before the last node of the last path, its address and side, tree, leaf)"""
        p, n = self.p, self.n
        self.setkeys(pk[:n], root=pk[n:])
        it = (sig[i:i + n] for i in range(0, len(sig), n))
        R = next(it)
        idx, tree, leaf = self.position(self.hmsg(R, msg))
        roots = []
        for i in range(p.k):
            x = self.F(Adr(0, tree, FORSTREE, leaf, 0, (i << p.t) + idx[i]), next(it))
            q = (i << p.t) + idx[i]
            for h in range(1, p.t + 1):
                a = next(it)
                last = x, Adr(0, tree, FORSTREE, leaf, h, q >> 1), q & 1
                x = self.T(last[1], x + a if q & 1 == 0 else a + x)
                q >>= 1
            roots.append(x)
        return roots, last, tree, leaf

    def resign(self, sk, msg, sig, node):
        """the signature with another last FORS node, and the one-time signature made to fit"""
        p, n = self.p, self.n
        roots, (x, adr, side), tree, leaf = self.fors(sk[2 * n:], msg, sig)
        self.loadsk(sk)
        x = self.T(adr, node + x if side else x + node)
        d = self.digits(self.T(Adr(0, tree, FORSPK, leaf), b''.join(roots[:-1]) + x))
        w = b''.join(self.chain(0, tree, leaf, i, self.prf(Adr(0, tree, WOTSPRF, leaf, i, 0)), 0, d[i]) for i in range(p.wots))
        at = n * (1 + p.k * (p.t + 1))
        return sig[:at - n] + node + w + sig[at + len(w):]

    def verify(self, pk, msg, sig):
        p, n = self.p, self.n
        if len(sig) != p.sig:
            return False
        roots, _, tree, leaf = self.fors(pk, msg, sig)
        it = (sig[i:i + n] for i in range(n * (1 + p.k * (p.t + 1)), len(sig), n))
        x = self.T(Adr(0, tree, FORSPK, leaf), b''.join(roots))
        for l in range(p.d):
            d = self.digits(x)
            tops = [self.chain(l, tree, leaf, i, next(it), d[i], 15) for i in range(p.wots)]
            x = self.T(Adr(l, tree, WOTSPK, leaf), b''.join(tops))
            q = leaf
            for h in range(1, p.mh + 1):
                a = next(it)
                x = self.T(Adr(l, tree, TREE, 0, h, q >> 1), x + a if q & 1 == 0 else a + x)
                q >>= 1
            leaf = tree & ((1 << p.mh) - 1)
            tree >>= p.mh
        return x == self.root
