"""Native batteries for the API: key generation, signing and verification of one parameter set against the reference."""
import re
import time
from . import prog, ref
from .native import Battery, Native, Found, message


def dropret(g):
    return re.sub(r' last=\d+', '', g)


class Scheme(Battery):
    def __init__(self, cfg, ps, seed, budget, deadline=float('inf')):
        Battery.__init__(self, cfg, seed)
        self.deadline = deadline
        self.ps = ps
        self.t0 = time.time()
        self.budget = budget
        self.keys = []

    class Two(object):
        """the sanitized build first, the fast one later on"""

        def __init__(self, cfg, first):
            self.a, self.b, self.cfg, self.left = first, None, cfg, 8

        def cmd(self, s, timeout=120):
            if self.left > 0:
                self.left -= 1
                return self.a.cmd(s, timeout)
            if self.b is None:
                self.b = Native(self.cfg, san=False, opt='-O2')
            return self.b.cmd(s, timeout)

        def close(self):
            self.a.close()
            if self.b:
                self.b.close()

    def late(self):
        return time.time() > min(self.t0 + self.budget, self.deadline) or len(self.found) >= self.limit

    def key(self):
        """a key pair by the reference; made again only now and then"""
        n = self.ps.n
        if self.keys and self.rnd.randrange(3):
            return self.keys[-1]
        rnd = self.edgy(3 * n)
        sk = ref.Sphincs(self.ps.name).keygen(rnd)
        self.keys.append((rnd, sk))
        return self.keys[-1]

    def pieces(self):
        r, n, ps = self.rnd, self.ps.n, self.ps
        k = r.randrange(9)
        if k == 0:
            return [1 << 20]
        if k == 1:
            return [1]
        if k == 2:
            return [n]
        if k == 3:
            return [n - 1, 1, 0]
        if k == 4:
            return [r.randrange(1, 3 * n)]
        if k == 5:
            return [0, r.randrange(1, ps.sig), 0, r.randrange(1, 2 * n)]
        if k == 6:
            return [r.randrange(1, 2 * n) for _ in range(5)]
        if k == 7:
            return [ps.sig, 1]
        return [ps.sig - 1, 1, 1]

    # ------------------------------------------------------------ key generation
    def keygen(self):
        n, nm = self.ps.n, self.ps.name
        e, d = 'ee' * 4 * n, 'dd' * 2 * n
        self.expect('keygen null - 1 0', '0 0 0 %s %s' % ('ee' * 128, 'dd' * 64), 'key generation without a parameter set')
        self.expect('keygen %s - 1 0' % nm, '0 0 0 %s %s' % (e, d), 'key generation without a random source')

        def failed(g):
            w = g.split()
            return (w[0], w[1], w[4]) if len(w) == 5 else g
        self.expect('keygen %s %s 1 1' % (nm, '55' * 3 * n), ('0', '0', d), 'key generation without a private key', failed)
        for m in ('!', '!!'):
            self.expect('keygen %s %s 1 0' % (nm, m), ('0', '1', d), 'key generation with a failing random source', failed)
            self.expect('keygen %s %s 0 0' % (nm, m), ('0', '1', d), 'key generation with a failing random source', failed)
        for i in range(12):
            if self.late():
                break
            rnd, sk = self.key()
            for wp in (1, 0):
                self.expect('keygen %s %s %d 0' % (nm, rnd.hex(), wp), '1 1 %d %s %s' % (3 * n, sk.hex(), sk[2 * n:].hex() if wp else d), 'key generation')

    def pick(self, sk):
        """message and randomness whose digest selects something at the edge"""
        ps, n, r = self.ps, self.ps.n, self.rnd
        s = ref.Sphincs(ps.name)
        s.loadsk(sk)
        msg = r.randbytes(r.choice([0, 1, 30, 100]))
        k = r.randrange(9)
        tb = ps.h - ps.mh
        last = (1 << ps.t) - 1
        which = r.randrange(ps.k)
        for _ in range(4000):
            opt = r.randbytes(n)
            idx, tree, leaf = s.position(s.hmsg(s.prfmsg(opt, msg), msg))
            if (k == 0 and last in idx or k == 1 and 0 in idx or k == 2 and leaf == (1 << ps.mh) - 1 or k == 3 and leaf == 0
                    or k == 4 and tree >> tb - 8 == 255 or k == 5 and tree & (1 << ps.mh) - 1 == (1 << ps.mh) - 1
                    or k == 6 and tree >> tb - 8 == 0 or k == 7 and len(set(idx)) < ps.k - (ps.t < 10)
                    or k == 8 and (idx[which] >> ps.t - 8 == 255 if ps.t >= 8 else idx[which] == last)):
                break
        return msg, opt

    # ------------------------------------------------------------ signing
    def part(self, sig, want):
        """what the first wrong word is"""
        ps, n = self.ps, self.ps.n
        if len(sig) != len(want):
            return 'length'
        for i in range(0, len(want), n):
            if sig[i:i + n] != want[i:i + n]:
                w = i // n
                if w == 0:
                    return 'randomiser'
                w -= 1
                if w < ps.k * (ps.t + 1):
                    return 'path' if w % (ps.t + 1) else 'secret'
                w = (w - ps.k * (ps.t + 1)) % (ps.wots + ps.mh)
                return 'wots' if w < ps.wots else 'path'
        return None

    def heads(self, kinds=None, rounds=150):
        """randomiser and first secret for many messages, keys and answers of the random source"""
        ps, n, r = self.ps, self.ps.n, self.rnd
        sk = r.randbytes(4 * n)
        t0 = time.time()
        fixed = [bytes(n), b'\xff' * n, sk[2 * n:3 * n], sk[3 * n:], sk[:n], sk[n:2 * n], bytes(n - 1) + b'\1', b'\1' + bytes(n - 1), b'\x80' * n]
        for i in range(rounds):
            if self.late() or time.time() - t0 > 0.3 * self.budget:
                break
            mode, k2, msg = 'ok', sk, r.randbytes(self.msglen(600))
            if i < len(fixed):
                opt = fixed[i]
            else:
                opt = self.edgy(n)
                mode = r.choice(['ok', 'ok', 'ok', '-', '!', '!!'])
                if r.randrange(3) == 0:
                    msg = r.choice([bytes(len(msg)), b'\xff' * len(msg), opt + msg, sk[2 * n:] + msg, r.randbytes(i)])
                if r.randrange(3) == 0:
                    # nothing here depends on the tree under the root
                    k2 = b''.join(r.choice([sk[j:j + n], self.edgy(n)]) for j in range(0, 4 * n, n))
            want = ref.Sphincs(ps.name).head(k2, msg, opt if mode == 'ok' else None)
            tail = {'-': '0 0', 'ok': '1 %d' % n}.get(mode, '1 %d' % n) + ' ' + want.hex()
            cmd = 'begin %s %s %s %s %d' % (ps.name, k2.hex(), msg.hex() or '_', opt.hex() if mode == 'ok' else mode, 2 * n)
            self.runs += 1
            got = self.nat.cmd(cmd)
            if got != tail:
                w = got.split()
                p = 'crash' if len(w) != 3 else 'randomiser' if w[:2] != tail.split()[:2] or w[2][:2 * n] != want[:n].hex() else 'secret'
                if kinds is None or p in kinds:
                    self.found.append(Found(self.cfg, 'harness.c', cmd, tail, got, 'first wrong signature word: ' + p))

    def sign(self, kinds=None, rounds=40):
        ps, n = self.ps, self.ps.n
        if kinds is None or 'secret' in kinds or 'randomiser' in kinds:
            self.heads(kinds)
        for i in range(rounds):
            if i > 1 and self.late():
                break
            rnd, sk = self.key()
            msg = self.rnd.randbytes(self.msglen())
            mode = self.rnd.choice(['ok', 'ok', '-', '!', '!!'])
            r1 = self.rnd.randrange(4)
            opt = self.edgy(n)
            if r1 < 2:
                mode = 'ok'
                msg, opt = self.pick(sk)
            want = ref.Sphincs(ps.name).sign(sk, msg, opt if mode == 'ok' else None)
            tail = {'-': '0 0', 'ok': '1 %d' % n}.get(mode, '1 %d' % n) + ' ' + want.hex()
            cs = [self.pieces() for _ in range(1 if kinds else 3)]
            for c in cs:
                cmd = 'sign %s %s %s %s %s' % (ps.name, sk.hex(), msg.hex() or '_', opt.hex() if mode == 'ok' else mode, ' '.join(map(str, c)))
                if kinds is None:
                    self.expect(cmd, tail, 'signature of %d byte message, random source %s, pieces %s' % (len(msg), mode, c))
                    continue
                self.runs += 1
                got = self.nat.cmd(cmd)
                if got != tail:
                    try:
                        p = self.part(bytes.fromhex(got.split()[-1]), want)
                    except ValueError:
                        p = 'crash'
                    if p in kinds:
                        self.found.append(Found(self.cfg, 'harness.c', cmd, tail, got, 'first wrong signature word: ' + p))

    # chunking against the signer's own one-piece answer
    def chunked(self, rounds=40):
        ps = self.ps
        for i in range(rounds):
            if i > 1 and self.late():
                break
            rnd, sk = self.key()
            msg = self.rnd.randbytes(self.rnd.randrange(100))
            pre = 'sign %s %s %s - ' % (ps.name, sk.hex(), msg.hex() or '_')
            one = self.nat.cmd(pre + str(ps.sig))
            w = one.split()
            if len(w) != 3 or len(w[2]) != 2 * ps.sig:
                self.found.append(Found(self.cfg, 'harness.c', pre + str(ps.sig), '0 0 and %d bytes' % ps.sig, one, 'one request for the whole signature'))
                return
            for j in range(6):
                c = self.pieces()
                if j == 0 and i < 3:
                    c = ([0xffffffff], [1, 1 << 31], [ps.n + 3, 0x80000001])[i]
                self.expect(pre + ' '.join(map(str, c)), one, 'signature in pieces %s' % c)

    # ------------------------------------------------------------ verification
    def signature(self):
        rnd, sk = self.key()
        if self.rnd.randrange(2):
            msg, opt = self.pick(sk)
        else:
            msg, opt = self.rnd.randbytes(self.msglen()), self.edgy(self.ps.n)
        R = None
        if self.rnd.randrange(4) == 0:
            R = self.rnd.choice([bytes(self.ps.n), b'\xff' * self.ps.n, sk[2 * self.ps.n:3 * self.ps.n], self.edgy(self.ps.n)])
        return sk, msg, ref.Sphincs(self.ps.name).sign(sk, msg, opt, R)

    def vcmd(self, pk, msg, sig, c):
        return 'verify %s %s %s %s %s' % (self.ps.name, pk.hex(), msg.hex() or '_', sig.hex() or '_', ' '.join(map(str, c)))

    def verify(self, rounds=30, bad=30, chunks=4):
        ps, n, r = self.ps, self.ps.n, self.rnd
        for i in range(rounds):
            if i > 1 and self.late():
                break
            if i == 1:
                self.nearroot()
            sk, msg, sig = self.signature()
            pk = sk[2 * n:]
            for _ in range(chunks):
                c = self.pieces()
                if c in ([ps.sig, 1], [ps.sig - 1, 1, 1]):
                    c = [0, ps.sig, 0]
                self.expect(self.vcmd(pk, msg, sig, c), '1 again=1', 'valid signature in pieces %s' % c, dropret)
            for _ in range(bad):
                if self.late():
                    break
                s2, m2, p2 = bytearray(sig), msg, pk
                k = r.randrange(9)
                if k <= 2:
                    s2[r.randrange(len(s2))] ^= 1 << r.randrange(8)
                    what = 'one bit changed'
                elif k == 3:
                    j = r.randrange(len(s2) // n)
                    s2[j * n:j * n + n] = r.randbytes(n)
                    what = 'one word changed'
                elif k == 4:
                    s2 = s2[:r.choice([0, 1, n, len(s2) - 1, len(s2) - n, r.randrange(len(s2))])]
                    what = 'truncated'
                elif k == 5:
                    s2 += r.randbytes(r.choice([1, 2, n, 300, 256, 4096]))
                    what = 'followed by more bytes'
                elif k == 6:
                    m2 = msg + b'\0' if r.randrange(2) or not msg else msg[:-1]
                    what = 'another message'
                elif k == 7:
                    p2 = bytearray(pk)
                    p2[r.randrange(len(p2))] ^= 1 << r.randrange(8)
                    p2 = bytes(p2)
                    what = 'another public key'
                else:
                    j = r.randrange(len(s2) // n - 1)
                    s2[j * n:j * n + 2 * n] = s2[j * n + n:j * n + 2 * n] + s2[j * n:j * n + n]
                    what = 'two words exchanged'
                ok = ref.Sphincs(ps.name).verify(p2, m2, bytes(s2))
                c = self.pieces()
                self.expect(self.vcmd(p2, m2, s2, c), '%d again=%d' % (ok, ok), 'signature %s, in pieces %s' % (what, c), dropret)

    def nearroot(self):
        """signatures whose computation ends in a root that differs little from the one in the public key"""
        ps, n, r = self.ps, self.ps.n, self.rnd
        rnd, sk = self.key()
        msg = r.randbytes(self.msglen())
        offs = [(1 << r.randrange(8) << 8 * i).to_bytes(n, 'little') for i in range(n)]
        for _ in range(n // 4):
            a, b = r.sample(range(n), 2)
            m = bytearray(n)
            m[a] = m[b] = r.choice([0x80, 0xff, 1])
            offs.append(bytes(m))
        r.shuffle(offs)
        for m in offs:
            if self.late():
                break
            # the stored root goes into the message hash only: the tree keeps its own
            k2 = sk[:3 * n] + bytes(x ^ y for x, y in zip(sk[3 * n:], m))
            w = self.nat.cmd('sign %s %s %s - %d' % (ps.name, k2.hex(), msg.hex() or '_', ps.sig)).split()
            if len(w) != 3 or len(w[2]) != 2 * ps.sig:
                break
            sig, pk = bytes.fromhex(w[2]), k2[2 * n:]
            ok = ref.Sphincs(ps.name).verify(pk, msg, sig)
            self.expect(self.vcmd(pk, msg, sig, [ps.sig]), '%d again=%d' % (ok, ok), 'signature ending in a root that differs in %s' % m.hex(), dropret)

    def extremes(self):
        """valid signatures whose lowest one-time signature has an extreme checksum"""
        from .extreme import EXTREME, MSG
        ps, n = self.ps, self.ps.n
        if ps.name not in EXTREME:
            return
        sk, known = EXTREME[ps.name]
        sk = bytes.fromhex(sk)
        w = self.nat.cmd('sign %s %s %s - %d' % (ps.name, sk.hex(), MSG.hex(), ps.sig)).split()
        s = ref.Sphincs(ps.name)
        sig = bytes.fromhex(w[2]) if len(w) == 3 and len(w[2]) == 2 * ps.sig else b''
        if not s.verify(sk[2 * n:], MSG, sig):
            # the signer under test is wrong; make the signature without it
            sig = s.sign(sk, MSG)
        for c, i in known:
            t = s.resign(sk, MSG, sig, i.to_bytes(4, 'big') + bytes(n - 4))
            ok = s.verify(sk[2 * n:], MSG, t)
            self.expect(self.vcmd(sk[2 * n:], MSG, t, [ps.sig]), '%d again=%d' % (ok, ok), 'valid signature whose one-time checksum is %d' % c, dropret)

    # pieces against the one-piece verdict of the code itself; length is strict
    def joined(self, rounds=20):
        ps, n, r = self.ps, self.ps.n, self.rnd
        for i in range(rounds):
            if i > 1 and self.late():
                break
            sk, msg, sig = self.signature()
            pk = sk[2 * n:]
            if i < 6:
                t = (256, 65536, 1 << 20, n, 512, 128)[i]
                for s3 in (sig + bytes(t), sig + r.randbytes(t), sig + (sig * (t // len(sig) + 1))[-t:]):
                    self.expect(self.vcmd(pk, msg, s3, [len(s3)]), '0 again=0', 'signature followed by %d bytes in the same piece' % t, dropret)
            for _ in range(12):
                s2 = bytearray(sig)
                if r.randrange(2):
                    s2[r.randrange(len(s2))] ^= 1
                one = dropret(self.nat.cmd(self.vcmd(pk, msg, s2, [ps.sig])))
                c = self.pieces()
                if c in ([ps.sig, 1], [ps.sig - 1, 1, 1]):
                    c = [0, ps.sig, 0]
                self.expect(self.vcmd(pk, msg, s2, c), one, 'verdict in pieces %s' % c, dropret)
                for s3, what in ((sig[:-r.randrange(1, 2 * n)], 'truncated'), (sig + r.randbytes(r.randrange(1, n + 2)), 'followed by more')):
                    c = self.pieces()
                    self.expect(self.vcmd(pk, msg, s3, c), '0 again=0', 'signature %s in pieces %s' % (what, c), dropret)
                    self.expect(self.vcmd(pk, msg, s3, [0, len(sig), 0, 1, 0]), '0 again=0', 'signature %s' % what, dropret)

    # ------------------------------------------------------------ round trip
    def roundtrip(self, rounds=40):
        ps, n, r = self.ps, self.ps.n, self.rnd
        for i in range(rounds):
            if i > 1 and self.late():
                break
            rnd = self.edgy(3 * n)
            w = self.nat.cmd('keygen %s %s 1 0' % (ps.name, rnd.hex())).split()
            if len(w) != 5 or w[0] != '1':
                self.found.append(Found(self.cfg, 'harness.c', 'keygen %s %s 1 0' % (ps.name, rnd.hex()), 'a key pair', ' '.join(w), 'key generation'))
                return
            sk, pk = w[3], w[4]
            for _ in range(3):
                msg = r.randbytes(self.msglen())
                c = self.pieces()
                cmd = 'sign %s %s %s %s %s' % (ps.name, sk, msg.hex() or '_', r.choice(['-', r.randbytes(n).hex()]), ' '.join(map(str, c)))
                g = self.nat.cmd(cmd)
                sig = g.split()[-1] if g.split() else ''
                if not re.fullmatch('[0-9a-f]+', sig):
                    self.found.append(Found(self.cfg, 'harness.c', cmd, 'a signature', g, 'signing'))
                    return
                c = self.pieces()
                if len(c) > 1 and c[0] >= ps.sig - 1:
                    c = [ps.sig]
                self.expect('verify %s %s %s %s %s' % (ps.name, pk, msg.hex() or '_', sig, ' '.join(map(str, c))), '1 again=1',
                            'signature made by "%s", in pieces %s' % (cmd[:200], c), dropret)

    # ------------------------------------------------------------ the rest
    def misuse(self, rounds=3):
        n = self.ps.n
        for i in range(rounds):
            if i and self.late():
                break
            sk, msg, sig = self.signature()
            self.expect('misuse %s %s %s %s %s' % (self.ps.name, sk.hex(), sk[2 * n:].hex(), msg.hex() or '_', sig.hex()), 'done', 'contexts in the wrong phase')

    def sizes(self):
        ps = self.ps
        self.expect('sizes ' + ps.name, '%d %d %d' % (4 * ps.n, 2 * ps.n, ps.sig), 'advertised sizes')

    def touch(self, rounds=1000):
        """every call on changing inputs, whatever it answers: only for the sanitizers to watch"""
        ps, n, r = self.ps, self.ps.n, self.rnd

        def go(c):
            self.runs += 1
            g = self.nat.cmd(c)
            if g.startswith('CRASH') or 'WROTE-BEYOND' in g:
                self.found.append(Found(self.cfg, 'harness.c', c, 'no access outside the buffers', g, 'memory'))
            return g.split()
        for i in range(rounds):
            if i and self.late():
                return
            if i % 4 == 0:
                for x in ('!!', '!', self.edgy(3 * n).hex()):
                    w = go('keygen %s %s %d 0' % (ps.name, x, r.randrange(2)))
                if self.found:
                    return
                sk = bytes.fromhex(w[3]) if len(w) == 5 and len(w[3]) == 8 * n else r.randbytes(4 * n)
            msg = r.randbytes(self.msglen())
            sig = b''
            if i % 4 == 1:
                # anything at all: verification has to stay within bounds
                sig = self.edgy(ps.sig)
            else:
                w = go('sign %s %s %s %s %s' % (ps.name, sk.hex(), msg.hex() or '_', r.choice(['-', '!!', self.edgy(n).hex()]), ' '.join(map(str, self.pieces()))))
                if self.found:
                    return
                if w and re.fullmatch('[0-9a-f]+', w[-1]) and len(w[-1]) % 2 == 0:
                    sig = bytes.fromhex(w[-1])
            for s in (sig, sig[:r.randrange(len(sig) + 1)], sig + r.randbytes(r.randrange(1, 2 * n))):
                go(self.vcmd(sk[2 * n:], msg, s, self.pieces()))
                if self.found or i and self.late():
                    return
            if len(sig) == ps.sig:
                go('misuse %s %s %s %s %s' % (ps.name, sk.hex(), sk[2 * n:].hex(), msg.hex() or '_', sig.hex()))

    def reuse(self, rounds=4):
        """two users one after the other in the same buffers"""
        sets = [q for q in self.cfg.sets() if q.size.endswith('f')]
        for i in range(rounds):
            if i and self.late():
                break
            out, cmd = [], 'reuse'
            for q in (self.ps, self.ps if i % 2 == 0 else self.rnd.choice(sets)):
                rnd, msg = self.rnd.randbytes(3 * q.n), self.rnd.randbytes(self.rnd.randrange(1, 150))
                sk = ref.Sphincs(q.name).keygen(rnd)
                cmd += ' %s %s %s' % (q.name, rnd.hex(), msg.hex())
                out.append((sk.hex(), ref.Sphincs(q.name).sign(sk, msg, None).hex()))
            want = ' '.join([a for p in out for a in p] + [p[0] for p in out] + ['110011'])
            self.expect(cmd, want, 'two keys one after the other in the same buffers')

    def inter(self, rounds=4):
        """two signers in turns: the same bytes as one after the other"""
        ps = self.ps
        sets = [q for q in self.cfg.sets() if q.size.endswith('f')]
        for i in range(rounds):
            if i and self.late():
                break
            q = self.rnd.choice([ps] + sets)
            a, b = self.key()[1], ref.Sphincs(q.name).keygen(self.rnd.randbytes(3 * q.n))
            ma, mb = self.rnd.randbytes(40), self.rnd.randbytes(70)
            want = []
            for s, k, m in ((ps, a, ma), (q, b, mb)):
                g = self.nat.cmd('sign %s %s %s - %d' % (s.name, k.hex(), m.hex(), s.sig)).split()
                want.append(g[-1] if g else '')
            for za, zb in ((ps.n, q.n), (self.rnd.randrange(1, 100), self.rnd.randrange(1, 100)), (1, 7777)):
                self.expect('inter %s %s %s %s %s %s %d %d' % (ps.name, a.hex(), ma.hex(), q.name, b.hex(), mb.hex(), za, zb), ' '.join(want),
                            'two signers in turns of %d and %d bytes' % (za, zb))


def task(cfgname, setname, what, seed, budget, san=False, deadline=float('inf')):
    """-> (list of found, runs)"""
    if time.time() > deadline:
        return [], 0
    b = Scheme(prog.CONFIGS[cfgname], prog.BYNAME[setname], seed, budget / len(what), deadline)
    if not san:
        b.nat = Scheme.Two(b.cfg, b.nat)
    try:
        for w in what:
            b.t0 = time.time()
            if type(w) is str:
                getattr(b, w)()
            else:
                getattr(b, w[0])(*w[1:])
            if b.found:
                break
    finally:
        b.nat.close()
    return b.found, b.runs


NATIVE = 600       # seconds after the start at which native runs have to come to an end


def gather(jobs, rep, enough=3):
    """results of [(function, arguments)] in parallel, until something is found or time is up"""
    import multiprocessing
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from .check import stop
    found, runs = [], 0
    ex = ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork'))
    now = True
    try:
        fs = [ex.submit(f, *a) for f, a in jobs]
        for f in as_completed(fs):
            try:
                a, b = f.result()
                found += a
                runs += b
            except Exception as e:
                rep.notes.append('native battery: %s' % str(e)[:300])
            if len(found) >= enough:
                break
        else:
            now = False
    finally:
        stop(ex, now)
    return found, runs


def replay(what, cfgs=('default',), budget=60, sets=None, san=False, enough=3, limit=NATIVE):
    """replay function of a check: the batteries of all parameter sets, in parallel"""
    def rp(rep, seed, tier):
        from .check import T0
        jobs = []
        dead = T0 + limit * (4 if tier == 'thorough' else 1)
        for c in cfgs:
            for q in sorted(prog.CONFIGS[c].sets(), key=lambda q: q.size[-1] == 'f'):
                if not sets or q.name in sets:
                    jobs.append((task, (c, q.name, list(what), seed, budget * (2 if tier == 'thorough' else 1), san, dead)))
        return gather(jobs, rep, enough)
    return rp


# ------------------------------------------------------------------ the same calls in two configurations
def across1(cfgname, seed, budget, deadline):
    import random
    if time.time() > deadline:
        return [], 0
    cfg = prog.CONFIGS[cfgname]
    base = Native(prog.CONFIGS['default'], san=False, opt='-O2')
    other = Native(cfg, san=False, opt='-O2')
    found, runs = [], 0
    r = random.Random(seed)
    t0 = time.time()
    sets = sorted(cfg.sets(), key=lambda q: q.size[-1] != 'f')
    try:
        i = 0
        while (i < len(sets) or time.time() - t0 < budget) and len(found) < 3 and time.time() < deadline:
            p = sets[i % len(sets)]
            i += 1
            cmds = ['sizes ' + p.name, 'keygen %s %s 1 0' % (p.name, r.randbytes(3 * p.n).hex())]
            k = 0
            while k < len(cmds):
                c = cmds[k]
                k += 1
                a, b = base.cmd(c), other.cmd(c)
                runs += 1
                if a != b:
                    found.append(Found(cfg, 'harness.c', c, a, b, 'the default configuration answers otherwise'))
                    break
                w = a.split()
                if c.startswith('keygen') and len(w) == 5:
                    sk, pk = w[3], w[4]
                    for opt in ('-', r.randbytes(p.n).hex()):
                        msg = r.randbytes(r.randrange(1, 300))
                        cmds.append('sign %s %s %s %s %d' % (p.name, sk, msg.hex(), opt, r.choice([p.sig, 1, 77])))
                elif c.startswith('sign') and len(w) >= 3 and len(w[-1]) == 2 * p.sig:
                    s = bytearray.fromhex(w[-1])
                    cmds.append('verify %s %s %s %s %d' % (p.name, pk, c.split()[3], s.hex(), r.choice([p.sig, 1, 77])))
                    s[r.randrange(len(s))] ^= 1
                    cmds.append('verify %s %s %s %s %d' % (p.name, pk, c.split()[3], s.hex(), p.sig))
    finally:
        base.close()
        other.close()
    return found, runs


def across(cfgs, seed, budget, rep, limit=NATIVE):
    from .check import T0
    return gather([(across1, (c, seed, budget, T0 + limit)) for c in cfgs], rep)
