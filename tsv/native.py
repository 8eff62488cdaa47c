"""Replays on the real code: the library is compiled from the working tree (with address and undefined
behaviour sanitizers) and driven over concrete inputs; the answers are compared with the reference."""
import os
import random
import shutil
import subprocess
import time
import hashlib
import tempfile
import atexit
from . import prog, ref

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='tsv')
        pid = os.getpid()
        atexit.register(lambda d=_tmp: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return _tmp


class BuildError(Exception):
    pass


class Native(object):
    def __init__(self, cfg, src='harness.c', san=True, opt='-O1'):
        self.cfg = cfg
        self.src = src
        self.exe = os.path.join(tmpdir(), '%s_%s_%d_%d' % (src.replace('.', '_'), cfg.name, san, os.getpid()))
        flags = ['-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] if san else []
        self.flags = flags
        srcs = [os.path.join(HERE, 'native', src)] + prog.sources()
        cmd = ['gcc', opt, '-w', '-I' + prog.REPO] + flags + list(cfg.flags) + ['-o', self.exe] + srcs
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-2000:])
        self.p = None

    def start(self):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
        self.err = open(self.exe + '.err', 'w+')
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, env=env)

    def cmd(self, s, timeout=120):
        if self.p is None or self.p.poll() is not None:
            self.start()
        import threading
        late = []
        t = threading.Timer(timeout, lambda p=self.p: (late.append(1), p.kill()))
        t.start()
        try:
            self.p.stdin.write(s + '\n')
            self.p.stdin.flush()
            o = self.p.stdout.readline()
        except BrokenPipeError:
            o = ''
        finally:
            t.cancel()
        if not o.endswith('\n'):
            self.p.wait()
            self.err.seek(0)
            e = self.err.read()
            self.p = None
            if late:
                return 'TIMEOUT'
            lines = [x for x in e.split('\n') if 'ERROR' in x or 'runtime error' in x or 'WRITE' in x or 'READ' in x or x.strip().startswith('#')]
            return 'CRASH ' + ' | '.join(lines[:6])
        return o.strip()

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None


def pattern(seed):
    out = bytearray()
    s = seed
    for _ in range(65536):
        s = (s * 1664525 + 1013904223) & 0xffffffff
        out.append(s >> 24)
    return bytes(out)


_pats = {}


def message(seed, n):
    p = _pats.get(seed)
    if p is None:
        p = _pats[seed] = pattern(seed)
    return (p * (n // 65536 + 1))[:n]


class Found(object):
    """a failing concrete input"""

    def __init__(self, cfg, src, cmd, want, got, what):
        self.cfg, self.src, self.cmd, self.want, self.got, self.what = cfg, src, cmd, want, got, what

    def asdict(self):
        return {'config': self.cfg.name, 'flags': list(self.cfg.flags), 'driver': 'native/' + self.src, 'command': self.cmd,
                'expected': self.want, 'got': self.got, 'what': self.what}


class Battery(object):
    def __init__(self, cfg, seed=1, limit=3, stop=float('inf')):
        self.cfg = cfg
        self.rnd = random.Random(seed)
        self.found = []
        self.limit = limit
        self.stop = stop
        self.runs = 0
        self.nat = Native(cfg)

    def expect(self, cmd, want, what, norm=None, src=None):
        if len(self.found) >= self.limit or time.time() > self.stop:
            return True
        self.runs += 1
        huge = cmd.startswith('big ') or src == 'roles.c' and ' z' in cmd
        got = self.nat.cmd(cmd, 300) if huge else self.nat.cmd(cmd)
        if huge and got in ('TIMEOUT', 'no memory'):
            return True
        if norm:
            got = norm(got)
        if got != want:
            self.found.append(Found(self.cfg, src or 'harness.c', cmd, want, got, what))
            return False
        return True

    def edgy(self, n):
        """random bytes, now and then with zero or 255 among them"""
        r = self.rnd
        k = r.randrange(8)
        if k < 5:
            return r.randbytes(n)
        b = bytearray(r.randbytes(n)) if k < 7 else bytearray([r.choice([0, 255, 128, 1])] * n)
        if k < 7:
            for i in range(n):
                if r.randrange(4) == 0:
                    b[i] = r.choice([0, 0, 255, 128, 127, 1])
        return bytes(b)

    def edgyint(self, bits):
        r = self.rnd
        return r.choice([r.getrandbits(bits), r.getrandbits(bits), 0, 1, (1 << bits) - 1, 1 << (bits - 1), r.getrandbits(bits) >> r.randrange(bits)])

    def msglen(self, most=2000):
        r = self.rnd
        if r.randrange(6):
            return r.choice([0, 1, 33, 64, r.randrange(most), r.randrange(most)])
        return r.choice([4095, 4096, 4097, r.randrange(4096, 9000), 65535, 65536, 65536 + r.randrange(1, 300), r.randrange(9000, 140000)])

    def plain(self):
        """the fast build instead of the sanitized one"""
        self.nat.close()
        self.nat = Native(self.cfg, self.nat.src, san=False, opt='-O2')

    def oneblow(self, alg):
        """one huge piece"""
        H = hashlib.sha256 if alg == 'sha256' else hashlib.sha512 if alg == 'sha512' else hashlib.shake_256
        p = message(3, 65536)
        for L in ((1 << 29) + 77, (1 << 32) + 13):
            if self.found:
                return
            h = H()
            for _ in range(L // 65536):
                h.update(p)
            h.update(p[:L % 65536])
            self.expect('big %s 3 %d' % (alg, L), h.hexdigest(64) if alg == 'shake' else h.hexdigest(), 'digest of %d bytes in one piece' % L)

    # ------------------------------------------------------------ hashes
    def chunks(self, L):
        r = self.rnd
        k = r.randrange(5)
        if k == 0:
            return [max(1, L)]
        if k == 1:
            return [1]
        if k == 2:
            return [0, r.randrange(1, 200), r.randrange(0, 140)]
        return [r.randrange(0, 150) for _ in range(r.randrange(1, 5))] + [r.randrange(1, 70)]

    def sha2(self, alg):
        H = hashlib.sha256 if alg == 'sha256' else hashlib.sha512
        blk = 64 if alg == 'sha256' else 128
        w = 4 if alg == 'sha256' else 8
        sizes = list(range(0, 3 * blk + 2)) + [self.rnd.randrange(3 * blk, 4000) for _ in range(60)] + [65535, 65536, 70001, 1 << 21]
        for L in sizes:
            msg = message(3, L)
            for rep in range(3 if L < 3 * blk else 2):
                n = self.rnd.choice([0] + list(range(w, H().digest_size + 1, w)))
                c = self.chunks(L) if L < 100000 else [self.rnd.randrange(1, 60000)]
                if not self.expect('hash %s %d 3 %d %s' % (alg, n, L, ' '.join(map(str, c))), H(msg).digest()[:n or None].hex(), 'digest of %d bytes in pieces %s' % (L, c)):
                    break
            if L >= blk and L < 1000:
                c = self.chunks(L)
                if not any(c):
                    c = [7]
                self.expect('mid %s 3 %d %s' % (alg, L, ' '.join(map(str, c))), H(msg).hexdigest(), 'digest of %d bytes through a saved chaining value' % L)
        for L in (blk * 2 + 1, 5 * blk - 9):
            for a in range(0, blk + 1):
                self.expect('hash %s 0 3 %d %d %d' % (alg, L, a, L), H(message(3, L)).hexdigest(), 'digest of %d bytes cut after %d' % (L, a))
        if not self.found:
            # past 2^32 bits
            L = (1 << 29) + 77
            h = H()
            p = message(3, 65536)
            for _ in range(L // 65536):
                h.update(p)
            h.update(p[:L % 65536])
            nat = self.nat
            self.nat = Native(self.cfg, san=False, opt='-O2')
            self.expect('hash %s 0 3 %d 65536' % (alg, L), h.hexdigest(), 'digest of %d bytes' % L)
            self.oneblow(alg)
            self.nat.close()
            self.nat = nat

    def shake(self):
        for L in list(range(0, 280)) + [self.rnd.randrange(280, 3000) for _ in range(40)] + [65536, 100001]:
            msg = message(5, L)
            for rep in range(2):
                c = self.chunks(L) if L < 60000 else [self.rnd.randrange(1, 60000)]
                out = self.rnd.choice([0, 1, 16, 32, 135, 136, 137, 272, 273, self.rnd.randrange(0, 700)])
                o = self.chunks(out)
                if not any(o):
                    o = [3]
                self.expect('shake 5 %d %d %s 999999 %s' % (L, out, ' '.join(map(str, c)), ' '.join(map(str, o))),
                            hashlib.shake_256(msg).hexdigest(out), 'SHAKE256 of %d bytes in pieces %s, output pieces %s' % (L, c, o), lambda g: g.replace('_', ''))
        for a in range(0, 138):
            self.expect('shake 5 300 400 %d 300 999999 %d 400' % (a, a), hashlib.shake_256(message(5, 300)).hexdigest(400), 'SHAKE256 cut after %d' % a, lambda g: g.replace('_', ''))
        if not self.found:
            self.plain()
            self.oneblow('shake')

    def hashes(self, which):
        if 'SHA256' in which:
            self.sha2('sha256')
        if 'SHA512' in which:
            self.sha2('sha512')
        if 'SHAKE' in which:
            self.shake()

    # ------------------------------------------------------------ roles
    def huge(self, name, which):
        """a message of more than 4 GiB through the message roles"""
        keep = self.nat
        self.nat = Native(self.cfg, 'roles.c', san=False, opt='-O2')
        p = prog.BYNAME[name]
        n, L = p.n, (1 << 32) + 5
        try:
            key, x = self.edgy(4 * n), self.edgy(n)
            s = ref.Sphincs(name, key[2 * n:3 * n], key[:n], key[n:2 * n], key[3 * n:])
            pre = '%s %s' % (name, key.hex())
            if 'prf_msg' in which:
                self.expect('prf_msg %s %s z%d' % (pre, x.hex(), L), s.prfmsg(x, L).hex(), 'PRF_msg of %s, %d byte message' % (name, L), src='roles.c')
            if 'hash_msg' in which:
                self.expect('hash_msg %s 49 %s z%d' % (pre, x.hex(), L), s.hmsg(x, L, 49).hex(), 'H_msg of %s, %d byte message' % (name, L), src='roles.c')
        finally:
            self.nat.close()
            self.nat = keep

    def roles(self, which, sets=None):
        """the hash roles through the functions of the parameter sets"""
        keep = self.nat
        self.nat = Native(self.cfg, 'roles.c')
        r = self.rnd
        src = 'roles.c'
        try:
            for p in self.cfg.sets():
                if sets and p.name not in sets:
                    continue
                n = p.n
                for rep in range(16):
                    key = self.edgy(4 * n)
                    s = ref.Sphincs(p.name, key[2 * n:3 * n], key[:n], key[n:2 * n], key[3 * n:])
                    a = ref.Adr(r.randrange(256), self.edgyint(64), r.randrange(7), self.edgyint(32), self.edgyint(32), self.edgyint(32))
                    ab = (a.short() if p.sha2 else a.full()).hex()
                    x = self.edgy(n)
                    pre = '%s %s' % (p.name, key.hex())
                    if 'prf' in which:
                        self.expect('prf %s %s' % (pre, ab), s.prf(a).hex(), 'PRF of %s' % p.name, src=src)
                    if 'f' in which:
                        w = s.F(a, x).hex()
                        self.expect('f %s %s %s' % (pre, ab, x.hex()), w + ' ' + w, 'F of %s' % p.name, src=src)
                    if 't' in which:
                        for k in sorted(set([2, p.k, p.wots, r.randrange(1, 68), 3])):
                            x = self.edgy(n * k)
                            for big in (0, 1):
                                self.expect('t %s %s %d %s' % (pre, ab, big, x.hex()), s.T(a, x).hex(), 'T of %s on %d inputs' % (p.name, k), src=src)
                    x = self.edgy(n)
                    lens = list(range(0, 300)) if rep == 0 else [r.randrange(0, 3000) for _ in range(40)]
                    if rep == 1:
                        lens += [4095, 4096, 4097, 5000, 8191, 8192, 8200, 16385, 32768, 65535, 65536, 65541, 70000, 131077]
                    if rep > 3:
                        lens = []
                    for L in lens:
                        m = self.edgy(L)
                        if 'prf_msg' in which:
                            self.expect('prf_msg %s %s %s' % (pre, x.hex(), m.hex() or '_'), s.prfmsg(x, m).hex(), 'PRF_msg of %s, %d byte message' % (p.name, L), src=src)
                        if 'hash_msg' in which:
                            self.expect('hash_msg %s 49 %s %s' % (pre, x.hex(), m.hex() or '_'), s.hmsg(x, m, 49).hex(), 'H_msg of %s, %d byte message' % (p.name, L), src=src)
        finally:
            self.nat.close()
            self.nat = keep
