"""Searches last FORS nodes for which the value under the one-time signature has an extreme checksum, for a fixed key
and message of each parameter set, and writes tsv/extreme.py.  Everything is deterministic; run by hand only."""
import hashlib
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from tsv import prog, ref                                                           # noqa: E402

TRIES = int(sys.argv[1]) if len(sys.argv) > 1 else 1 << 22
TAB = bytes(30 - (b >> 4) - (b & 15) for b in range(256))
MSG = b'extreme'


def search(ps):
    n = ps.n
    r = ref.Sphincs(ps.name)
    sk = r.keygen(bytes(range(1, 3 * n + 1)))
    sig = r.sign(sk, MSG)
    roots, (x, adr, side), tree, leaf = r.fors(sk[2 * n:], MSG, sig)
    pk = ref.Adr(0, tree, ref.FORSPK, leaf)
    head = b''.join(roots[:-1])
    if not ps.sha2:
        a, b = hashlib.shake_256(r.pkseed + adr.full()), hashlib.shake_256(r.pkseed + pk.full() + head)
        out = lambda h: h.digest(n)
    else:
        m = r.m512 if n > 16 else r.m256
        a, b = m.copy(), m.copy()
        a.update(adr.short())
        b.update(pk.short() + head)
        out = lambda h: h.digest()[:n]
    if not side:
        a.update(x)
    pad = bytes(n - 4)
    lo, hi = [], []
    for i in range(TRIES):
        h = a.copy()
        h.update(i.to_bytes(4, 'big') + pad + x if side else i.to_bytes(4, 'big') + pad)
        g = b.copy()
        g.update(out(h))
        c = sum(out(g).translate(TAB))
        if len(lo) < 4 or c < lo[-1][0]:
            lo = sorted(lo + [(c, i)])[:4]
        if len(hi) < 4 or c > hi[-1][0]:
            hi = sorted(hi + [(c, i)], reverse=True)[:4]
    return sk.hex(), lo + hi


def main():
    from concurrent.futures import ProcessPoolExecutor
    sets = sorted(prog.BYNAME.values(), key=lambda p: p.name)
    with ProcessPoolExecutor(int(os.environ.get('JOBS', '2'))) as ex:
        res = list(ex.map(search, sets))
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tsv', 'extreme.py'), 'w') as f:
        f.write('"""made by tools/mkextreme.py: {set: (secret key, [(checksum, number in the last FORS node)])}"""\n')
        f.write('MSG = %r\nEXTREME = {\n' % MSG)
        for p, (sk, l) in zip(sets, res):
            f.write('    %r: (%r,\n        %r),\n' % (p.name, sk, l))
        f.write('}\n')


main()
