"""Lemma: the specified verification computation, fed with the words of the specified signature, ends in the root of
the specified key generation. The formulas are those the signing and verification proofs compare the code with."""
from . import term as tm
from . import prog, spec
from .report import Report
from .scheme import UF, Spec, catb, split
from .sign import Sign
from .verify import Verify


class SignSpec(Sign):
    def __init__(self, ps, uf):
        self.ps, self.n, self.uf = ps, ps.n, uf
        self.sp = Spec(ps, uf)
        self.TREE0 = tm.var('TREE0', ps.h - ps.mh)
        self.LEAF0 = tm.var('LEAF0', ps.mh)


class VerifySpec(Verify):
    def __init__(self, s):
        self.ps, self.n, self.uf, self.sp, self.TREE0, self.LEAF0 = s.ps, s.n, s.uf, s.sp, s.TREE0, s.LEAF0


def tree(rep, nm, s, v, t, leafv, node, root):
    """for every leaf of a height-t tree: the verifier's value over the signer's path words is the node above.
    root: the root as key generation or the next layer define it, or None"""
    for h in range(t):
        hi = tm.var('HI', t - h - 1) if t - h - 1 else None
        lo = tm.var('LO', h) if h else None
        for b in (0, 1):
            leaf = tm.cat(*(([(hi, t - h - 1)] if hi is not None else []) + [(b, 1)] + ([(lo, h)] if h else [])))

            def below(bit, w):
                # leaves below the node of height h (w: bits of the leaf number kept above it)
                return lambda j: tm.cat(*(([(hi, t - h - 1)] if hi is not None else []) + [(bit, 1)] + ([(j, h)] if h else [])))
            cur = s.under(below(b, h), t, h, leafv, node)
            sib = s.under(s.sibs(leaf, t, h), t, h, leafv, node)
            l, r = v.climb(leaf, t, h, node, cur, sib)
            nxt = s.under(lambda j: tm.cat(*(([(hi, t - h - 1)] if hi is not None else []) + [(j, h + 1)])), t, h + 1, leafv, node)
            rep.add('%s: over the signed path, the node of height %d is that of the tree' % (nm, h + 1), (r if b else l) is nxt, 'bit %d' % b)
            if h == t - 1 and root is not None:
                rep.add('%s: the root is that of the tree' % nm, nxt is root, '')


def lemma(setname):
    ps = prog.BYNAME[setname]
    rep = Report()
    s = SignSpec(ps, UF())
    v = VerifySpec(s)
    sp, n = s.sp, s.n
    T = setname + ' composition'
    # FORS: any tree, any index
    I = tm.var('I', 8)
    leaf, sec = s.fleaf(I)
    LEAF = tm.var('LEAF', ps.t)
    v.B = sec(LEAF)
    lv, _ = v.fleafv(I)
    rep.add(T + ': the leaf made of the signed secret is the FORS leaf', lv(LEAF, sec(LEAF)) is leaf(LEAF), '')
    # the tree argument holds for any leaves
    tree(rep, T + ', FORS', s, v, ps.t, lambda j: s.uf.ap('FORSLEAF', (j,), 8 * n), s.fnode(I), None)
    # hypertree: any layer, tree and leaf
    L, TR, LF, X = tm.var('LAYER', 8), tm.var('TR', ps.h - ps.mh), tm.var('LF', ps.mh), tm.var('X', 8 * n)
    tr, lf = s.z(TR, 64), s.z(LF, 32)
    tops = []
    for i in range(ps.wots):
        ch = s.chainspec(L, tr, lf, i)
        for d in range(16):
            rep.add(T + ': a signed chain element is advanced to the end of its chain, for every digit', v.chainend(L, tr, lf, i, ch[d], d) is ch[15], 'chain %d digit %d' % (i, d))
        tops.append(ch[15])
    rep.add(T + ': the ends of the chains make the leaf of the layer', sp.Tl(sp.adr(L, tr, spec.WOTSPK, lf, 0, 0), *tops) is sp.wleaf_def(L, tr, lf), '')

    def leafv(j):
        return sp.wleaf(L, tr, s.z(j, 32))
    top = sp.subtree(ps.mh, leafv, s.tnode(L, tr))
    tree(rep, T + ', layer', s, v, ps.mh, leafv, s.tnode(L, tr), top)
    # the last layer is the tree of key generation: no bits of the tree number are left
    t = s.TREE0
    for _ in range(ps.d - 1):
        t, _l = s.up(t)
    rep.add(T + ': the last layer has tree number 0', t == 0, tm.show(t))
    top = ps.d - 1
    kg = sp.subtree(ps.mh, lambda j: sp.wleaf(top, 0, j), lambda h, j: sp.adr(top, 0, spec.TREE, 0, h, j))
    vf = sp.subtree(ps.mh, lambda j: sp.wleaf(top, 0, s.z(j, 32)), s.tnode(top, 0))
    rep.add(T + ': the last root is that of key generation', kg is vf, '')
    return rep
