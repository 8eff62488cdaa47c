"""The program under verification: which sources, which build configurations, which parameter sets."""
import os
import glob
from . import ir
from . import machine as mc

REPO = os.environ.get('TSV_REPO', '/repo')
NOTLIB = ('test_', 'ramspace', 'get_space', 'stack')

# name -> n, k, t (FORS tree height), h, d      (SPHINCS+ submission, "simple" sets)
PARAMS = {'128s': (16, 14, 12, 63, 7), '128f': (16, 33, 6, 66, 22),
          '192s': (24, 17, 14, 63, 7), '192f': (24, 33, 8, 66, 22),
          '256s': (32, 22, 14, 64, 8), '256f': (32, 35, 9, 68, 17)}


class PSet(object):
    def __init__(self, fam, size):
        self.fam = fam
        self.size = size
        self.name = '%s_%s' % (fam, size)
        self.n, self.k, self.t, self.h, self.d = PARAMS[size]
        self.mh = self.h // self.d
        self.sha2 = 1 if fam == 'sha2' else 0
        self.obj = 'ts_ps_%s_%s_simple' % ('sha2' if self.sha2 else 'shake', size)
        self.wots = 2 * self.n + 3
        self.sig = self.n * (1 + (self.t + 1) * self.k + self.d * self.wots + self.h)
        self.level = {16: 1, 24: 3, 32: 5}[self.n]


SETS = [PSet(f, s) for f in ('sha2', 'shake') for s in ('128s', '128f', '192s', '192f', '256s', '256f')]
BYNAME = {p.name: p for p in SETS}


class Config(object):
    def __init__(self, name, flags, shake=1, sha2=1, l5=1, l3=0, s=1, opt=1, kopt=0):
        self.name = name
        self.flags = flags
        self.shake, self.sha2, self.l5, self.l3, self.s, self.opt, self.kopt = shake, sha2, l5, l3, s, opt, kopt

    def sets(self):
        out = []
        for p in SETS:
            if p.sha2 and not self.sha2 or not p.sha2 and not self.shake:
                continue
            if p.n == 32 and not self.l5 or p.n == 24 and not (self.l3 or self.l5):
                continue
            if p.size.endswith('s') and not self.s:
                continue
            out.append(p)
        return out


def mk(name, **kw):
    d = dict(shake=1, sha2=1, l5=1, l3=1, s=1, opt=1, kopt=0)
    d.update(kw)
    fl = ['-DTUNE_H_'] + ['-D%s=%d' % (k, v) for k, v in (
        ('TS_SUPPORT_SHAKE', d['shake']), ('TS_SUPPORT_SHA2', d['sha2']), ('TS_SUPPORT_L5', d['l5']),
        ('TS_SUPPORT_L3', d['l3']), ('TS_SUPPORT_S', d['s']), ('TS_SHA2_OPTIMIZATION', d['opt']), ('TS_SHAKE256_OPT', d['kopt']))]
    return Config(name, fl, **d)


CONFIGS = {}


def _configs():
    CONFIGS['default'] = Config('default', [])
    # the Makefile's regression configuration leaves L3 and the SHAKE variant undefined (zero)
    CONFIGS['all_parm_sets'] = Config('all_parm_sets', ['-DTUNE_H_', '-DTS_SUPPORT_L5=1', '-DTS_SUPPORT_SHAKE=1', '-DTS_SUPPORT_SHA2=1',
                                                        '-DTS_SUPPORT_S=1', '-DTS_SHA2_OPTIMIZATION=1'])
    CONFIGS['shake_opt1'] = mk('shake_opt1', kopt=1)
    CONFIGS['shake_opt2'] = mk('shake_opt2', kopt=2)
    CONFIGS['small_ram'] = mk('small_ram', opt=0, kopt=2)
    # one configuration per parameter set, as ramspace.py builds them
    for p in SETS:
        for opt in (0, 1):
            if opt and not p.sha2:
                continue
            nm = 'min_%s%s' % (p.name, '_opt' if opt else '')
            CONFIGS[nm] = mk(nm, shake=1 - p.sha2, sha2=p.sha2, l5=int(p.n == 32), l3=int(p.n == 24), s=int(p.size[-1] == 's'), opt=opt, kopt=2)
    # every combination of the switches that choose parameter sets
    for sh, s2 in ((1, 0), (0, 1), (1, 1)):
        for l5, l3 in ((0, 0), (0, 1), (1, 0)):
            for s in (0, 1):
                nm = 'sets_%s%s%s%s' % ('k' * sh, '2' * s2, '5' * l5 + '3' * l3 or '1', 's' * s)
                CONFIGS[nm] = mk(nm, shake=sh, sha2=s2, l5=l5, l3=l3, s=s, opt=s, kopt=1 + l3)


_configs()


def sources():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, '*.c'))):
        b = os.path.basename(f)
        if not b.startswith(NOTLIB):
            out.append(f)
    return out


_mods = {}


def _load(a):
    path, flags = a
    return ir.load(path, ['-I' + REPO] + list(flags))


def modules(cfg, only=None):
    """IR modules of the library sources in a configuration (loaded once per process)"""
    srcs = [s for s in sources() if only is None or os.path.basename(s) in only]
    need = [s for s in srcs if (s, cfg.name) not in _mods]
    if len(need) > 3:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            txt = list(ex.map(lambda s: ir.compile_ir(s, ['-I' + REPO] + list(cfg.flags)), need))
    else:
        txt = [ir.compile_ir(s, ['-I' + REPO] + list(cfg.flags)) for s in need]
    for s, t in zip(need, txt):
        _mods[(s, cfg.name)] = ir.Module(t, s)
    return [_mods[(s, cfg.name)] for s in srcs]


def machine(cfg, only=None):
    return mc.Machine(modules(cfg, only))


def members(mods, sname):
    for m in mods:
        try:
            r = m.members(sname)
        except KeyError:
            continue
        if r:
            return r
    return None


def sizeof(mods, sname):
    for m in mods:
        r = m.sizeof(sname)
        if r:
            return r
    return None


# ------------------------------------------------------------------ the same code in two configurations
def fingerprint(mod, f):
    """digest of a function: its instructions, the types and the data it refers to (callees by name)"""
    import hashlib
    import re
    seen = set()
    parts = []

    def names(s):
        for t in re.findall(r"\('n', '([^']*)'\)", s):
            if ('n', t) not in seen:
                seen.add(('n', t))
                r = repr(mod.types.named.get(t))
                parts.append('%s=%s' % (t, r))
                names(r)
        for g in re.findall(r"\('g', '([^']*)'\)", s):
            if ('g', g) not in seen:
                seen.add(('g', g))
                v = mod.globals.get(g)
                if v is not None:
                    r = repr((v.ty, v.const, v.external, v.internal, v.init))
                    parts.append('@%s=%s' % (g, r))
                    names(r)
    s = repr((f.ret, f.params, [(lab, [(i.op, i.res, i.a) for i in ins]) for lab, ins in f.blocks]))
    parts.append(s)
    names(s)
    return hashlib.sha256('\n'.join(parts).encode()).hexdigest()


def fingerprints(mods):
    out = {}
    for m in mods:
        for f in m.funcs.values():
            if not f.decl:
                out[(m.path, f.name) if f.internal else f.name] = fingerprint(m, f)
    return out
