"""Parameter objects and advertised sizes."""
from . import term as tm
from . import machine as mc
from . import prog, scheme
from .machine import Fail, Fn
from .facts import Limit
from .report import Report


def check(cfgname):
    cfg = prog.CONFIGS[cfgname]
    m = prog.machine(cfg)
    mods = m.mods
    rep = Report()
    P = prog.members(mods, 'ts_parameter_set') or {}
    for ps in cfg.sets():
        nm = '%s in %s' % (ps.obj, cfgname)
        if ps.obj not in m.gdefs:
            rep.fail(nm + ': is defined', 'no such object')
            continue
        st = mc.St(m)
        p = m.globptr(st, ps.obj)
        rep.add('parameter objects are constant', m.meta[p.obj].kind == 'ro', nm)
        want = {'n': ps.n, 'k': ps.k, 't': ps.t, 'h': ps.h, 'd': ps.d, 'merkle_h': ps.mh, 'sha2': ps.sha2}
        for f, v in want.items():
            if f in P:
                o, z = P[f]
                got = mc.ldcells(st, st.objs[p.obj], o, z)
                ok = got == v if f != 'sha2' else bool(got) == bool(v)
                rep.add('parameter objects: %s' % f, ok, '%s has %s = %s, not %s' % (nm, f, got, v))
        for f in ('prf_msg', 'hash_msg', 'prf', 'f', 'init_t', 'next_t', 'final_t'):
            if f in P:
                o, z = P[f]
                rep.add('parameter objects: %s is a function' % f, mc.ldcells(st, st.objs[p.obj], o, z).__class__ is Fn, nm)
        for fn, v in (('ts_size_private_key', 4 * ps.n), ('ts_size_public_key', 2 * ps.n), ('ts_size_signature', ps.sig)):
            key = m.find(fn)
            if key is None:
                rep.fail('advertised sizes: %s' % fn, 'no such function')
                continue
            out = []
            s2 = st.fork()
            m.start(s2, key, [p])
            try:
                m.explore(s2, out.append)
            except Fail as e:
                rep.fail('advertised sizes: %s' % fn, '%s: %s' % (nm, e))
                continue
            rep.add('advertised sizes: %s' % fn, len(out) == 1 and out[0].retval == v, '%s: %s, not %s' % (nm, [tm.show(s.retval) for s in out], v))
    rep.stats(m)
    return rep
