"""Contexts in the wrong phase: every call of the other kind is refused without effect."""
from . import term as tm
from . import machine as mc
from .machine import Ptr, Fail
from .facts import Limit
from .scheme import same
from .sign import cellsame


def key_of(cells, keep):
    return tuple(cells[j] if cells[j].__class__ is not tuple else (id(cells[j][0]),) + cells[j][1:] for j in sorted(keep))


class Refuse(object):
    def __init__(self, p):
        self.p, self.m, self.rep = p, p.m, p.rep
        self.M = tm.var('ASKED', 32)
        self.ctxp = p.cut.ctxp

    def run(self, fn, cells, facts, keep, over):
        """a call of fn on a context of which `keep` is known -> (ends, needed bytes, context before)"""
        p = self.p
        base = p.opaque(cells, keep, over)
        st = p.cut.h0.fork()
        st.frames = []
        st.objs = {k: v for k, v in p.cut.h0.objs.items() if k in p.base}
        st.objs[self.ctxp.obj] = base
        st.own = set()
        st.user = {}
        st.facts = type(st.facts)()
        for f in facts:
            f(st.facts)
        if fn == 'ts_verify':
            args = [self.ctxp]
        else:
            ln = tm.zext(self.M, 32, 64)
            if fn == 'ts_sign':
                buf = st.stream('piece', 'out', None, ln)
            else:
                buf = st.stream('piece', 'in', lambda i: tm.app('sig', (i,), 8), ln)
            self.buf = buf.obj
            args = [buf, self.M, self.ctxp]
        W, p.W = getattr(p, 'W', None), None
        try:
            ends = p.explore(st, fn, args)
        finally:
            p.W = W
        need = set()
        for s in ends:
            need |= p.needed(s, [s.retval]) - keep
        return ends, need, base

    def check(self, fn, what, contexts, fixed=None):
        """fn on each (cells, facts) returns 0 and changes nothing"""
        p = self.p
        keep = set(p.fixedcells()) if fixed is None else set(fixed)
        oo, oz = p.F['buffer_offset']
        bo = set(range(oo, oo + oz))
        places = False
        seen = set()
        i = 0
        nm = '%s misuse: %s' % (p.tag, what)
        while i < len(contexts):
            cells, facts = contexts[i]
            k = key_of(cells, keep - bo)
            if k in seen:
                i += 1
                continue
            again = False
            for o in range(p.n + 1) if places else (None,):
                over = {} if o is None else {oo + q: (o >> (8 * q)) & 255 for q in range(oz)}
                try:
                    ends, need, base = self.run(fn, cells, facts, keep | (bo if places else set()), over)
                except (Fail, Limit) as e:
                    need = {j for j in range(len(cells)) if cells[j] is not None} - keep - bo
                    if fixed is not None:
                        need |= bo - keep
                    if not need and (places or fixed is not None):
                        if isinstance(e, Fail):
                            self.rep.fail(nm, 'is not refused: %s' % e)
                            return
                        raise
                    if not places and fixed is None:
                        need |= bo
                if need & bo and fixed is None:
                    places = True
                if need:
                    keep |= need - bo if fixed is None else need
                    again = True
                    break
                for s in ends:
                    c = s.objs[self.ctxp.obj]
                    ch = [j for j in range(len(c)) if not cellsame(c[j], base[j])]
                    ok = same(s.facts, s.retval, 0)
                    if fn == 'ts_verify':
                        self.rep.add(nm + ': the verdict is 0', ok and not ch, 'returns %s' % tm.show(s.retval))
                        continue
                    wr = bool(s.objs.get(self.buf)) if fn == 'ts_sign' else False
                    self.rep.add(nm + ': returns 0 without effect', ok and not ch and not wr, 'returns %s, context byte(s) %s change%s' % (
                        tm.show(s.retval), ch[:4], ', bytes are written' if wr else ''))
            if again:
                seen = set()
                continue
            seen.add(k)
            i += 1


def prove(s, direction):
    """s: a Sign or Verify after prove()"""
    m = Refuse(s)
    blank = [([0] * len(s.visited[0][0]), ())]
    if direction == 'sign':
        m.check('ts_update_verify', 'verification input to a context set up for signing', s.visited)
        m.check('ts_verify', 'verdict of a context set up for signing', s.visited)
        m.check('ts_sign', 'signing with a context that was never set up', blank, ())
        m.check('ts_update_verify', 'verification input to a context that was never set up', blank, ())
        m.check('ts_verify', 'verdict of a context that was never set up', blank, ())
    else:
        m.check('ts_sign', 'signing with a context set up for verification', s.visited + [(s.cells(b.objs), ()) for b in s.bad])
