"""Symbolic executor for the IR.  Every basic block is translated to a Python function that works on
concrete ints directly and falls back to term constructors; the translation is made afresh from the
IR on each run.

Obligations generated while executing (each failure is a Fail):
  mem    every load/store/memcpy/memset: live object, inside the object and inside the named struct
         member the pointer was derived from, aligned
  init   no value read before it was written reaches an operation, a branch, a call or the caller
  ub     no signed overflow (nsw), shift amount below the width, division by zero, null dereference
  frame  no write to a read-only object (const globals, caller's inputs) or to mutable static data
  ext    calls only to functions defined in the sources, or to memcpy/memmove/memset/memcmp
plus whatever the contracts and harnesses state."""
from . import term as tm
from .term import T
from . import facts as fx
from .facts import NeedSplit, Limit


class Fail(Exception):
    def __init__(self, kind, loc, msg, st=None, cond=None):
        Exception.__init__(self, '%s at %s: %s' % (kind, loc, msg))
        self.kind = kind
        self.loc = loc
        self.msg = msg
        self.st = st
        self.cond = cond      # term that should have been true (when there is one)


class Ptr(object):
    __slots__ = ('obj', 'off', 'lo', 'hi')

    def __init__(self, obj, off, lo, hi):
        self.obj = obj
        self.off = off
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

    def __eq__(self, o):
        return o.__class__ is Ptr and o.obj == self.obj and (o.off is self.off or (type(o.off) is int and o.off == self.off))

    def __hash__(self):
        return hash((self.obj, self.off if type(self.off) is int else id(self.off)))


class Fn(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return o.__class__ is Fn and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Undef(object):
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Ghost(object):
    """abstract contents of a region (e.g. a hash context); key identifies the value"""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return o.__class__ is Ghost and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'Ghost(%r)' % (self.key,)


class Meta(object):
    __slots__ = ('name', 'size', 'kind', 'arr', 'length', 'base', 'nowrite', 'align')

    def __init__(self, name, size, kind='mem', arr=None, length=None, base=0):
        self.name = name
        self.size = size
        self.kind = kind      # mem, ro, in (read-only stream), out (write-only stream), dead, opaque
        self.arr = arr        # stream: function(index term) -> byte term
        self.length = length
        self.base = base      # stream: index of offset 0
        self.align = 16


class Frame(object):
    __slots__ = ('cf', 'pc', 'R', 'ret', 'allocas', 'snaps')

    def __init__(self, cf, pc, R, ret, allocas, snaps=None):
        self.cf = cf
        self.pc = pc
        self.R = R
        self.ret = ret
        self.allocas = allocas
        self.snaps = snaps        # loop-cut bookkeeping (autocut.py); immutable values

    def copy(self):
        return Frame(self.cf, self.pc, list(self.R), self.ret, list(self.allocas), self.snaps)


class St(object):
    __slots__ = ('m', 'objs', 'own', 'frames', 'facts', 'user', 'retval', 'trace')

    def __init__(self, m):
        self.m = m
        self.objs = {}
        self.own = set()
        self.frames = []
        self.facts = fx.Facts()
        self.user = {}
        self.retval = None
        self.trace = None

    def fork(self):
        s = St.__new__(St)
        s.m = self.m
        s.objs = dict(self.objs)
        s.own = set()
        self.own = set()
        s.frames = [f.copy() for f in self.frames]
        s.facts = self.facts.copy()
        s.user = dict(self.user)
        s.retval = self.retval
        s.trace = self.trace
        return s

    def loc(self):
        for f in reversed(self.frames):
            return f.cf.where(f)
        return '?'

    def cells(self, obj):
        """writable cell list"""
        c = self.objs[obj]
        if obj not in self.own:
            c = list(c)
            self.objs[obj] = c
            self.own.add(obj)
        return c

    # ---------------------------------------------------------------- access from contracts/harness
    def new(self, name, size, kind='mem', init=None):
        oid = self.m.newid(Meta(name, size, kind))
        self.objs[oid] = list(init) if init is not None else [None] * size
        self.own.add(oid)
        return Ptr(oid, 0, 0, size)

    def stream(self, name, kind, arr, length, base=0):
        oid = self.m.newid(Meta(name, None, kind, arr, length, base))
        self.objs[oid] = {} if kind == 'out' and arr is None else None
        return Ptr(oid, 0, 0, None)


def _cell_byte(c, where):
    """value of one cell as an 8-bit value"""
    if c.__class__ is tuple:
        v, i, n = c
        if v.__class__ is T:
            return tm.ext(v, 8 * i, 8)
        return c
    return c


class Machine(object):
    def __init__(self, modules):
        self.meta = {}
        self.nid = 0
        self.cfs = {}
        self.globs = {}
        self.mods = modules
        self.contracts = {}
        self.watch = {}
        self.hook = None
        self.stats = {'mem': 0, 'init': 0, 'ub': 0, 'frame': 0, 'ext': 0, 'contract': 0, 'split': 0, 'paths': 0, 'z3': 0}
        self.calls = {}
        self.steps = 0
        self.maxsteps = None
        self.deadline = None
        self.covered = set()
        self.gdefs = {}
        self.fdefs = {}
        self.called = set()
        for mod in modules:
            for f in mod.funcs.values():
                if not f.decl:
                    if f.internal:
                        self.fdefs[(mod.path, f.name)] = f
                    else:
                        self.fdefs[f.name] = f
            for g in mod.globals.values():
                if not g.external:
                    if g.internal:
                        self.gdefs[(mod.path, g.name)] = (mod, g)
                    else:
                        self.gdefs[g.name] = (mod, g)

    def newid(self, meta):
        self.nid += 1
        self.meta[self.nid] = meta
        return self.nid

    # ---------------------------------------------------------------- symbols
    def resolve(self, mod, name):
        """symbol used in module mod -> Fn | global key"""
        k = (mod.path, name)
        if k in self.fdefs:
            return Fn(k)
        if k in self.gdefs:
            return k
        if name in self.fdefs:
            return Fn(name)
        if name in self.gdefs:
            return name
        f = mod.funcs.get(name)
        if f is not None:
            return Fn(name)
        raise Limit('unresolved symbol ' + name)

    def globptr(self, st, key):
        oid = self.globs.get(key)
        if oid is None:
            mod, g = self.gdefs[key]
            size = mod.types.size(g.ty)
            oid = self.newid(Meta(g.name, size, 'ro' if g.const else 'static'))
            self.globs[key] = oid
            cells = [0] * size
            self.ginit = getattr(self, 'ginit', {})
            self.ginit[oid] = cells
            self.fill(st, mod, cells, 0, g.ty, g.init)
        if oid not in st.objs:
            st.objs[oid] = self.ginit[oid]
        return Ptr(oid, 0, 0, self.meta[oid].size)

    def fill(self, st, mod, cells, off, ty, v):
        ty = mod.types.res(ty)
        k = v[0]
        if k in ('zero',):
            return
        if k == 'undef':
            for i in range(mod.types.size(ty)):
                cells[off + i] = None
            return
        if k == 'str':
            for i, b in enumerate(v[1]):
                cells[off + i] = b
            return
        if k == 'c':
            n = mod.types.size(ty)
            x = v[1] & ((1 << (8 * n)) - 1)
            for i in range(n):
                cells[off + i] = (x >> (8 * i)) & 255
            return
        if k == 'agg':
            if ty[0] == 'a':
                es = mod.types.size(ty[2])
                for i, (t, x) in enumerate(v[1]):
                    self.fill(st, mod, cells, off + i * es, t, x)
            else:
                for i, (t, x) in enumerate(v[1]):
                    o, ft = mod.types.fieldoff(ty, i)
                    self.fill(st, mod, cells, off + o, t, x)
            return
        if k in ('g', 'cgep'):
            p = self.constval(st, mod, v)
            for i in range(8):
                cells[off + i] = (p, i, 8)
            return
        raise Limit('initializer %r' % (v,))

    def constval(self, st, mod, v):
        if v[0] == 'g':
            r = self.resolve(mod, v[1])
            if r.__class__ is Fn:
                return r
            return self.globptr(st, r)
        if v[0] == 'cgep':
            p = self.constval(st, mod, v[2])
            off, lo, hi = gep_const(mod.types, v[1], v[3])
            return gepc(p, off, lo, hi)
        raise Limit('constant %r' % (v,))

    def cf(self, key):
        c = self.cfs.get(key)
        if c is None:
            f = self.fdefs.get(key)
            if f is None:
                return None
            c = CF(self, f, key)
            self.cfs[key] = c
        return c

    def find(self, name):
        """function key by plain name (external first, then any file-local one if unique)"""
        if name in self.fdefs:
            return name
        ks = [k for k in self.fdefs if type(k) is tuple and k[1] == name]
        if len(ks) == 1:
            return ks[0]
        return None

    # ---------------------------------------------------------------- running
    def start(self, st, key, args):
        cf = self.cf(key)
        if cf is None:
            raise Limit('function %s is not defined in the sources' % (key,))
        R = [None] * cf.nreg
        if len(args) != len(cf.f.params):
            raise Limit('%s takes %d parameters, %d given' % (key, len(cf.f.params), len(args)))
        for i, a in enumerate(args):
            R[cf.preg[i]] = a
        st.frames.append(Frame(cf, cf.entry, R, None, []))
        self.covered.add(key)

    def explore(self, st, onret, onfail=None, depth=None):
        """run st until its frame stack is back to the current depth minus one; onret(st) for each
        completed path"""
        base = len(st.frames) - 1
        work = [st]
        npaths = 0
        while work:
            s = work.pop()
            try:
                r = self.run(s, base, work)
            except Fail as e:
                if e.st is None:
                    e.st = s
                if onfail is None:
                    raise
                onfail(e)
                continue
            if r == 'ret':
                npaths += 1
                self.stats['paths'] += 1
                onret(s)
            elif r == 'stop':
                npaths += 1
                self.stats['paths'] += 1
        return npaths

    def run(self, st, base, work):
        while True:
            fr = st.frames[-1]
            segs = fr.cf.segs
            R = fr.R
            pc = fr.pc
            watch = self.watch.get(fr.cf.key)
            try:
                n = 0
                while True:
                    n += 1
                    r = segs[pc](st, R)
                    if r.__class__ is int:
                        pc = r
                        if watch is not None and pc in watch:
                            fr.pc = pc
                            w = watch[pc](st, fr)
                            if w == 'stop':
                                return 'stop'
                            watch = self.watch.get(fr.cf.key)
                        if n > 100000:
                            self.tick(n)
                            n = 0
                        continue
                    break
                self.steps += n
                fr.pc = pc
                k = r[0]
                if k == 'call':
                    # ('call', callee, args, retreg, nextpc)
                    fr.pc = r[4]
                    if self.hook is not None and r[1].__class__ is Fn and r[1].name in self.contracts and self.hook('call', st, (r[1], r[2])):
                        return 'stop'
                    self.call(st, fr, r, work, pc)
                    if self.steps > 2000000:
                        self.tick(0)
                    continue
                if k == 'ret':
                    v = r[1]
                    for a in fr.allocas:
                        st.objs.pop(a, None)
                    st.frames.pop()
                    if len(st.frames) == base:
                        st.retval = v
                        return 'ret'
                    if fr.ret is not None:
                        st.frames[-1].R[fr.ret] = v
                    continue
                if k == 'fork':
                    _, c, pt, pf = r
                    d = st.facts.decide(c)
                    if d is None:
                        if self.hook is not None and self.hook('fork', st, (c, pt, pf)):
                            return 'stop'
                        s2 = st.fork()
                        self.stats['split'] += 1
                        s2.frames[-1].pc = pf
                        okf = s2.facts.assume(c, 0)
                        if okf and self.hitwatch(s2):
                            work.append(s2)
                        if not st.facts.assume(c, 1):
                            return 'infeasible'
                        fr.pc = pt
                    else:
                        fr.pc = pt if d else pf
                    if not self.hitwatch(st):
                        return 'stop'
                    continue
                if k == 'switch':
                    _, v, cases, dflt, w = r
                    for val, tgt in cases:
                        c = tm.eq(w, v, val & ((1 << w) - 1))
                        d = c if type(c) is int else st.facts.decide(c)
                        if d == 1:
                            fr.pc = tgt
                            break
                        if d == 0:
                            continue
                        if self.hook is not None and self.hook('switch', st, (v, cases, dflt)):
                            fr.pc = pc
                            return 'stop'
                        s2 = st.fork()
                        self.stats['split'] += 1
                        s2.frames[-1].pc = tgt
                        if s2.facts.assume(c, 1) and self.hitwatch(s2):
                            work.append(s2)
                        if not st.facts.assume(c, 0):
                            return 'infeasible'
                    else:
                        fr.pc = dflt
                    if not self.hitwatch(st):
                        return 'stop'
                    continue
                raise Limit('step %r' % (r,))
            except NeedSplit as e:
                self.steps += n
                fr = st.frames[-1]
                if not e.resumed:
                    fr.pc = fr.cf.resume(pc, R[0])
                unit, vals = e.unit, e.vals
                if self.hook is not None and self.hook('split', st, (unit, vals)):
                    return 'stop'
                self.stats['split'] += len(vals) - 1
                for v in vals[1:]:
                    s2 = st.fork()
                    if s2.facts.setval(unit, v):
                        work.append(s2)
                if not st.facts.setval(unit, vals[0]):
                    return 'infeasible'
            except Fail as e:
                self.steps += n
                fr.pc = pc
                if e.st is None:
                    e.st = st
                if e.loc is None:
                    e.loc = fr.cf.where(fr)
                    e.args = ('%s at %s: %s' % (e.kind, e.loc, e.msg),)
                raise

    def hitwatch(self, st):
        fr = st.frames[-1]
        w = self.watch.get(fr.cf.key)
        if w is not None and fr.pc in w:
            return w[fr.pc](st, fr) != 'stop'
        return True

    def tick(self, n):
        self.steps += n
        if self.maxsteps is not None and self.steps > self.maxsteps:
            raise Limit('step budget exhausted')
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise Limit('time budget exhausted')

    def call(self, st, fr, r, work, pc):
        _, callee, args, retreg, nextpc = r
        if callee.__class__ is not Fn:
            if callee.__class__ is int and callee == 0:
                raise Fail('ub', None, 'call through a null function pointer')
            if callee is UNDEF or callee is None:
                raise Fail('init', None, 'call through an uninitialised function pointer')
            raise Limit('call through %r' % (callee,))
        key = callee.name
        c = self.contracts.get(key)
        if c is not None:
            try:
                v = c(st, args)
            except NeedSplit as e:
                # re-execute the call after the split
                fr.pc = fr.cf.resume(pc, fr.R[0])
                e.resumed = True
                raise
            if v is not INLINE:
                if retreg is not None:
                    fr.R[retreg] = v
                self.calls[key] = self.calls.get(key, 0) + 1
                return
        cf = self.cf(key)
        if cf is None:
            b = BUILTIN.get(key if type(key) is str else key[1])
            if b is None:
                nm = key if type(key) is str else key[1]
                if nm.startswith('llvm.'):
                    raise Limit('intrinsic ' + nm)
                raise Fail('ext', None, 'call to %s, which the sources do not define' % (key,))
            self.stats['ext'] += 1
            try:
                v = b(st, args)
            except NeedSplit as e:
                fr.pc = fr.cf.resume(pc, fr.R[0])
                e.resumed = True
                raise
            if retreg is not None:
                fr.R[retreg] = v
            return
        if len(st.frames) > 60:
            raise Limit('recursion')
        R = [None] * cf.nreg
        for i, a in enumerate(args):
            R[cf.preg[i]] = a
        self.covered.add(key)
        st.frames.append(Frame(cf, cf.entry, R, retreg, []))


INLINE = object()

# ==================================================================== memory


def gepc(p, off, lo, hi):
    if p.__class__ is not Ptr:
        return badptr(p)
    o = p.off
    if o.__class__ is int:
        n = o + off
        if hi is None:
            return Ptr(p.obj, n, p.lo, p.hi)
        a = o + lo
        b = o + hi
        if a < p.lo:
            a = p.lo
        if p.hi is not None and b > p.hi:
            b = p.hi
        return Ptr(p.obj, n, a, b)
    return Ptr(p.obj, tm.add(64, o, off & M64), p.lo, p.hi)


M64 = (1 << 64) - 1


def badptr(p):
    if p is UNDEF or p is None:
        raise Fail('init', None, 'pointer arithmetic on an uninitialised pointer')
    if p.__class__ is int:
        return p      # null + offset: reported on access
    if p.__class__ is Fn:
        raise Limit('arithmetic on a function pointer')
    raise Limit('pointer arithmetic on %r' % (p,))


def gepd(p, idx, scale, w):
    if p.__class__ is not Ptr:
        badptr(p)
        raise Fail('ub', None, 'pointer arithmetic on a null pointer')
    if idx.__class__ is int:
        if idx >> (w - 1):
            idx -= 1 << w
        o = p.off
        if o.__class__ is int:
            return Ptr(p.obj, o + idx * scale, p.lo, p.hi)
        return Ptr(p.obj, tm.add(64, o, (idx * scale) & M64), p.lo, p.hi)
    if idx.__class__ is not T:
        raise Fail('init', None, 'uninitialised index')
    if w < 64:
        idx = tm.sext(idx, w, 64)
    o = p.off
    if o.__class__ is int:
        o &= M64
    return Ptr(p.obj, tm.add(64, o, tm.mulc(64, idx, scale)), p.lo, p.hi)


def gep_const(types, bt, idx):
    """all-constant gep: (offset, lo, hi) with hi None when no struct member was named"""
    off = 0
    lo = hi = None
    t = bt
    for j, (ty, v) in enumerate(idx):
        if v[0] != 'c':
            return None
        if j == 0:
            off += v[1] * types.size(t)
            continue
        t = types.res(t)
        if t[0] == 'a':
            t = t[2]
            off += v[1] * types.size(t)
        else:
            o, t = types.fieldoff(t, v[1])
            off += o
            lo = off
            hi = off + types.size(t)
    return off, lo, hi


def access(st, p, n, write):
    """checked pointer -> (offset, meta); streams are handled by the caller"""
    raise NotImplementedError


def deref(st, p, n, write, align):
    """bounds/liveness/alignment obligations; returns the concrete offset"""
    if p.__class__ is not Ptr:
        if p is UNDEF or p is None:
            raise Fail('init', None, 'dereference of an uninitialised pointer')
        if p.__class__ is int:
            raise Fail('ub', None, 'dereference of a null pointer')
        if p.__class__ is T:
            raise Fail('ub', None, 'dereference of a non-pointer value')
        raise Fail('ub', None, 'dereference of %r' % (p,))
    off = p.off
    if off.__class__ is not int:
        off = st.facts.conc(off)
        if off >> 63:
            off -= 1 << 64
    st.m.stats['mem'] += 1
    if off < p.lo or off + n > p.hi:
        me = st.m.meta[p.obj]
        raise Fail('mem', None, '%s of %d byte(s) at offset %d of %s: outside [%d,%d)%s' % (
            'write' if write else 'read', n, off, me.name, p.lo, p.hi, '' if p.hi - p.lo == me.size else ' (struct member)'))
    if align > 1 and off % align:
        raise Fail('ub', None, 'misaligned access (offset %d, alignment %d) to %s' % (off, align, st.m.meta[p.obj].name))
    return off


def ld(st, p, n, align, isptr=False):
    if p.__class__ is Ptr and p.hi is None:
        return st_load(st, p, n)
    if p.__class__ is Ptr and p.off.__class__ is int and p.lo <= p.off and p.off + n <= p.hi and not p.off % align:
        off = p.off
        st.m.stats['mem'] += 1
    else:
        off = deref(st, p, n, False, align)
    cells = st.objs.get(p.obj)
    if cells is None:
        raise Fail('mem', None, 'read of a dead or inaccessible object %s' % st.m.meta[p.obj].name)
    if cells.__class__ is dict:
        raise Fail('frame', None, 'read of the write-only object %s' % st.m.meta[p.obj].name)
    return ldcells(st, cells, off, n)


def ldcells(st, cells, off, n):
    c = cells[off]
    if n == 1:
        k = c.__class__
        if k is int or k is T:
            return c
        if c is None:
            return UNDEF
        v, i, m = c
        if v.__class__ is T:
            return tm.ext(v, 8 * i, 8)
        raise Limit('byte access to abstract contents %r' % (v,))
    if c.__class__ is tuple and c[1] == 0 and c[2] == n:
        v = c[0]
        for i in range(1, n):
            d = cells[off + i]
            if d.__class__ is not tuple or d[0] is not v or d[1] != i:
                if d.__class__ is tuple and d[0] == v and d[1] == i:
                    continue
                break
        else:
            return v
    acc = 0
    allint = True
    for i in range(n):
        d = cells[off + i]
        if d.__class__ is not int:
            allint = False
            break
        acc |= d << (8 * i)
    if allint:
        return acc
    parts = []
    und = 0
    for i in range(n - 1, -1, -1):
        d = cells[off + i]
        if d is None:
            und += 1
            parts.append(None)
        elif d.__class__ is tuple:
            v, j, m = d
            if v.__class__ is not T:
                raise Limit('partial access to abstract contents %r' % (v,))
            parts.append((tm.ext(v, 8 * j, 8), 8))
        else:
            parts.append((d, 8))
    if und:
        return UNDEF
    return tm.cat(*parts)


def st_load(st, p, n):
    """load from an input stream"""
    me = st.m.meta[p.obj]
    if me.kind == 'out':
        raise Fail('frame', None, 'read of the output buffer %s' % me.name)
    inbounds(st, p, n, me)
    off = p.off if p.off.__class__ is T else p.off & M64
    idx = tm.add(64, off, me.base)
    parts = []
    for i in range(n - 1, -1, -1):
        parts.append((me.arr(tm.add(64, idx, i)), 8))
    return tm.cat(*parts) if n > 1 else parts[0][0]


def inbounds(st, p, n, me):
    """off + n <= length for stream objects"""
    st.m.stats['mem'] += 1
    if me.length is None:
        return
    off = p.off if p.off.__class__ is T else p.off & M64
    if type(off) is int and off >> 63:
        raise Fail('mem', None, 'access before the start of %s' % me.name)
    if not st.facts.fits(off, n, me.length):
        raise Fail('mem', None, 'access to %s at offset %s, %s byte(s): not shown to lie inside its %s bytes' % (me.name, tm.show(off), n, tm.show(me.length)))


def sto(st, p, v, n, align):
    if p.__class__ is Ptr and p.hi is None:
        return stream_store(st, p, v, n)
    off = deref(st, p, n, True, align)
    k = st.m.meta[p.obj].kind
    if k != 'mem':
        raise Fail('frame', None, 'write to %s' % (('read-only object ' if k in ('ro', 'in') else 'static data ') + st.m.meta[p.obj].name))
    if p.obj not in st.own:
        if p.obj not in st.objs:
            raise Fail('mem', None, 'write to a dead object %s' % st.m.meta[p.obj].name)
        cells = st.cells(p.obj)
    else:
        cells = st.objs[p.obj]
    if n == 1:
        if v.__class__ is int or v.__class__ is T:
            cells[off] = v
        elif v is UNDEF or v is None:
            cells[off] = None
        else:
            raise Limit('byte store of %r' % (v,))
        return
    if v.__class__ is int:
        for i in range(n):
            cells[off + i] = v & 255
            v >>= 8
    elif v is UNDEF or v is None:
        for i in range(n):
            cells[off + i] = None
    else:
        for i in range(n):
            cells[off + i] = (v, i, n)


def stream_store(st, p, v, n):
    me = st.m.meta[p.obj]
    if me.kind != 'out':
        raise Fail('frame', None, 'write to the input %s' % me.name)
    inbounds(st, p, n, me)
    if v is UNDEF or v is None:
        raise Fail('init', None, 'uninitialised byte written to the output')
    if me.arr is not None:
        for i in range(n):
            me.arr(st, tm.add(64, p.off if p.off.__class__ is T else p.off & M64, i), tm.ext(v, 8 * i, 8))
        return
    d = dict(st.objs[p.obj])
    st.objs[p.obj] = d
    for i in range(n):
        off = tm.add(64, p.off if p.off.__class__ is T else p.off & M64, i)
        d[off] = tm.ext(v, 8 * i, 8)


def getcells(st, p, n):
    """read n raw cells through p (n concrete)"""
    if p.__class__ is Ptr and p.hi is None:
        me = st.m.meta[p.obj]
        if me.kind == 'out':
            raise Fail('frame', None, 'read of the output buffer %s' % me.name)
        inbounds(st, p, n, me)
        idx = tm.add(64, p.off if p.off.__class__ is T else p.off & M64, me.base)
        return [me.arr(tm.add(64, idx, i)) for i in range(n)]
    off = deref(st, p, n, False, 1)
    cells = st.objs.get(p.obj)
    if cells is None:
        raise Fail('mem', None, 'read of a dead or inaccessible object %s' % st.m.meta[p.obj].name)
    return cells[off:off + n]


def putcells(st, p, src):
    n = len(src)
    if p.__class__ is Ptr and p.hi is None:
        me = st.m.meta[p.obj]
        if me.kind != 'out':
            raise Fail('frame', None, 'write to the input %s' % me.name)
        inbounds(st, p, n, me)
        d = None
        if me.arr is None:
            d = dict(st.objs[p.obj])
            st.objs[p.obj] = d
        for i in range(n):
            off = tm.add(64, p.off if p.off.__class__ is T else p.off & M64, i)
            v = _cell_byte(src[i], None)
            if v is None:
                raise Fail('init', None, 'uninitialised byte written to the output')
            if d is None:
                me.arr(st, off, v)
            else:
                d[off] = v
        return
    off = deref(st, p, n, True, 1)
    k = st.m.meta[p.obj].kind
    if k != 'mem':
        raise Fail('frame', None, 'write to %s' % (('read-only object ' if k in ('ro', 'in') else 'static data ') + st.m.meta[p.obj].name))
    if p.obj not in st.objs:
        raise Fail('mem', None, 'write to a dead object %s' % st.m.meta[p.obj].name)
    cells = st.cells(p.obj)
    cells[off:off + n] = src


def getbytes(st, p, n, what='input'):
    """n bytes through p as 8-bit values; they must be initialised"""
    out = []
    for i, c in enumerate(getcells(st, p, n)):
        v = _cell_byte(c, None)
        if v is None:
            st.m.stats['init'] += 1
            raise Fail('init', None, '%s byte %d is read but was never written' % (what, i))
        if v.__class__ is tuple:
            raise Limit('abstract contents %r used as bytes' % (v[0],))
        out.append(v)
    st.m.stats['init'] += 1
    return out


def putbytes(st, p, bs):
    putcells(st, p, list(bs))


def clen(st, n):
    if n.__class__ is int:
        return n
    if n.__class__ is T:
        return st.facts.conc(n)
    raise Fail('init', None, 'uninitialised length')


def b_memcpy(st, a):
    d, s, n = a[0], a[1], a[2]
    n = clen(st, n)
    if n == 0:
        return d
    src = getcells(st, s, n)
    if d.__class__ is Ptr and s.__class__ is Ptr and d.obj == s.obj and type(d.off) is int and type(s.off) is int:
        if d.off < s.off + n and s.off < d.off + n and d.off != s.off:
            raise Fail('ub', None, 'memcpy with overlapping regions')
    putcells(st, d, src)
    return d


def b_memmove(st, a):
    n = clen(st, a[2])
    if n == 0:
        return a[0]
    putcells(st, a[0], getcells(st, a[1], n))
    return a[0]


def b_memset(st, a):
    d, v, n = a[0], a[1], a[2]
    n = clen(st, n)
    if n == 0:
        return d
    if v.__class__ is int:
        v &= 255
    elif v.__class__ is T:
        v = tm.ext(v, 0, 8)
    else:
        raise Fail('init', None, 'uninitialised memset value')
    putcells(st, d, [v] * n)
    return d


def b_memcmp(st, a):
    n = clen(st, a[2])
    x = getbytes(st, a[0], n) if n else []
    y = getbytes(st, a[1], n) if n else []
    if all(type(i) is int for i in x + y):
        x = bytes(x)
        y = bytes(y)
        return 0 if x == y else ((1 << 32) - 1 if x < y else 1)
    e = 1
    for i, j in zip(x, y):
        e = tm.and_(1, e, tm.eq(8, i, j))
    if type(e) is int and e:
        return 0
    # nonzero with unspecified sign otherwise
    nzv = tm.app('memcmp', (tuple(x), tuple(y)), 31)
    return tm.ite(e, 0, tm.cat((nzv, 31), (1, 1)), 32)


def b_bswap(w):
    def f(st, a):
        v = a[0]
        return tm.cat(*[(tm.ext(v, 8 * i, 8), 8) for i in range(w // 8)])
    return f


def b_fsh(w, left):
    def f(st, a):
        x, y, n = a
        n = clen(st, n) % w
        if not left:
            n = (w - n) % w
            if n == 0:
                return y
        if n == 0:
            return x
        return tm.cat((tm.ext(x, 0, w - n), w - n), (tm.ext(y, w - n, n), n))
    return f


def b_minmax(w, op):
    def f(st, a):
        x, y = a
        c = tm.ult(w, x, y) if op[0] == 'u' else tm.slt(w, x, y)
        if op.endswith('max'):
            x, y = y, x
        return tm.ite(c, x, y, w)
    return f


def b_nop(st, a):
    return 0


BUILTIN = {'memcpy': b_memcpy, 'memmove': b_memmove, 'memset': b_memset, 'memcmp': b_memcmp,
           'llvm.memcpy.p0.p0.i64': b_memcpy, 'llvm.memmove.p0.p0.i64': b_memmove, 'llvm.memset.p0.i64': b_memset,
           'llvm.memcpy.inline.p0.p0.i64': b_memcpy,
           'llvm.lifetime.start.p0': b_nop, 'llvm.lifetime.end.p0': b_nop,
           'llvm.stacksave': b_nop, 'llvm.stacksave.p0': b_nop, 'llvm.stackrestore': b_nop, 'llvm.stackrestore.p0': b_nop,
           '__assert_fail': None}
del BUILTIN['__assert_fail']
for _w in (16, 32, 64):
    BUILTIN['llvm.bswap.i%d' % _w] = b_bswap(_w)
for _w in (8, 16, 32, 64):
    BUILTIN['llvm.fshl.i%d' % _w] = b_fsh(_w, True)
    BUILTIN['llvm.fshr.i%d' % _w] = b_fsh(_w, False)
    for _o in ('umin', 'umax', 'smin', 'smax'):
        BUILTIN['llvm.%s.i%d' % (_o, _w)] = b_minmax(_w, _o)

# ==================================================================== operators on values


def chk(v):
    if v.__class__ is int or v.__class__ is T:
        return v
    if v is UNDEF or v is None:
        raise Fail('init', None, 'use of an uninitialised value')
    raise Limit('arithmetic on %r' % (v,))


CUT = {}      # value -> abbreviation, set up by the kernel proofs


def op_add(w, a, b):
    r = tm.add(w, chk(a), chk(b))
    return CUT.get(r, r) if CUT else r


def op_sub(w, a, b):
    return tm.sub(w, chk(a), chk(b))


def op_mul(w, a, b):
    return tm.mul(w, chk(a), chk(b))


def op_and(w, a, b):
    r = tm.and_(w, chk(a), chk(b))
    return CUT.get(r, r) if CUT else r


def op_or(w, a, b):
    r = tm.or_(w, chk(a), chk(b))
    return CUT.get(r, r) if CUT else r


def op_xor(w, a, b):
    r = tm.xor(w, chk(a), chk(b))
    return CUT.get(r, r) if CUT else r


def op_shl(st, w, a, b, f):
    a = chk(a)
    b = chk(b)
    if b.__class__ is not int:
        b = st.facts.conc(b)
    st.m.stats['ub'] += 1
    if b >= w:
        raise Fail('ub', None, 'shift by %d in a %d-bit type' % (b, w))
    if f and 'nsw' in f:
        r = (tm.maxval(a) << b)
        if r >> (w - 1):
            nochk(st, 'signed shift overflow')
    return tm.shl(w, a, b)


def nochk(st, msg):
    raise Limit(msg)


def op_lshr(st, w, a, b):
    a = chk(a)
    b = chk(b)
    if b.__class__ is not int:
        b = st.facts.conc(b)
    st.m.stats['ub'] += 1
    if b >= w:
        raise Fail('ub', None, 'shift by %d in a %d-bit type' % (b, w))
    return tm.lshr(w, a, b)


def op_ashr(st, w, a, b):
    a = chk(a)
    b = chk(b)
    if b.__class__ is not int:
        b = st.facts.conc(b)
    st.m.stats['ub'] += 1
    if b >= w:
        raise Fail('ub', None, 'shift by %d in a %d-bit type' % (b, w))
    return tm.ashr(w, a, b)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def op_div(st, op, w, a, b):
    a = chk(a)
    b = chk(b)
    st.m.stats['ub'] += 1
    if b.__class__ is not int:
        if not st.facts.prove(tm.not_(1, tm.eq(w, b, 0))):
            raise Fail('ub', None, 'division by a value that may be zero', cond=tm.not_(1, tm.eq(w, b, 0)))
    elif b == 0:
        raise Fail('ub', None, 'division by zero')
    if op == 'udiv':
        return tm.udiv(w, a, b)
    if op == 'urem':
        return tm.urem(w, a, b)
    if a.__class__ is int and b.__class__ is int:
        x = sgn(a, w)
        y = sgn(b, w)
        if x == -(1 << (w - 1)) and y == -1:
            raise Fail('ub', None, 'signed division overflow')
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == 'sdiv' else x - q * y) & tm.mask(w)
    if tm.maxval(a) >> (w - 1) == 0 and tm.maxval(b) >> (w - 1) == 0:
        return tm.udiv(w, a, b) if op == 'sdiv' else tm.urem(w, a, b)
    raise Limit('signed division of symbolic values')


def srange(st, v, w):
    if v.__class__ is int:
        s = sgn(v, w)
        return s, s
    lo, hi = st.facts.bound(v)
    if hi < (1 << (w - 1)):
        return lo, hi
    if lo >= (1 << (w - 1)):
        return lo - (1 << w), hi - (1 << w)
    # small negative numbers written as an addition
    if v.k == 'add':
        c, ts = v.a
        l = h = sgn(c, w)
        for co, x in ts:
            co = sgn(co, w)
            a, b = st.facts.bound(x)
            if b >= (1 << (w - 1)):
                break
            l += min(co * a, co * b)
            h += max(co * a, co * b)
        else:
            if -(1 << (w - 1)) <= l and h < (1 << (w - 1)):
                return l, h
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def op_nsw(st, op, w, a, b):
    a = chk(a)
    b = chk(b)
    st.m.stats['ub'] += 1
    la, ha = srange(st, a, w)
    lb, hb = srange(st, b, w)
    if op == 'add':
        lo, hi = la + lb, ha + hb
        r = tm.add(w, a, b)
    elif op == 'sub':
        lo, hi = la - hb, ha - lb
        r = tm.sub(w, a, b)
    else:
        xs = (la * lb, la * hb, ha * lb, ha * hb)
        lo, hi = min(xs), max(xs)
        r = tm.mul(w, a, b)
    h = 1 << (w - 1)
    if lo < -h or hi >= h:
        if a.__class__ is int and b.__class__ is int:
            raise Fail('ub', None, 'signed overflow in %s' % op)
        if not st.facts.prove_nooverflow(op, w, a, b):
            raise Fail('ub', None, 'signed overflow in %s not excluded: %s, %s' % (op, tm.show(a), tm.show(b)))
    return r


def op_icmp(pred, w, a, b):
    if a.__class__ in (Ptr, Fn) or b.__class__ in (Ptr, Fn):
        return pcmp(pred, a, b)
    a = chk(a)
    b = chk(b)
    if pred == 'eq':
        return tm.eq(w, a, b)
    if pred == 'ne':
        return tm.not_(1, tm.eq(w, a, b))
    if pred == 'ult':
        return tm.ult(w, a, b)
    if pred == 'ugt':
        return tm.ult(w, b, a)
    if pred == 'ule':
        return tm.ule(w, a, b)
    if pred == 'uge':
        return tm.ule(w, b, a)
    if pred == 'slt':
        return tm.slt(w, a, b)
    if pred == 'sgt':
        return tm.slt(w, b, a)
    if pred == 'sle':
        return tm.sle(w, a, b)
    return tm.sle(w, b, a)


def pcmp(pred, a, b):
    if a is UNDEF or a is None or b is UNDEF or b is None:
        raise Fail('init', None, 'comparison of an uninitialised pointer')
    if a.__class__ is Ptr and b.__class__ is Ptr:
        if a.obj == b.obj:
            x = a.off if type(a.off) is T else a.off & M64
            y = b.off if type(b.off) is T else b.off & M64
            return op_icmp(pred, 64, x, y)
        if pred == 'eq':
            return 0
        if pred == 'ne':
            return 1
        raise Fail('ub', None, 'ordered comparison of pointers into different objects')
    if pred in ('eq', 'ne'):
        e = 1 if (a.__class__ is b.__class__ and a == b) else 0
        if a.__class__ is T or b.__class__ is T:
            raise Limit('comparison of a pointer with a symbolic integer')
        return e if pred == 'eq' else 1 - e
    raise Limit('ordered comparison of %r and %r' % (a, b))


def op_zext(v, w0, w):
    return tm.zext(chk(v), w0, w)


def op_sext(v, w0, w):
    return tm.sext(chk(v), w0, w)


def op_trunc(v, w):
    r = tm.ext(chk(v), 0, w)
    return CUT.get(r, r) if CUT else r


def op_select(st, c, a, b, w):
    c = chk(c)
    if c.__class__ is int:
        return a if c else b
    d = st.facts.decide(c)
    if d is not None:
        return a if d else b
    if a.__class__ in (int, T) and b.__class__ in (int, T) and w:
        return tm.ite(c, a, b, w)
    raise NeedSplit(('cond', c), [1, 0])


def op_alloca(st, fr, size, n, name):
    n = clen(st, n)
    if size * n > 1 << 20:
        raise Limit('large stack allocation')
    oid = st.m.newid(Meta(name, size * n))
    st.objs[oid] = [None] * (size * n)
    st.own.add(oid)
    fr.allocas.append(oid)
    return Ptr(oid, 0, 0, size * n)


# ==================================================================== translation

class CF(object):
    """a translated function"""

    def __init__(self, m, f, key):
        self.m = m
        self.f = f
        self.key = key
        self.mod = f.mod
        self.types = f.mod.types
        self.regs = {}
        self.nreg = 1
        self.segs = []
        self.info = []       # pc -> (block index, instr index)
        self.preg = [self.reg(n) for _, n in f.params]
        self.blockpc = {}
        self.resumed = {}
        self.K = []          # constants referenced by generated code
        for bi, (lab, ins) in enumerate(f.blocks):
            self.blockpc[lab] = self.newpc((bi, self.nphi(ins)))
        self.entry = self.blockpc[f.blocks[0][0]]
        self.edges = {}
        self.src = {}
        for bi, (lab, ins) in enumerate(f.blocks):
            self.gen(self.blockpc[lab], bi, self.nphi(ins))
        self._loops = None

    def nphi(self, ins):
        n = 0
        while n < len(ins) and ins[n].op == 'phi':
            n += 1
        return n

    def reg(self, n):
        r = self.regs.get(n)
        if r is None:
            r = self.nreg
            self.nreg += 1
            self.regs[n] = r
        return r

    def newpc(self, info):
        self.segs.append(None)
        self.info.append(info)
        return len(self.segs) - 1

    def where(self, fr):
        bi, ii = self.info[fr.pc]
        k = fr.R[0]
        ins = self.f.blocks[bi][1]
        line = 0
        if type(k) is int and ii <= k < len(ins):
            line = ins[k].line
        elif ii < len(ins):
            line = ins[ii].line
        fn = self.key if type(self.key) is str else self.key[1]
        return '%s:%d (%s)' % (self.mod.path.split('/')[-1], line, fn)

    def resume(self, pc, k):
        bi, ii = self.info[pc]
        r = self.resumed.get((bi, k))
        if r is None:
            r = self.newpc((bi, k))
            self.gen(r, bi, k)
            self.resumed[(bi, k)] = r
        return r

    def const(self, v):
        self.K.append(v)
        return 'K[%d]' % (len(self.K) - 1)

    def ev(self, v, ty):
        k = v[0]
        if k == 'r':
            return 'R[%d]' % self.reg(v[1])
        if k == 'c':
            t = self.types.res(ty)
            if t[0] == 'i':
                return str(v[1] & ((1 << t[1]) - 1))
            return str(v[1])
        if k == 'undef':
            return 'UNDEF'
        if k == 'zero':
            return '0'
        if k == 'g':
            r = self.m.resolve(self.mod, v[1])
            if r.__class__ is Fn:
                return self.const(r)
            return 'GP(st,%s)' % self.const(r)
        if k == 'cgep':
            off, lo, hi = gep_const(self.types, v[1], v[3])
            return 'gepc(%s,%d,%r,%r)' % (self.ev(v[2], ('p',)), off, lo, hi)
        raise Limit('operand %r' % (v,))

    def edge(self, frm, to):
        """pc to go to when control passes from block frm to block to"""
        bi = self.f.bindex[to]
        ins = self.f.blocks[bi][1]
        if not self.nphi(ins):
            return self.blockpc[to]
        e = self.edges.get((frm, to))
        if e is None:
            e = self.newpc((self.f.bindex[frm], len(self.f.blocks[self.f.bindex[frm]][1]) - 1))
            self.edges[(frm, to)] = e
            self.compile(e, self.edgecode(frm, to) + ['return %d' % self.blockpc[to]])
        return e

    def edgecode(self, frm, to):
        ins = self.f.blocks[self.f.bindex[to]][1]
        n = self.nphi(ins)
        if not n:
            return []
        l = []
        r = []
        for i in range(n):
            t, inc = ins[i].a
            for v, lab in inc:
                if lab == frm:
                    d = 'R[%d]' % self.reg(ins[i].res)
                    s = self.ev(v, t)
                    if d != s:
                        l.append(d)
                        r.append(s)
                    break
            else:
                raise Limit('phi')
        if not l:
            return []
        return ['%s=%s' % (','.join(l), ','.join(r))]

    def compile(self, pc, lines):
        name = '_s%d' % pc
        src = 'def %s(st,R):\n' % name + ''.join('    %s\n' % x for x in lines)
        self.src[pc] = src
        env = self.env()
        exec(compile(src, '<%s>' % (self.key,), 'exec'), env)
        self.segs[pc] = env[name]

    def env(self):
        e = getattr(self, '_env', None)
        if e is None:
            e = dict(globals())
            e['K'] = self.K
            e['GP'] = self.m.globptr
            self._env = e
        return e

    def gen(self, pc, bi, start):
        lab, ins = self.f.blocks[bi]
        out = []
        lastk = None
        for k in range(start, len(ins)):
            I = ins[k]
            op = I.op
            if op in ('load', 'store', 'call', 'bin', 'gep', 'select', 'alloca', 'cast', 'icmp'):
                need = True
                if op in ('cast',):
                    need = False
                if need:
                    out.append('R[0]=%d' % k)
            d = 'R[%d]' % self.reg(I.res) if I.res is not None else None
            if op == 'bin':
                o, t, a, b, fl = I.a
                w = self.types.res(t)
                if w[0] != 'i':
                    raise Limit('floating point')
                w = w[1]
                x = self.ev(a, t)
                y = self.ev(b, t)
                M = (1 << w) - 1
                isc = b[0] == 'c'
                cnd = '%s.__class__ is int' % x if isc else '%s.__class__ is int is %s.__class__' % (x, y)
                if a[0] == 'c':
                    cnd = '%s.__class__ is int' % y
                if o in ('add', 'sub', 'mul'):
                    if 'nsw' in fl:
                        out.append('%s=op_nsw(st,%r,%d,%s,%s)' % (d, o, w, x, y))
                    else:
                        s = {'add': '+', 'sub': '-', 'mul': '*'}[o]
                        out.append('%s=(%s%s%s)&%d if %s else op_%s(%d,%s,%s)' % (d, x, s, y, M, cnd, o, w, x, y))
                elif o in ('and', 'or', 'xor'):
                    s = {'and': '&', 'or': '|', 'xor': '^'}[o]
                    out.append('%s=%s%s%s if %s else op_%s(%d,%s,%s)' % (d, x, s, y, cnd, o, w, x, y))
                elif o == 'shl':
                    out.append('%s=op_shl(st,%d,%s,%s,%r)' % (d, w, x, y, fl))
                elif o in ('lshr', 'ashr'):
                    out.append('%s=op_%s(st,%d,%s,%s)' % (d, o, w, x, y))
                else:
                    out.append('%s=op_div(st,%r,%d,%s,%s)' % (d, o, w, x, y))
            elif op == 'icmp':
                pr, t, a, b = I.a
                tt = self.types.res(t)
                w = tt[1] if tt[0] == 'i' else 64
                x = self.ev(a, t)
                y = self.ev(b, t)
                if tt[0] == 'i' and pr[0] != 's':
                    s = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pr]
                    out.append('%s=(1 if %s%s%s else 0) if %s.__class__ is int is %s.__class__ else op_icmp(%r,%d,%s,%s)' % (d, x, s, y, self.par(x), self.par(y), pr, w, x, y))
                else:
                    out.append('%s=op_icmp(%r,%d,%s,%s)' % (d, pr, w, x, y))
            elif op == 'cast':
                o, t, a, t2 = I.a
                x = self.ev(a, t)
                ta = self.types.res(t)
                tb = self.types.res(t2)
                if o == 'zext':
                    out.append('%s=%s if %s.__class__ is int else op_zext(%s,%d,%d)' % (d, x, self.par(x), x, ta[1], tb[1]))
                elif o == 'sext':
                    out.append('%s=op_sext(%s,%d,%d)' % (d, x, ta[1], tb[1]))
                elif o == 'trunc':
                    out.append('%s=%s&%d if %s.__class__ is int else op_trunc(%s,%d)' % (d, x, (1 << tb[1]) - 1, self.par(x), x, tb[1]))
                elif o in ('bitcast', 'freeze'):
                    out.append('%s=%s' % (d, x))
                else:
                    out.append('raise Limit(%r)' % o)
            elif op == 'load':
                t, p, al = I.a
                n = self.types.size(t)
                tt = self.types.res(t)
                if tt[0] not in ('i', 'p'):
                    out.append('raise Limit("load of aggregate")')
                else:
                    out.append('%s=ld(st,%s,%d,%d)' % (d, self.ev(p, ('p',)), n, al))
                    if tt[0] == 'i' and tt[1] % 8:
                        out.append('%s=op_trunc(%s,%d)' % (d, d, tt[1]))
            elif op == 'store':
                t, v, p, al = I.a
                n = self.types.size(t)
                tt = self.types.res(t)
                x = self.ev(v, t)
                if tt[0] not in ('i', 'p'):
                    if v[0] == 'zero':
                        out.append('b_memset(st,(%s,0,%d))' % (self.ev(p, ('p',)), n))
                    else:
                        out.append('raise Limit("store of aggregate")')
                else:
                    if tt[0] == 'i' and tt[1] % 8:
                        x = 'op_zext(%s,%d,%d)' % (x, tt[1], 8 * n)
                    out.append('sto(st,%s,%s,%d,%d)' % (self.ev(p, ('p',)), x, n, al))
            elif op == 'gep':
                t, p, idx = I.a
                out.extend(self.gep(d, t, p, idx))
            elif op == 'alloca':
                t, cnt = I.a
                out.append('%s=op_alloca(st,st.frames[-1],%d,%s,%r)' % (d, self.types.size(t), self.ev(cnt, ('i', 64)), I.res))
            elif op == 'select':
                t, c, a, b = I.a
                tt = self.types.res(t)
                out.append('%s=op_select(st,%s,%s,%s,%d)' % (d, self.ev(c, ('i', 1)), self.ev(a, t), self.ev(b, t), tt[1] if tt[0] == 'i' else 0))
            elif op == 'call':
                rt, callee, args = I.a
                nx = self.newpc((bi, k + 1))
                out.append('return ("call",%s,[%s],%s,%d)' % (self.ev(callee, ('p',)), ','.join(self.ev(v, t) for t, v in args), self.reg(I.res) if I.res is not None else None, nx))
                self.compile(pc, out)
                self.gen(nx, bi, k + 1)
                return
            elif op == 'br':
                out.extend(self.edgecode(lab, I.a[0]))
                out.append('return %d' % self.blockpc[I.a[0]])
            elif op == 'cbr':
                c, t1, t2 = I.a
                x = self.ev(c, ('i', 1))
                out.append('c=%s' % x)
                e1 = self.edge(lab, t1)
                e2 = self.edge(lab, t2)
                out.append('if c.__class__ is not int:')
                out.append('    return ("fork",chk(c),%d,%d)' % (e1, e2))
                out.append('if c:')
                for z in self.edgecode(lab, t1):
                    out.append('    ' + z)
                out.append('    return %d' % self.blockpc[t1])
                out.extend(self.edgecode(lab, t2))
                out.append('return %d' % self.blockpc[t2])
            elif op == 'switch':
                t, c, dflt, cases = I.a
                w = self.types.res(t)[1]
                cs = [(v & ((1 << w) - 1), self.edge(lab, b)) for v, b in cases]
                de = self.edge(lab, dflt)
                K = self.const(dict(cs))
                x = self.ev(c, t)
                out.append('c=%s' % x)
                out.append('if c.__class__ is int: return %s.get(c,%d)' % (K, de))
                out.append('return ("switch",chk(c),%r,%d,%d)' % (cs, de, w))
            elif op == 'ret':
                if I.a[0] is None:
                    out.append('return ("ret",None)')
                else:
                    t, v = I.a[0]
                    out.append('return ("ret",%s)' % self.ev(v, t))
            elif op == 'unreachable':
                out.append('raise Fail("ub",None,"unreachable code reached")')
            else:
                raise Limit('op ' + op)
        self.compile(pc, out)

    def par(self, x):
        return '(%s)' % x if x[0].isdigit() else x

    def gep(self, d, t, p, idx):
        out = []
        types = self.types
        cur = t
        base = self.ev(p, ('p',))
        off = 0
        lo = hi = None

        def flush():
            nonlocal base, off, lo, hi
            if off or hi is not None:
                out.append('%s=gepc(%s,%d,%r,%r)' % (d, base, off, lo, hi))
                base = d
            off = 0
            lo = hi = None
        for j, (ty, v) in enumerate(idx):
            if j > 0:
                cur = types.res(cur)
                if cur[0] == 's':
                    o, cur = types.fieldoff(cur, v[1])
                    off += o
                    lo = off
                    hi = off + types.size(cur)
                    continue
                cur = cur[2]
            sz = types.size(cur)
            if v[0] == 'c':
                off += v[1] * sz
            else:
                flush()
                w = types.res(ty)[1]
                out.append('%s=gepd(%s,%s,%d,%d)' % (d, base, self.ev(v, ty), sz, w))
                base = d
        flush()
        if base != d:
            out.append('%s=%s' % (d, base))
        return out

    # ---------------------------------------------------------------- loops
    def succs(self, bi):
        I = self.f.blocks[bi][1][-1]
        if I.op == 'br':
            return [self.f.bindex[I.a[0]]]
        if I.op == 'cbr':
            return [self.f.bindex[I.a[1]], self.f.bindex[I.a[2]]]
        if I.op == 'switch':
            return [self.f.bindex[I.a[2]]] + [self.f.bindex[b] for _, b in I.a[3]]
        return []

    def loops(self):
        """natural loops: {header block index: set of blocks}"""
        if self._loops is not None:
            return self._loops
        n = len(self.f.blocks)
        full = set(range(n))
        dom = [full] * n
        dom[0] = {0}
        pred = [[] for _ in range(n)]
        for b in range(n):
            for s in self.succs(b):
                pred[s].append(b)
        ch = True
        while ch:
            ch = False
            for b in range(1, n):
                if not pred[b]:
                    continue
                x = set.intersection(*[dom[q] for q in pred[b]]) | {b}
                if x != dom[b]:
                    dom[b] = x
                    ch = True
        loops = {}
        for b in range(n):
            for s in self.succs(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(pred[x])
        self._loops = loops
        return loops

    def regw(self, r):
        """bit width of an integer register, 0 for pointers"""
        if not hasattr(self, '_regw'):
            self._regw = {}
            def put(name, t):
                t = self.types.res(t)
                self._regw[self.reg(name)] = t[1] if t[0] == 'i' else 0
            for t, nme in self.f.params:
                put(nme, t)
            for lab, ins in self.f.blocks:
                for I in ins:
                    if I.res is None:
                        continue
                    if I.op == 'bin':
                        put(I.res, I.a[1])
                    elif I.op == 'icmp':
                        put(I.res, ('i', 1))
                    elif I.op == 'cast':
                        put(I.res, I.a[3])
                    elif I.op in ('load', 'phi', 'select', 'call'):
                        put(I.res, I.a[0])
                    else:
                        put(I.res, ('p',))
        return self._regw.get(r, 0)

    def phis(self, bi):
        """[(register index, type, source-level name)] of a block's phis"""
        out = []
        for I in self.f.blocks[bi][1]:
            if I.op != 'phi':
                break
            out.append((self.reg(I.res), I.a[0], I.res))
        return out

    def liveat(self, pc):
        """registers that may be read when execution goes on at pc"""
        bi, ii = self.info[pc]
        self.livein(bi)
        live = set(self._out[bi])
        for I in reversed(self.f.blocks[bi][1][ii:]):
            if I.op == 'phi':
                continue
            if I.res is not None:
                live.discard(I.res)
            live |= set(opregs(I))
        return sorted(self.reg(r) for r in live)

    def livein(self, bi):
        """registers live at the start of block bi (after its phis)"""
        if not hasattr(self, '_live'):
            n = len(self.f.blocks)
            use = []
            deff = []
            phiuse = {}
            for b in range(n):
                u = set()
                dd = set()
                for I in self.f.blocks[b][1]:
                    if I.op == 'phi':
                        dd.add(I.res)
                        for v, lab in I.a[1]:
                            if v[0] == 'r':
                                phiuse.setdefault(self.f.bindex[lab], set()).add(v[1])
                        continue
                    for x in opregs(I):
                        if x not in dd:
                            u.add(x)
                    if I.res is not None:
                        dd.add(I.res)
                use.append(u)
                deff.append(dd)
            live = [set() for _ in range(n)]
            ch = True
            phid = [set(I.res for I in self.f.blocks[b][1] if I.op == 'phi') for b in range(n)]
            while ch:
                ch = False
                for b in range(n - 1, -1, -1):
                    o = set(phiuse.get(b, ()))
                    for s in self.succs(b):
                        o |= live[s] - phid[s]
                    x = (use[b] | (o - deff[b]))
                    if x != live[b]:
                        live[b] = x
                        ch = True
            # values of phis that are used inside or after count as live after the phis
            self._live = live
            self._phid = phid
            self._use = use
            self._out = [set(phiuse.get(b, ())).union(*[live[s] - phid[s] for s in self.succs(b)]) if self.succs(b) else set() for b in range(n)]
        x = set(self._live[bi])
        # phi results used in the block or live out
        for p in self._phid[bi]:
            if p in self._out[bi] or any(p in opregs(I) for I in self.f.blocks[bi][1] if I.op != 'phi'):
                x.add(p)
        return {self.reg(r) for r in x}


def opregs(I):
    out = []

    def walk(a):
        if type(a) is tuple:
            if len(a) == 2 and a[0] == 'r' and type(a[1]) is str:
                out.append(a[1])
                return
            for x in a:
                walk(x)
        elif type(a) is list:
            for x in a:
                walk(x)
    walk(I.a)
    return out
