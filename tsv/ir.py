"""Reader for the textual LLVM IR that clang produces from /repo's sources.

compile_ir() runs   clang -O0 ... -emit-llvm | opt -passes=mem2reg   on one source file.
parse() returns a Module: globals, functions (basic blocks of instructions), struct layouts and
the DWARF member tables (used to find struct fields by name)."""
import re
import subprocess
import os

CLANG = ['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-emit-llvm', '-S', '-fno-discard-value-names', '-w']


class IRError(Exception):
    pass


def compile_ir(path, flags=()):
    p1 = subprocess.run(CLANG + list(flags) + [path, '-o', '-'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p1.returncode:
        raise IRError('clang failed on %s: %s' % (path, p1.stderr.decode()[-2000:]))
    p2 = subprocess.run(['opt', '-S', '-passes=mem2reg'], input=p1.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p2.returncode:
        raise IRError('opt failed on %s: %s' % (path, p2.stderr.decode()[-2000:]))
    return p2.stdout.decode()


# ---------------------------------------------------------------- types
# int: ('i', n); ptr: ('p',); array ('a', n, t); struct ('s', name|None, (fields), packed); void ('v',)

class Types(object):
    def __init__(self):
        self.named = {}

    def parse(self, s, i=0):
        """returns (type, next index)"""
        while s[i] == ' ':
            i += 1
        c = s[i]
        m = re.compile(r'i(\d+)').match(s, i)
        if m:
            return ('i', int(m.group(1))), m.end()
        if s.startswith('ptr', i):
            return ('p',), i + 3
        if s.startswith('void', i):
            return ('v',), i + 4
        if s.startswith('metadata', i):
            return ('m',), i + 8
        if s.startswith('double', i):
            return ('f', 64), i + 6
        if s.startswith('float', i):
            return ('f', 32), i + 5
        if c == '[':
            m = re.compile(r'\[\s*(\d+) x ').match(s, i)
            t, j = self.parse(s, m.end())
            while s[j] == ' ':
                j += 1
            if s[j] != ']':
                raise IRError('type ' + s[i:i + 60])
            return ('a', int(m.group(1)), t), j + 1
        if c == '%':
            m = re.compile(r'%("[^"]*"|[-a-zA-Z$._0-9]+)').match(s, i)
            return ('n', m.group(1).strip('"')), m.end()
        if c == '{' or s.startswith('<{', i):
            packed = c == '<'
            j = i + (2 if packed else 1)
            fs = []
            while True:
                while s[j] in ' ,':
                    j += 1
                if s[j] == '}':
                    j += 1
                    break
                t, j = self.parse(s, j)
                fs.append(t)
            if packed:
                j += 1
            return ('s', tuple(fs), packed), j
        raise IRError('type? ' + s[i:i + 60])

    def res(self, t):
        while t[0] == 'n':
            t = self.named[t[1]]
        return t

    def size(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return p
        if k == 'p':
            return 8
        if k == 'a':
            return t[1] * self.size(t[2])
        if k == 's':
            off = 0
            for f in t[1]:
                if not t[2]:
                    a = self.align(f)
                    off = (off + a - 1) // a * a
                off += self.size(f)
            if not t[2]:
                a = self.align(t)
                off = (off + a - 1) // a * a
            return off
        if k == 'f':
            return t[1] // 8
        raise IRError('size of %r' % (t,))

    def align(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'a':
            return self.align(t[2])
        if k == 's':
            return 1 if t[2] else max([self.align(f) for f in t[1]] or [1])
        return min(self.size(t), 16)

    def fieldoff(self, t, i):
        t = self.res(t)
        off = 0
        for j, f in enumerate(t[1]):
            if not t[2]:
                a = self.align(f)
                off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += self.size(f)
        raise IRError('field')


class Func(object):
    def __init__(self, name, ret, params, internal, variadic):
        self.name = name
        self.ret = ret
        self.params = params      # list of (type, regname)
        self.internal = internal
        self.variadic = variadic
        self.blocks = []          # list of (label, [Instr])
        self.bindex = {}
        self.decl = False
        self.mod = None

    def sig(self):
        return (self.ret, tuple(t for t, _ in self.params))


class Instr(object):
    __slots__ = ('op', 'res', 'a', 'line')

    def __init__(self, op, res, a, line):
        self.op = op
        self.res = res
        self.a = a
        self.line = line


class Global(object):
    def __init__(self, name, ty, const, internal, init, external):
        self.name = name
        self.ty = ty
        self.const = const
        self.internal = internal
        self.init = init
        self.external = external


ATTR = re.compile(r'\b(noundef|nocapture|readonly|writeonly|nonnull|noalias|immarg|signext|zeroext|returned|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|inreg|nest|readnone|allocalign|allocptr|nofree|sret\([^)]*\)|byval\([^)]*\)|range\([^)]*\)|captures\([^)]*\)|dead_on_unwind|writable|initializes\([^)]*\))\s*')
REG = r'%(?:"[^"]*"|[-a-zA-Z$._0-9]+)'


class Module(object):
    def __init__(self, text, path):
        self.path = path
        self.types = Types()
        self.globals = {}
        self.funcs = {}
        self.md = {}
        self.parse(text)

    # ---- values: ('r', name) | ('c', int) | ('g', name) | ('null',) | ('undef',) | ('zero',)
    #      | ('agg', [..(type,val)]) | ('str', bytes) | ('cgep', basetype, base, [(ty,val)])
    def val(self, s, i, ty):
        while s[i] == ' ':
            i += 1
        c = s[i]
        if c == '%':
            m = re.compile(REG).match(s, i)
            return ('r', m.group(0)[1:].strip('"')), m.end()
        if c == '@':
            m = re.compile(r'@("[^"]*"|[-a-zA-Z$._0-9]+)').match(s, i)
            return ('g', m.group(1).strip('"')), m.end()
        m = re.compile(r'-?\d+').match(s, i)
        if m:
            return ('c', int(m.group(0))), m.end()
        for w, v in (('null', ('c', 0)), ('undef', ('undef',)), ('poison', ('undef',)), ('true', ('c', 1)), ('false', ('c', 0)), ('zeroinitializer', ('zero',))):
            if s.startswith(w, i):
                return v, i + len(w)
        if s.startswith('c"', i):
            j = s.index('"', i + 2)
            raw = s[i + 2:j]
            out = bytearray()
            k = 0
            while k < len(raw):
                if raw[k] == '\\':
                    if raw[k + 1] == '\\':
                        out.append(92)
                        k += 2
                    else:
                        out.append(int(raw[k + 1:k + 3], 16))
                        k += 3
                else:
                    out.append(ord(raw[k]))
                    k += 1
            return ('str', bytes(out)), j + 1
        if c in '[{<':
            close = {'[': ']', '{': '}', '<': '>'}[c]
            j = i + 1
            if c == '<' and s[j] == '{':
                j += 1
                close = '}'
            items = []
            while True:
                while s[j] in ' ,':
                    j += 1
                if s[j] == close:
                    j += 1
                    break
                t, j = self.types.parse(s, j)
                v, j = self.val(s, j, t)
                items.append((t, v))
            if c == '<':
                if s[j:j + 1] == '>':
                    j += 1
            return ('agg', items), j
        if s.startswith('getelementptr', i):
            j = s.index('(', i) + 1
            bt, j = self.types.parse(s, j)
            j = s.index(',', j) + 1
            items = []
            while True:
                while s[j] in ' ,':
                    j += 1
                if s[j] == ')':
                    j += 1
                    break
                m = re.compile(r'inrange ').match(s, j)
                if m:
                    j = m.end()
                t, j = self.types.parse(s, j)
                v, j = self.val(s, j, t)
                items.append((t, v))
            return ('cgep', bt, items[0][1], items[1:]), j
        raise IRError('value? ' + s[i:i + 80])

    def typed(self, s, i):
        """type, attributes, value"""
        t, i = self.types.parse(s, i)
        m = re.compile(r'\s*').match(s, i)
        i = m.end()
        while True:
            m = ATTR.match(s, i)
            if not m:
                break
            i = m.end()
        v, i = self.val(s, i, t)
        return t, v, i

    def parse(self, text):
        lines = text.split('\n')
        n = len(lines)
        i = 0
        bodies = []
        while i < n:
            ln = lines[i]
            if ln.startswith('%'):
                m = re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                if m:
                    if m.group(2).startswith('opaque'):
                        self.types.named[m.group(1).strip('"')] = ('s', (), False)
                    else:
                        self.types.named[m.group(1).strip('"')] = self.types.parse(m.group(2))[0]
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            elif ln.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                bodies.append((i, j))
                i = j
            i += 1
        for ln in lines:
            if ln.startswith('@'):
                self.parse_global(ln)
            elif ln.startswith('declare'):
                f = self.parse_head(ln)
                f.decl = True
                self.funcs.setdefault(f.name, f)
        for a, b in bodies:
            f = self.parse_head(lines[a])
            f.mod = self
            self.parse_body(f, lines[a + 1:b])
            self.funcs[f.name] = f

    def parse_global(self, ln):
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        name = m.group(1).strip('"')
        rest = m.group(2)
        m = re.match(r'((?:[a-z_]+(?:\([^)]*\))?\s+)*?)(constant|global|alias)\s+', rest)
        if not m:
            raise IRError('global ' + ln[:100])
        pre = m.group(1)
        internal = 'internal' in pre or 'private' in pre
        external = 'external' in pre
        const = m.group(2) == 'constant'
        t, i = self.types.parse(rest, m.end())
        init = None
        if not external:
            init, _ = self.val(rest, i, t)
        self.globals[name] = Global(name, t, const, internal, init, external)

    def parse_head(self, ln):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
        name = m.group(1).strip('"')
        pre = ln[:m.start()]
        internal = ' internal ' in pre
        pre = ATTR.sub('', pre).strip()
        # return type: last type in pre
        toks = pre.split()
        rt = None
        for k in range(len(toks) - 1, -1, -1):
            try:
                rt, e = self.types.parse(' '.join(toks[k:]))
                if e >= len(' '.join(toks[k:])):
                    break
            except (IRError, IndexError):
                continue
        # params
        i = m.end()
        params = []
        var = False
        cnt = 0
        while True:
            while ln[i] in ' ,':
                i += 1
            if ln[i] == ')':
                break
            if ln.startswith('...', i):
                var = True
                i += 3
                continue
            t, i = self.types.parse(ln, i)
            mm = re.compile(r'\s*').match(ln, i)
            i = mm.end()
            while True:
                mm = ATTR.match(ln, i)
                if not mm:
                    break
                i = mm.end()
            mm = re.compile(REG).match(ln, i)
            if mm:
                params.append((t, mm.group(0)[1:].strip('"')))
                i = mm.end()
            else:
                params.append((t, str(cnt)))
            cnt += 1
        f = Func(name, rt, params, internal, var)
        return f

    def line(self, dbg):
        s = self.md.get(dbg)
        if not s:
            return 0
        m = re.search(r'line: (\d+)', s)
        return int(m.group(1)) if m else 0

    def parse_body(self, f, lines):
        cur = None
        i = 0
        first = True
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                lab = m.group(1).strip('"')
                cur = []
                f.bindex[lab] = len(f.blocks)
                f.blocks.append((lab, cur))
                first = False
                continue
            if first:
                # implicit entry label: number of unnamed params
                lab = '%entry'
                nums = [int(p) for _, p in f.params if p.isdigit()]
                lab = str(max(nums) + 1) if nums else ('0' if not f.params else 'entry')
                cur = []
                f.bindex[lab] = 0
                f.blocks.append((lab, cur))
                first = False
            s = ln.strip()
            if s.startswith('switch') and s.rstrip().endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            ins = self.instr(s)
            if ins is not None:
                cur.append(ins)

    def instr(self, s):
        if 'llvm.dbg.' in s or s.startswith('#dbg'):
            return None
        dbg = 0
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = self.line(int(m.group(1)))
        s = re.sub(r', ![a-zA-Z.]+ !\d+', '', s)
        res = None
        m = re.match(r'(' + REG + r') = (.*)$', s)
        if m:
            res = m.group(1)[1:].strip('"')
            s = m.group(2)
        m = re.match(r'(tail |musttail |notail )?([a-z_]+)\b', s)
        op = m.group(2)
        i = m.end()
        T = self.types
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            fl = []
            while True:
                m = re.compile(r'\s+(nuw|nsw|exact|disjoint)\b').match(s, i)
                if not m:
                    break
                fl.append(m.group(1))
                i = m.end()
            t, a, i = self.typed(s, i)
            i = s.index(',', i) + 1
            b, i = self.val(s, i, t)
            return Instr('bin', res, (op, t, a, b, tuple(fl)), dbg)
        if op == 'icmp':
            m = re.compile(r'\s+(samesign )?(\w+)\s+').match(s, i)
            t, a, i = self.typed(s, m.end())
            i = s.index(',', i) + 1
            b, i = self.val(s, i, t)
            return Instr('icmp', res, (m.group(2), t, a, b), dbg)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            m = re.compile(r'(\s+(nneg|nuw|nsw))*').match(s, i)
            i = m.end()
            t, a, i = self.typed(s, i)
            t2 = t
            if op != 'freeze':
                i = s.index(' to ', i) + 4
                t2, i = T.parse(s, i)
            return Instr('cast', res, (op, t, a, t2), dbg)
        if op == 'load':
            m = re.compile(r'\s+(volatile\s+)?').match(s, i)
            t, i = T.parse(s, m.end())
            i = s.index(',', i) + 1
            _, p, i = self.typed(s, i)
            m = re.search(r'align (\d+)', s[i:])
            return Instr('load', res, (t, p, int(m.group(1)) if m else 1), dbg)
        if op == 'store':
            m = re.compile(r'\s+(volatile\s+)?').match(s, i)
            t, v, i = self.typed(s, m.end())
            i = s.index(',', i) + 1
            _, p, i = self.typed(s, i)
            m = re.search(r'align (\d+)', s[i:])
            return Instr('store', None, (t, v, p, int(m.group(1)) if m else 1), dbg)
        if op == 'getelementptr':
            m = re.compile(r'(\s+(inbounds|nuw|nusw))*').match(s, i)
            t, i = T.parse(s, m.end())
            i = s.index(',', i) + 1
            _, p, i = self.typed(s, i)
            idx = []
            while i < len(s) and s[i] == ',':
                ty, v, i = self.typed(s, i + 1)
                idx.append((ty, v))
            return Instr('gep', res, (t, p, idx), dbg)
        if op == 'alloca':
            t, i = T.parse(s, i)
            cnt = ('c', 1)
            m = re.compile(r',\s*(i\d+ .*?)(,|$)').match(s, i)
            if m:
                _, cnt, _ = self.typed(m.group(1), 0)
            return Instr('alloca', res, (t, cnt), dbg)
        if op == 'br':
            m = re.match(r'br label (' + REG + ')', s)
            if m:
                return Instr('br', None, (m.group(1)[1:].strip('"'),), dbg)
            t, c, j = self.typed(s, i)
            ls = re.findall(r'label (' + REG + ')', s[j:])
            return Instr('cbr', None, (c, ls[0][1:].strip('"'), ls[1][1:].strip('"')), dbg)
        if op == 'switch':
            t, c, j = self.typed(s, i)
            m = re.compile(r'\s*,\s*label (' + REG + r')').match(s, j)
            dflt = m.group(1)[1:].strip('"')
            cases = re.findall(r'i\d+ (-?\d+), label (' + REG + ')', s[m.end():])
            return Instr('switch', None, (t, c, dflt, [(int(a), b[1:].strip('"')) for a, b in cases]), dbg)
        if op == 'ret':
            if s.strip() == 'ret void':
                return Instr('ret', None, (None,), dbg)
            t, v, j = self.typed(s, i)
            return Instr('ret', None, ((t, v),), dbg)
        if op == 'phi':
            t, j = T.parse(s, i)
            inc = []
            for m in re.finditer(r'\[\s*(.*?),\s*(' + REG + r')\s*\]', s[j:]):
                v, _ = self.val(m.group(1), 0, t)
                inc.append((v, m.group(2)[1:].strip('"')))
            return Instr('phi', res, (t, inc), dbg)
        if op == 'select':
            t, c, j = self.typed(s, i)
            j = s.index(',', j) + 1
            t1, a, j = self.typed(s, j)
            j = s.index(',', j) + 1
            t2, b, j = self.typed(s, j)
            return Instr('select', res, (t1, c, a, b), dbg)
        if op == 'call':
            # call [attrs] rettype [(..)] callee(args)
            rest = s[i:]
            rest = ATTR.sub('', rest)
            rest = re.sub(r'^\s*(fast|fastcc|ccc|nnan|cc \d+)\s+', ' ', rest)
            t, j = T.parse(rest, 0)
            while rest[j] == ' ':
                j += 1
            var = False
            if rest[j] == '(':
                j = rest.index(')', j) + 1
                var = True
            if re.compile(r'\s*asm').match(rest, j):
                raise IRError('inline asm')
            callee, j = self.val(rest, j, ('p',))
            while rest[j] != '(':
                j += 1
            j += 1
            args = []
            while True:
                while rest[j] in ' ,':
                    j += 1
                if rest[j] == ')':
                    break
                if rest.startswith('metadata', j):
                    return None
                ty, v, j = self.typed(rest, j)
                args.append((ty, v))
            return Instr('call', res, (t, callee, args), dbg)
        if op == 'unreachable':
            return Instr('unreachable', None, (), dbg)
        raise IRError('instruction ' + s[:120])

    # ------------------------------------------------------------ DWARF struct members
    def members(self, sname):
        """{field name: (byte offset, byte size)} of struct/union sname; nested anonymous or named
        aggregates appear with dotted names"""
        for k, s in self.md.items():
            if 'DICompositeType(' in s and 'name: "%s"' % sname in s and 'elements:' in s and ('structure_type' in s or 'union_type' in s):
                out = {}
                self._members(k, 0, '', out, 0)
                return out
        return None

    def sizeof(self, sname):
        """size in bytes of struct/union sname, from the debug information"""
        for k, s in self.md.items():
            if 'DICompositeType(' in s and 'name: "%s"' % sname in s and 'elements:' in s and ('structure_type' in s or 'union_type' in s):
                return int(re.search(r'\bsize: (\d+)', s).group(1)) // 8
        return None

    def _strip(self, ref):
        for _ in range(10):
            s = self.md.get(ref, '')
            if 'DIDerivedType(' in s and ('DW_TAG_typedef' in s or 'DW_TAG_const_type' in s or 'DW_TAG_volatile_type' in s):
                m = re.search(r'baseType: !(\d+)', s)
                if not m:
                    return None
                ref = int(m.group(1))
                continue
            return ref
        return ref

    def _members(self, k, base, prefix, out, depth):
        s = self.md[k]
        m = re.search(r'elements: !(\d+)', s)
        if not m or depth > 5:
            return
        for e in re.findall(r'!(\d+)', self.md[int(m.group(1))]):
            d = self.md[int(e)]
            if 'DW_TAG_member' not in d:
                continue
            nm = re.search(r'name: "([^"]*)"', d)
            off = re.search(r'\boffset: (\d+)', d)
            off = base + (int(off.group(1)) // 8 if off else 0)
            size = int(re.search(r'\bsize: (\d+)', d).group(1)) // 8
            bt = self._strip(int(re.search(r'baseType: !(\d+)', d).group(1)))
            sub = self.md.get(bt, '')
            name = nm.group(1) if nm else ''
            if name:
                out[prefix + name] = (off, size)
            if 'DICompositeType(' in sub and ('structure_type' in sub or 'union_type' in sub):
                self._members(bt, off, (prefix + name + '.') if name else prefix, out, depth + 1)


def load(path, flags=()):
    return Module(compile_ir(path, flags), path)
