"""Textual LLVM IR reader: just enough of the language for rustc output."""
import re

TOK = re.compile(r'''
   %"[^"]*" | %[-\w.$]+ | @"[^"]*" | @[-\w.$]+ | c"[^"]*" | "[^"]*"
 | ![-\w.$]* | \#\d+ | \$[-\w.$]+
 | [-+]?\d+\.\d+(?:[eE][-+]?\d+)? | [-+]?(?:inf|qnan|nan|snan)\b(?:\(0x[0-9A-Fa-f]+\))? | f?0x[0-9A-Fa-f]+ | -?\d+ | \.\.\. | [A-Za-z_][\w.]* | [()<>\[\]{},=*:|]
''', re.X)


class ParseError(Exception):
    pass


PTR = ('ptr',)
VOID = ('void',)


class Toks(object):
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, t, mod, i=0):
        self.t = t
        self.i = i
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise ParseError('expected %s at %r' % (x, self.t[max(0, self.i - 8):self.i + 8]))

    def parens(self):
        """skip a balanced ( ... )"""
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.i += 1
                self.parens()
        elif x == 'void':
            t = VOID
        elif x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x == 'double':
            t = ('f', 64)
        elif x == 'float':
            t = ('f', 32)
        elif x == 'half':
            t = ('f', 16)
        elif x == 'fp128':
            t = ('f', 128)
        elif x == 'metadata' or x == 'label' or x == 'token':
            t = (x,)
        elif x == '[':
            n = int(self.next())
            self.need('x')
            t = ('a', n, self.type())
            self.need(']')
        elif x == '<':
            if self.peek() == '{':
                self.i += 1
                t = ('s', self.typelist('}'), True)
                self.need('>')
            else:
                n = int(self.next())
                self.need('x')
                t = ('v', n, self.type())
                self.need('>')
        elif x == '{':
            t = ('s', self.typelist('}'), False)
        elif x[0] == '%':
            t = self.mod.types.get(x)
            if t is None:
                raise ParseError('type ' + x)
        else:
            raise ParseError('type? %s in %r' % (x, self.t[max(0, self.i - 6):self.i + 6]))
        return t

    def typelist(self, end):
        out = []
        if self.eat(end):
            return tuple(out)
        while True:
            out.append(self.type())
            if self.eat(end):
                return tuple(out)
            self.need(',')

    # a value of a known type: ('r', name) local, int, tuple for aggregates, ('g', name, off)
    def value(self, ty):
        x = self.next()
        c = x[0]
        if c == '%':
            return ('r', x)
        if c == '@':
            return self.mod.addr(x)
        if ty[0] == 'f' and FSPECIAL.match(x):
            return fspecial(ty[1], x)
        if c.isdigit() or c in '-+':
            if ty[0] == 'f':
                return fbits(ty[1], x)
            return int(x) & ((1 << bits(ty)) - 1)
        if x in ('null', 'zeroinitializer', 'undef', 'poison', 'none'):
            return zero(ty)
        if x == 'true':
            return 1
        if x == 'false':
            return 0
        if c == 'c' and x[1:2] == '"':
            return tuple(cstr(x[2:-1]))
        if x[:3] == 'f0x' or x[:2] == '0x':
            return fbits(ty[1], x)
        if c == '[' or c == '{':
            end = ']' if c == '[' else '}'
            return self.vals(end)
        if c == '<':
            if self.peek() == '{':
                self.i += 1
                v = self.vals('}')
                self.need('>')
                return v
            return self.vals('>')
        return self.constexpr(x, ty)

    def vals(self, end):
        out = []
        if self.eat(end):
            return tuple(out)
        while True:
            t = self.type()
            out.append(self.value(t))
            if self.eat(end):
                return tuple(out)
            self.need(',')

    def constexpr(self, op, ty):
        if op == 'splat':
            self.need('(')
            t = self.type()
            v = self.value(t)
            self.need(')')
            return tuple([v] * ty[1])
        if op == 'blockaddress':
            self.parens()
            return 0
        if op == 'dso_local_equivalent' or op == 'no_cfi':
            return self.value(ty)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'addrspacecast'):
            self.need('(')
            t = self.type()
            v = self.value(t)
            self.need('to')
            t2 = self.type()
            self.need(')')
            return v & ((1 << bits(t2)) - 1)
        if op == 'getelementptr':
            while self.peek() != '(':
                self.i += 1
                if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                    self.parens()
            self.need('(')
            bt = self.type()
            self.need(',')
            self.type()
            base = self.value(PTR)
            off = 0
            first = True
            cur = bt
            while self.eat(','):
                t = self.type()
                ix = self.value(t)
                w = bits(t)
                if ix >> (w - 1):
                    ix -= 1 << w
                if first:
                    off += ix * size(cur)
                    first = False
                else:
                    o, cur = field(cur, ix)
                    off += o
            self.need(')')
            return (base + off) & ((1 << 64) - 1)
        if op in ('add', 'sub', 'xor', 'mul', 'shl', 'and', 'or', 'lshr'):
            while self.peek() != '(':
                self.i += 1
            self.need('(')
            t = self.type()
            a = self.value(t)
            self.need(',')
            t = self.type()
            b = self.value(t)
            self.need(')')
            M = (1 << bits(t)) - 1
            return {'add': a + b, 'sub': a - b, 'xor': a ^ b, 'mul': a * b, 'shl': a << b if op == 'shl' else 0, 'and': a & b, 'or': a | b,
                    'lshr': a >> b if op == 'lshr' else 0}[op] & M
        raise ParseError('constexpr %s %r' % (op, self.t[max(0, self.i - 6):self.i + 6]))

    def attrs(self):
        """skip parameter attributes; returns nothing"""
        while True:
            x = self.peek()
            if x is None:
                return
            if x == 'align':
                self.i += 1
                if self.peek() == '(':
                    self.parens()
                else:
                    self.i += 1
                continue
            if x[0] == '#':
                self.i += 1
                continue
            if x[0] == '"':
                self.i += 1
                if self.eat('='):
                    self.i += 1
                continue
            if (x[0].isalpha()) and x not in VALWORDS and not FSPECIAL.match(x) and not (x[0] == 'c' and x[1:2] == '"') and x[:3] != 'f0x':
                self.i += 1
                if self.peek() == '(':
                    self.parens()
                continue
            return


VALWORDS = {'null', 'zeroinitializer', 'undef', 'poison', 'none', 'true', 'false', 'getelementptr', 'ptrtoint', 'inttoptr',
            'bitcast', 'trunc', 'add', 'sub', 'xor', 'mul', 'splat', 'and', 'or', 'shl', 'lshr', 'blockaddress', 'dso_local_equivalent', 'asm', 'to', 'unwind'}


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin1')
            i += 1
    return bytes(out)


FSPECIAL = re.compile(r'([-+]?)(inf|qnan|nan|snan)(?:\(0x([0-9A-Fa-f]+)\))?$')


def fspecial(w, x):
    sign, kind, pay = FSPECIAL.match(x).groups()
    e, m = (11, 52) if w == 64 else (8, 23)
    v = ((1 << e) - 1) << m
    if kind in ('qnan', 'nan'):
        v |= 1 << (m - 1)
    if kind != 'inf' and pay:
        v |= int(pay, 16)
    if sign == '-':
        v |= 1 << (w - 1)
    return v


def fbits(w, x):
    import struct
    if x[:3] == 'f0x':
        return int(x[3:], 16)
    if x[:2] == '0x':
        v = int(x[2:], 16)
        if w == 32:  # double encoding
            d = struct.unpack('<d', struct.pack('<Q', v))[0]
            return struct.unpack('<I', struct.pack('<f', d))[0]
        return v
    d = float(x)
    if w == 32:
        return struct.unpack('<I', struct.pack('<f', d))[0]
    return struct.unpack('<Q', struct.pack('<d', d))[0]


def bits(t):
    k = t[0]
    if k == 'i' or k == 'f':
        return t[1]
    if k == 'ptr':
        return 64
    if k == 'v':
        return t[1] * bits(t[2])
    raise ParseError('bits of %r' % (t,))


def align(t):
    k = t[0]
    if k == 'i' or k == 'f':
        n = (t[1] + 7) // 8
        a = 1
        while a < n:
            a *= 2
        return min(a, 16)
    if k == 'ptr':
        return 8
    if k == 'a':
        return align(t[2])
    if k == 'v':
        n = (bits(t) + 7) // 8
        a = 1
        while a < n:
            a *= 2
        return a
    if k == 's':
        if t[2]:
            return 1
        return max([align(x) for x in t[1]] or [1])
    raise ParseError('align %r' % (t,))


def size(t):
    """alloc size"""
    k = t[0]
    if k == 'i' or k == 'f':
        n = (t[1] + 7) // 8
        a = align(t)
        return (n + a - 1) // a * a
    if k == 'ptr':
        return 8
    if k == 'a':
        return t[1] * size(t[2])
    if k == 'v':
        n = (bits(t) + 7) // 8
        a = align(t)
        return (n + a - 1) // a * a
    if k == 's':
        o = 0
        for x in t[1]:
            if not t[2]:
                a = align(x)
                o = (o + a - 1) // a * a
            o += size(x)
        a = align(t)
        return (o + a - 1) // a * a
    if k == 'void':
        return 0
    raise ParseError('size %r' % (t,))


def field(t, i):
    """offset and type of element i"""
    k = t[0]
    if k == 'a' or k == 'v':
        return i * size(t[2]), t[2]
    o = 0
    for j, x in enumerate(t[1]):
        if not t[2]:
            a = align(x)
            o = (o + a - 1) // a * a
        if j == i:
            return o, x
        o += size(x)
    raise ParseError('field')


def zero(t):
    k = t[0]
    if k == 'a':
        return tuple([zero(t[2])] * t[1])
    if k == 'v':
        return tuple([zero(t[2])] * t[1])
    if k == 's':
        return tuple(zero(x) for x in t[1])
    return 0


def tobytes(t, v, buf, off):
    """write constant v of type t into bytearray"""
    k = t[0]
    if k == 'a' or k == 'v':
        if t[2] == ('i', 8):
            buf[off:off + t[1]] = bytes(v)
            return
        s = size(t[2])
        for i in range(t[1]):
            tobytes(t[2], v[i], buf, off + i * s)
    elif k == 's':
        for i in range(len(t[1])):
            o, ft = field(t, i)
            tobytes(ft, v[i], buf, off + o)
    else:
        n = size(t)
        buf[off:off + n] = v.to_bytes(n, 'little')


class Global(object):
    __slots__ = ('name', 'toks', 'id', 'size', 'const', 'parsed', 'data', 'tls', 'align')


class Func(object):
    __slots__ = ('name', 'lines', 'params', 'ret', 'noreturn', 'id', 'code', 'entry', 'nregs', 'vararg', 'cover', 'hit', 'memo')


# block cipher kernels: pure functions of the memory their arguments point to; their results for concrete arguments
# are remembered (see State.remembered)
MEMO = re.compile(r'(3aes4soft8fixslice\d+aes256_(encrypt|key_schedule))$')


def memo_sig(L):
    """(bytes written through the first argument, bytes read through each of the others)"""
    ps = L[L.index('(') + 1:].split(', ptr ')
    n = [re.search(r'dereferenceable\((\d+)\)', x) for x in ps]
    if not all(n) or 'writeonly' not in ps[0] or any('readonly' not in x or 'captures(none)' not in x for x in ps[1:]):
        return None
    return tuple(int(m.group(1)) for m in n)


class Module(object):
    def __init__(self, path):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.attrs = {}
        self.aliases = {}
        self.byid = {}
        self.nextid = 16
        self.externs = {}
        self._load(path)

    def newid(self):
        self.nextid += 1
        return self.nextid

    def _load(self, path):
        txt = open(path, encoding='latin1').read().split('\n')
        n = len(txt)
        i = 0
        pend = []
        while i < n:
            L = txt[i]
            if not L:
                i += 1
                continue
            c = L[0]
            if c == '@':
                m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)', L)
                name, rest = m.group(1), m.group(2)
                toks = TOK.findall(rest)
                if 'alias' in toks[:8]:
                    self.aliases[name] = toks
                else:
                    g = Global()
                    g.name = name
                    g.toks = toks
                    g.id = self.newid()
                    g.parsed = False
                    g.size = None
                    g.data = None
                    g.tls = 'thread_local' in toks[:8]
                    self.globals[name] = g
                    self.byid[g.id] = g
            elif c == 'd' and L.startswith('define'):
                j = i + 1
                body = []
                while txt[j] != '}':
                    body.append(txt[j])
                    j += 1
                f = Func()
                f.name = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', L).group(1)
                f.lines = (L, body)
                f.code = None
                f.entry = None
                f.hit = False
                f.memo = memo_sig(L) if MEMO.search(f.name.strip('@"')) else None
                f.id = self.newid()
                f.noreturn = False
                m = re.findall(r'#(\d+)', L[L.rfind(')'):])
                f.params = m
                self.funcs[f.name] = f
                self.byid[f.id] = f
                i = j
            elif c == 'd' and L.startswith('declare'):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', L)
                self.decls[m.group(1)] = L
            elif c == 'a' and L.startswith('attributes'):
                m = re.match(r'attributes #(\d+) = \{(.*)\}', L)
                self.attrs[m.group(1)] = m.group(2)
            elif c == '%':
                m = re.match(r'(%"[^"]*"|%[-\w.$]+) = type (.*)', L)
                if m:
                    pend.append((m.group(1), m.group(2)))
            i += 1
        for nm, t in pend:
            if t == 'opaque':
                self.types[nm] = ('s', (), False)
        for _ in range(4):
            for nm, t in pend:
                if nm not in self.types:
                    try:
                        self.types[nm] = Toks(TOK.findall(t), self).type()
                    except ParseError:
                        pass
        for f in self.funcs.values():
            f.noreturn = any(re.search(r'\bnoreturn\b', self.attrs.get(a, '')) for a in f.params)
            f.params = None

    def addr(self, name):
        g = self.globals.get(name)
        if g is not None:
            return g.id << 32
        f = self.funcs.get(name)
        if f is not None:
            return f.id << 32
        if name in self.aliases:
            t = Toks(self.aliases[name], self)
            while t.next() != 'alias':
                pass
            t.type()
            t.need(',')
            t.type()
            return t.value(PTR)
        if name in self.decls:
            if name not in self.externs:
                i = self.newid()
                self.externs[name] = i
                self.byid[i] = ('extern', name)
            if 'extern_weak' in self.decls[name]:
                return 0
            return self.externs[name] << 32
        raise ParseError('unknown symbol ' + name)

    def ginit(self, g):
        """parse a global's initializer"""
        if g.parsed:
            return
        t = Toks(g.toks, self)
        ext = False
        while True:
            x = t.next()
            if x in ('external', 'extern_weak'):
                ext = True
            if x == 'thread_local' and t.peek() == '(':
                t.parens()
            if x in ('constant', 'global'):
                g.const = x == 'constant'
                break
        ty = t.type()
        g.size = size(ty)
        buf = bytearray(g.size)
        if not ext:
            v = t.value(ty)
            tobytes(ty, v, buf, 0)
        g.data = buf
        g.parsed = True
