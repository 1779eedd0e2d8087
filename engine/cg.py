"""LLVM function -> Python code.  A function becomes a set of segments, each a
Python function (state, regs) -> next segment.  A segment can be re-executed
from its start: an instruction that may fork never follows a side effect in the
same segment."""
import re
import ll
from ll import Toks, TOK, bits, size, field, zero, PTR, ParseError
import expr


def split_blocks(body):
    blocks = []
    cur = None
    label = '0'
    i = 0
    joined = []
    # join continuation lines
    while i < len(body):
        L = body[i]
        s = L.strip()
        if not s or s.startswith(';'):
            i += 1
            continue
        if s.startswith('switch ') and '[' in s and ']' not in s[s.rfind('['):]:
            while ']' not in body[i + 1].strip()[:1]:
                i += 1
                s += ' ' + body[i].strip()
            i += 1
            s += ' ]'
        elif s.startswith('to label') or s in ('cleanup',) or s.startswith('catch ') or s.startswith('filter ') or s.startswith('cleanup'):
            joined[-1] += ' ' + s
            i += 1
            continue
        joined.append(s)
        i += 1
    return joined


LAB = re.compile(r'^("[^"]*"|[-\w.$]+):')


class Cg(object):
    def __init__(self, vm, fn):
        self.vm = vm
        self.mod = vm.mod
        self.fn = fn
        self.ty = {}       # local -> type
        self.ix = {}       # local -> register index

    def reg(self, name):
        r = self.ix.get(name)
        if r is None:
            r = self.ix[name] = len(self.ix)
        return r

    def parse_head(self):
        L = self.fn.lines[0]
        t = Toks(TOK.findall(L), self.mod)
        while t.peek()[0] != '@':
            # skip up to the return type; keep last type seen
            save = t.i
            try:
                ty = t.type()
                self.fn.ret = ty
            except ParseError:
                t.i = save + 1
                if t.peek() == '(':
                    t.parens()
            except IndexError:
                raise
        t.next()
        t.need('(')
        params = []
        n = 0
        self.fn.vararg = False
        if not t.eat(')'):
            while True:
                if t.eat('...'):
                    self.fn.vararg = True
                    t.need(')')
                    break
                ty = t.type()
                t.attrs()
                x = t.peek()
                if x and x[0] == '%':
                    nm = t.next()
                else:
                    nm = '%' + str(n)
                n += 1
                params.append((nm, ty))
                if t.eat(')'):
                    break
                t.need(',')
        self.fn.params = params
        for nm, ty in params:
            self.ty[nm] = ty
            self.reg(nm)

    def parse_body(self):
        self.blocks = {}
        self.order = []
        first = str(len(self.fn.params))
        label = None
        cur = None
        for s in split_blocks(self.fn.lines[1]):
            m = LAB.match(s)
            if m:
                label = '%' + m.group(1)
                cur = []
                self.blocks[label] = cur
                self.order.append(label)
                continue
            if cur is None:
                label = '%' + first
                cur = []
                self.blocks[label] = cur
                self.order.append(label)
            ins = self.instr(s)
            if ins is not None:
                cur.append(ins)

    # ---- one instruction -> (op, dest, data...)
    def instr(self, s):
        if 'noalias.scope.decl' in s or '@llvm.lifetime' in s or '#dbg_' in s or '@llvm.dbg' in s:
            return None
        toks = TOK.findall(s)
        # cut metadata
        for k in range(len(toks) - 1):
            if toks[k] == ',' and toks[k + 1][0] == '!':
                toks = toks[:k]
                break
        t = Toks(toks, self.mod)
        dest = None
        if t.peek(1) == '=':
            dest = t.next()
            t.next()
        op = t.next()
        while op in ('tail', 'musttail', 'notail'):
            op = t.next()
        d = {'op': op, 'd': dest}
        V = t.value
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            while t.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'):
                t.next()
            ty = t.type()
            a = V(ty)
            if op == 'fneg':
                d.update(t=ty, a=a, res=ty)
            else:
                t.need(',')
                d.update(t=ty, a=a, b=V(ty), res=ty)
        elif op in ('icmp', 'fcmp'):
            while t.peek() in ('samesign', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'):
                t.next()
            p = t.next()
            ty = t.type()
            a = V(ty)
            t.need(',')
            b = V(ty)
            r = ('v', ty[1], ('i', 1)) if ty[0] == 'v' else ('i', 1)
            d.update(p=p, t=ty, a=a, b=b, res=r)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'addrspacecast', 'ptrtoaddr'):
            while t.peek() in ('nneg', 'nuw', 'nsw', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'):
                t.next()
            ty = t.type()
            a = V(ty)
            t.need('to')
            d.update(t=ty, a=a, res=t.type())
        elif op == 'freeze':
            ty = t.type()
            d.update(t=ty, a=V(ty), res=ty)
        elif op == 'select':
            while t.peek() in ('nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'):
                t.next()
            ct = t.type()
            c = V(ct)
            t.need(',')
            ty = t.type()
            a = V(ty)
            t.need(',')
            t.type()
            b = V(ty)
            d.update(t=ty, ct=ct, c=c, a=a, b=b, res=ty)
        elif op == 'getelementptr':
            while t.peek() in ('inbounds', 'nuw', 'nusw', 'nsw') or t.peek() == 'inrange':
                if t.next() == 'inrange':
                    t.parens()
            bt = t.type()
            t.need(',')
            t.type()
            base = V(PTR)
            idx = []
            while t.eat(','):
                ty = t.type()
                idx.append((ty, V(ty)))
            d.update(bt=bt, a=base, idx=idx, res=PTR)
        elif op == 'load':
            while t.peek() in ('atomic', 'volatile'):
                t.next()
            ty = t.type()
            t.need(',')
            t.type()
            d.update(t=ty, a=V(PTR), res=ty)
        elif op == 'store':
            while t.peek() in ('atomic', 'volatile'):
                t.next()
            ty = t.type()
            v = V(ty)
            t.need(',')
            t.type()
            d.update(t=ty, v=v, a=V(PTR))
        elif op == 'alloca':
            ty = t.type()
            n = 1
            if t.eat(','):
                if t.peek() != 'align':
                    t2 = t.type()
                    n = V(t2)
            if type(n) is not int:
                raise ParseError('dynamic alloca')
            d.update(n=size(ty) * n, res=PTR)
        elif op == 'br':
            if t.eat('label'):
                d.update(c=None, x=t.next())
            else:
                ty = t.type()
                c = V(ty)
                t.need(',')
                t.need('label')
                x = t.next()
                t.need(',')
                t.need('label')
                d.update(c=c, x=x, y=t.next())
        elif op == 'switch':
            ty = t.type()
            v = V(ty)
            t.need(',')
            t.need('label')
            df = t.next()
            t.need('[')
            cases = []
            while not t.eat(']'):
                ct = t.type()
                cv = V(ct)
                t.need(',')
                t.need('label')
                cases.append((cv, t.next()))
            d.update(t=ty, v=v, df=df, cases=cases)
        elif op == 'ret':
            ty = t.type()
            d.update(t=ty, v=None if ty == ll.VOID else V(ty))
        elif op == 'phi':
            while t.peek() in ('nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'):
                t.next()
            ty = t.type()
            inc = {}
            while True:
                t.need('[')
                v = V(ty)
                t.need(',')
                inc[t.next()] = v
                t.need(']')
                if not t.eat(','):
                    break
            d.update(t=ty, inc=inc, res=ty)
        elif op in ('call', 'invoke'):
            d['op'] = 'call'
            while t.peek() in ('fastcc', 'coldcc', 'ccc', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'cc', 'preserve_mostcc', 'x86_64_sysvcc'):
                t.next()
            # return attributes then type
            while True:
                save = t.i
                try:
                    ty = t.type()
                    break
                except (ParseError, ValueError):
                    t.i = save + 1
                    if t.peek() == '(':
                        t.parens()
            if t.peek() == '(':
                # function type (varargs): skip
                t.parens()
            if t.peek() == 'asm':
                d.update(op='asm', text=s, res=ty)
                if dest:
                    self.ty[dest] = ty
                    self.reg(dest)
                return d
            callee = t.next()
            if callee[0] == '%':
                callee = ('r', callee)
            elif callee[0] != '@':
                raise ParseError('callee ' + s)
            t.need('(')
            args = []
            if not t.eat(')'):
                while True:
                    at = t.type()
                    if at == ('metadata',):
                        while t.peek() not in (',', ')'):
                            t.next()
                        args.append((at, 0))
                    else:
                        t.attrs()
                        args.append((at, V(at)))
                    if t.eat(')'):
                        break
                    t.need(',')
            nrt = False
            nxt = None
            while t.peek() is not None:
                x = t.next()
                if x[0] == '#':
                    if re.search(r'\bnoreturn\b', self.mod.attrs.get(x[1:], '')):
                        nrt = True
                elif x == 'to':
                    t.need('label')
                    nxt = t.next()
            d.update(res=ty, f=callee, args=args, nrt=nrt, nxt=nxt)
        elif op == 'extractvalue':
            ty = t.type()
            a = V(ty)
            ix = []
            while t.eat(','):
                ix.append(int(t.next()))
            r = ty
            for i in ix:
                r = r[2] if r[0] == 'a' else r[1][i]
            d.update(t=ty, a=a, ix=ix, res=r)
        elif op == 'insertvalue':
            ty = t.type()
            a = V(ty)
            t.need(',')
            t2 = t.type()
            v = V(t2)
            ix = []
            while t.eat(','):
                ix.append(int(t.next()))
            d.update(t=ty, a=a, v=v, ix=ix, res=ty)
        elif op == 'extractelement':
            ty = t.type()
            a = V(ty)
            t.need(',')
            t2 = t.type()
            d.update(t=ty, a=a, i=V(t2), res=ty[2])
        elif op == 'insertelement':
            ty = t.type()
            a = V(ty)
            t.need(',')
            t2 = t.type()
            v = V(t2)
            t.need(',')
            t3 = t.type()
            d.update(t=ty, a=a, v=v, i=V(t3), res=ty)
        elif op == 'shufflevector':
            ty = t.type()
            a = V(ty)
            t.need(',')
            t.type()
            b = V(ty)
            t.need(',')
            t3 = t.type()
            m = V(t3)
            d.update(t=ty, a=a, b=b, m=m, res=('v', t3[1], ty[2]))
        elif op == 'atomicrmw':
            while t.peek() == 'volatile':
                t.next()
            k = t.next()
            t.type()
            p = V(PTR)
            t.need(',')
            ty = t.type()
            d.update(k=k, a=p, t=ty, v=V(ty), res=ty)
        elif op == 'cmpxchg':
            while t.peek() in ('weak', 'volatile'):
                t.next()
            t.type()
            p = V(PTR)
            t.need(',')
            ty = t.type()
            c = V(ty)
            t.need(',')
            t.type()
            n = V(ty)
            d.update(a=p, t=ty, c=c, n=n, res=('s', (ty, ('i', 1)), False))
        elif op in ('unreachable', 'resume', 'landingpad', 'fence', 'va_arg'):
            if op == 'fence':
                return None
            if dest:
                d['res'] = VOIDLP
        else:
            raise ParseError('instr ' + s)
        if dest and d.get('res') != ll.VOID:
            self.ty[dest] = d['res']
            self.reg(dest)
        return d

    # ---------------------------------------------------------------- segments
    def compile(self):
        self.parse_head()
        self.parse_body()
        fn = self.fn
        # segmentation: list of (label, [instrs]) ; block label -> first segment id
        segs = []
        first = {}
        static = set()
        for lab in self.order:
            cur = []
            first[lab] = len(segs)
            segs.append((lab, cur))
            dirty = False
            for d in self.blocks[lab]:
                op = d['op']
                if op == 'phi':
                    continue
                if op == 'alloca' or (op == 'getelementptr' and self.isstatic(d, static)):
                    static.add(d['d'])
                fork, eff, term = self.kind(d, static)
                if fork and dirty:
                    cur = []
                    segs.append((lab, cur))
                    dirty = False
                cur.append(d)
                if eff:
                    dirty = True
                if term:
                    cur = []
                    segs.append((lab, cur))
                    dirty = False
            if segs[-1][0] == lab and not segs[-1][1] and len(segs) - 1 > first[lab]:
                segs.pop()
        self.segs = segs
        self.first = first
        # uses outside the defining segment
        defseg = {}
        for k, (lab, ins) in enumerate(segs):
            for d in ins:
                if d['d']:
                    defseg[d['d']] = k
        outside = set()

        def use(v, k):
            if type(v) is tuple and v and v[0] == 'r':
                if defseg.get(v[1]) != k:
                    outside.add(v[1])
            elif type(v) is tuple:
                for x in v:
                    use(x, k)
        for k, (lab, ins) in enumerate(segs):
            for d in ins:
                for v in self.operands(d):
                    use(v, k)
                if d['op'] == 'call' and d['d']:
                    outside.add(d['d'])
        for lab in self.order:
            for d in self.blocks[lab]:
                if d['op'] == 'phi':
                    for v in d['inc'].values():
                        use(v, -1)
        self.outside = outside
        out = []
        self.edges = {}
        for k in range(len(segs)):
            self.gen(k, out)
        # edges
        done = set()
        while True:
            todo = [e for e in self.edges if e not in done]
            if not todo:
                break
            for e in todo:
                done.add(e)
                src, dst = e
                out.append('def %s(S, R):' % self.edges[e])
                self.local = set()
                self.o = out
                self.phimoves(src, dst)
                out.append('    return s%d' % self.first[dst])
        ns = dict(self.vm.ns)
        ns['FN'] = fn
        try:
            code = compile('\n'.join(out), fn.name, 'exec')
        except SyntaxError:
            print('\n'.join(out))
            raise
        exec(code, ns)
        fn.entry = ns['s0']
        fn.nregs = len(self.ix)
        fn.code = ns

    def isstatic(self, d, static):
        a = d['a']
        ok = type(a) is int or (a[0] == 'r' and a[1] in static)
        return ok and all(type(v) is int for _, v in d['idx'])

    def sp(self, a, static):
        return type(a) is int or (a[0] == 'r' and a[1] in static)

    def kind(self, d, static):
        """(may fork, has side effect, ends the segment)"""
        op = d['op']
        if op == 'load':
            return (not self.sp(d['a'], static), False, False)
        if op == 'store':
            return (not self.sp(d['a'], static), True, False)
        if op in ('atomicrmw', 'cmpxchg'):
            return (True, True, False)
        if op == 'alloca':
            return (False, True, False)
        if op == 'asm':
            return (True, True, False)
        if op == 'call':
            f = d['f']
            if type(f) is str and f.startswith('@llvm.'):
                if f.startswith(('@llvm.mem',)):
                    return (True, True, False)
                if f.startswith(('@llvm.trap',)):
                    return (False, True, True)
                return (False, False, False)
            if type(f) is str and f in self.mod.decls:
                return (True, True, d['nxt'] is not None or d['nrt'])
            return (True, True, True)
        if op in ('udiv', 'sdiv', 'urem', 'srem', 'extractelement', 'insertelement'):
            return (False, False, False)
        if op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
            return (op in ('switch',), False, True)
        return (False, False, False)

    def operands(self, d):
        op = d['op']
        out = []
        for k in ('a', 'b', 'c', 'v', 'i', 'n'):
            if k in d and not (k == 'n' and op == 'alloca') and type(d[k]) is tuple:
                out.append(d[k])
        if op == 'getelementptr':
            out += [v for _, v in d['idx']]
        if op == 'call':
            out += [v for _, v in d['args']]
            if type(d['f']) is tuple:
                out.append(d['f'])
        if op == 'switch':
            pass
        return out

    # operand -> python expression
    def V(self, v):
        if type(v) is int:
            return str(v)
        if type(v) is bytes:
            return repr(tuple(v))
        if type(v) is tuple:
            if len(v) == 2 and v[0] == 'r' and type(v[1]) is str:
                i = self.ix[v[1]] if v[1] in self.ix else self.reg(v[1])
                if i not in self.local:
                    self.o.append('    v%d = R[%d]' % (i, i))
                    self.local.add(i)
                return 'v%d' % i
            return '(' + ''.join(self.V(x) + ', ' for x in v) + ')'
        raise ParseError('operand %r' % (v,))

    def setd(self, d, ex):
        i = self.ix[d['d']]
        if d['d'] in self.outside:
            self.o.append('    v%d = R[%d] = %s' % (i, i, ex))
        else:
            self.o.append('    v%d = %s' % (i, ex))
        self.local.add(i)

    def phimoves(self, src, dst, ind='    '):
        mv = []
        for d in self.blocks[dst]:
            if d['op'] != 'phi':
                break
            mv.append((self.ix[d['d']], d['inc'][src]))
        if not mv:
            return
        if len(mv) == 1:
            i, v = mv[0]
            self.o.append(ind + 'R[%d] = %s' % (i, self.V2(v)))
        else:
            self.o.append(ind + ', '.join('R[%d]' % i for i, _ in mv) + ' = ' + ', '.join(self.V2(v) for _, v in mv))

    def V2(self, v):
        """operand without emitting a local fetch"""
        if type(v) is tuple and len(v) == 2 and v[0] == 'r' and type(v[1]) is str:
            i = self.ix[v[1]] if v[1] in self.ix else self.reg(v[1])
            return ('v%d' if i in self.local else 'R[%d]') % (i,)
        if type(v) is tuple:
            return '(' + ''.join(self.V2(x) + ', ' for x in v) + ')'
        return self.V(v)

    def hasphi(self, dst):
        b = self.blocks[dst]
        return bool(b) and b[0]['op'] == 'phi'

    def edge(self, src, dst):
        if not self.hasphi(dst):
            return 's%d' % self.first[dst]
        e = (src, dst)
        if e not in self.edges:
            self.edges[e] = 'e%d' % len(self.edges)
        return self.edges[e]

    def goto(self, src, dst, ind='    '):
        self.phimoves(src, dst, ind)
        self.o.append(ind + 'return s%d' % self.first[dst])

    def gen(self, k, out):
        lab, ins = self.segs[k]
        self.o = out
        self.local = set()
        out.append('def s%d(S, R):' % k)
        term = False
        for n, d in enumerate(ins):
            term = self.emit(k, lab, d)
        if not term:
            out.append('    return s%d' % (k + 1))

    def cc(self, *ops):
        """condition that the operands are concrete, or None when all literal"""
        c = [x + '.__class__ is int' for x in ops if not x.lstrip('-').isdigit()]
        return ' and '.join(c)

    def bin(self, d, conc, slow, *ops):
        c = self.cc(*ops)
        if not c:
            self.setd(d, conc)
        else:
            self.setd(d, '%s if %s else %s' % (conc, c, slow))

    def emit(self, k, lab, d):
        op = d['op']
        o = self.o
        V = self.V
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            t = d['t']
            a = V(d['a'])
            b = V(d['b'])
            fnm = {'and': 'band', 'or': 'bor', 'xor': 'bxor'}.get(op, op)
            if t[0] == 'v':
                self.setd(d, 'vbin(%s, %d, %s, %s)' % (fnm, bits(t[2]), a, b))
                return
            w = bits(t)
            M = (1 << w) - 1
            slow = '%s(%d, %s, %s)' % (fnm, w, a, b)
            if op == 'add':
                conc = '(%s + %s) & %d' % (a, b, M)
            elif op == 'sub':
                conc = '(%s - %s) & %d' % (a, b, M)
            elif op == 'mul':
                conc = '(%s * %s) & %d' % (a, b, M)
            elif op == 'and':
                conc = '%s & %s' % (a, b)
            elif op == 'or':
                conc = '%s | %s' % (a, b)
            elif op == 'xor':
                conc = '%s ^ %s' % (a, b)
            else:
                self.setd(d, slow)
                return
            self.bin(d, conc, slow, a, b)
        elif op == 'icmp':
            t = d['t']
            a = V(d['a'])
            b = V(d['b'])
            p = d['p']
            if t[0] == 'v':
                self.setd(d, 'vbin(I_%s, %d, %s, %s)' % (p, bits(t[2]), a, b))
                return
            w = bits(t)
            S_ = 1 << (w - 1)
            slow = 'I_%s(%d, %s, %s)' % (p, w, a, b)
            if p in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge'):
                sym = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[p]
                conc = '(1 if %s %s %s else 0)' % (a, sym, b)
            else:
                sym = {'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[p]

                def fl(x):
                    return str(int(x) ^ S_) if x.isdigit() else '%s ^ %d' % (x, S_)
                conc = '(1 if %s %s %s else 0)' % ('(' + fl(a) + ')', sym, '(' + fl(b) + ')')
            self.bin(d, conc, slow, a, b)
        elif op in ('zext', 'ptrtoint', 'inttoptr', 'trunc', 'sext', 'ptrtoaddr', 'addrspacecast'):
            t = d['t']
            r = d['res']
            a = V(d['a'])
            if t[0] == 'v':
                f = 'trunc' if op == 'trunc' else op
                self.setd(d, 'vcast(%s_, %d, %d, %s)' % (f, bits(r[2]), bits(t[2]), a))
                return
            iw = bits(t)
            w = bits(r)
            if op in ('ptrtoint', 'inttoptr', 'ptrtoaddr', 'addrspacecast'):
                op = 'trunc' if w < iw else 'zext'
            if w == iw:
                self.setd(d, a)
            elif op == 'trunc':
                self.bin(d, '%s & %d' % (a, (1 << w) - 1), 'ext(%d, %s, 0)' % (w, a), a)
            elif op == 'zext':
                self.bin(d, a, 'zext(%d, %s, %d)' % (w, a, iw), a)
            else:
                self.setd(d, 'sext(%d, %s, %d)' % (w, a, iw))
        elif op == 'bitcast':
            self.setd(d, 'bitcast(%r, %r, %s)' % (d['t'], d['res'], V(d['a'])))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            self.setd(d, 'fbin(S, %r, %d, %s, %s)' % (op, bits(d['t']), V(d['a']), V(d['b'])))
        elif op == 'fneg':
            w = bits(d['t'])
            self.setd(d, 'bxor(%d, %s, %d)' % (w, V(d['a']), 1 << (w - 1)))
        elif op == 'fcmp':
            self.setd(d, 'fcmp(S, %r, %d, %s, %s)' % (d['p'], bits(d['t']), V(d['a']), V(d['b'])))
        elif op in ('uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            self.setd(d, 'fconv(S, %r, %d, %d, %s)' % (op, bits(d['res']), bits(d['t']), V(d['a'])))
        elif op == 'freeze':
            self.setd(d, V(d['a']))
        elif op == 'select':
            c = V(d['c'])
            a = V(d['a'])
            b = V(d['b'])
            t = d['t']
            if d['ct'][0] == 'v':
                self.setd(d, 'vselect(%d, %s, %s, %s)' % (bits(t[2]), c, a, b))
            elif t[0] in ('v', 'a', 's'):
                self.setd(d, 'aselect(%r, %s, %s, %s)' % (t, c, a, b))
            else:
                self.bin(d, '(%s if %s else %s)' % (a, c, b), 'ite(%d, %s, %s, %s)' % (bits(t), c, a, b), c)
        elif op == 'getelementptr':
            a = V(d['a'])
            const = 0
            terms = []
            cur = d['bt']
            for n, (ty, v) in enumerate(d['idx']):
                if n == 0:
                    sz = size(cur)
                    if type(v) is int:
                        w = bits(ty)
                        const += (v - (1 << w) if v >> (w - 1) else v) * sz
                    else:
                        terms.append((V(v), bits(ty), sz))
                else:
                    if type(v) is int:
                        w = bits(ty)
                        off, cur = field(cur, v - (1 << w) if v >> (w - 1) else v)
                        const += off
                    else:
                        sz = size(cur[2])
                        cur = cur[2]
                        terms.append((V(v), bits(ty), sz))
            M = (1 << 64) - 1
            if not terms:
                if const == 0:
                    self.setd(d, a)
                else:
                    self.bin(d, '(%s + %d) & %d' % (a, const, M), 'add(64, %s, %d)' % (a, const & M), a)
            elif len(terms) == 1 and terms[0][1] == 64:
                x, _, sz = terms[0]
                cs = (' + %d' % const) if const else ''
                self.bin(d, '(%s + %s * %d%s) & %d' % (a, x, sz, cs, M),
                         'add(64, add(64, %s, mul(64, %s, %d)), %d)' % (a, x, sz, const & M), a, x)
            else:
                ex = 'add(64, %s, %d)' % (a, const & M)
                for x, w, sz in terms:
                    ex = 'add(64, %s, mul(64, sext(64, %s, %d), %d))' % (ex, x, w, sz)
                self.setd(d, ex)
        elif op == 'load':
            t = d['t']
            a = V(d['a'])
            if t[0] in ('i', 'ptr', 'f'):
                w = bits(t)
                n = (w + 7) // 8
                if w == n * 8:
                    self.setd(d, 'S.ld(%s, %d)' % (a, n))
                else:
                    self.setd(d, 'ext(%d, S.ld(%s, %d), 0)' % (w, a, n))
            else:
                self.setd(d, 'S.ldagg(%s, %r)' % (a, t))
        elif op == 'store':
            t = d['t']
            v = V(d['v'])
            a = V(d['a'])
            if t[0] in ('i', 'ptr', 'f'):
                w = bits(t)
                n = (w + 7) // 8
                if w != n * 8:
                    v = 'zext(%d, %s, %d)' % (n * 8, v, w)
                o.append('    S.sto(%s, %d, %s)' % (a, n, v))
            else:
                o.append('    S.stagg(%s, %r, %s)' % (a, t, v))
        elif op == 'alloca':
            self.setd(d, 'S.alloca(%d)' % d['n'])
        elif op == 'extractvalue' or op == 'insertvalue':
            a = V(d['a'])
            if op == 'extractvalue':
                self.setd(d, a + ''.join('[%d]' % i for i in d['ix']))
            else:
                self.setd(d, 'insval(%s, %s, %r)' % (a, V(d['v']), tuple(d['ix'])))
        elif op == 'extractelement':
            self.setd(d, 'extel(S, %d, %s, %s)' % (bits(d['res']), V(d['a']), V(d['i'])))
        elif op == 'insertelement':
            self.setd(d, 'insel(S, %s, %s, %s)' % (V(d['a']), V(d['v']), V(d['i'])))
        elif op == 'shufflevector':
            self.setd(d, 'shuf(%s, %s, %s)' % (V(d['a']), V(d['b']), V(d['m'])))
        elif op == 'atomicrmw':
            w = bits(d['t'])
            n = w // 8
            self.setd(d, 'S.rmw(%r, %s, %d, %s)' % (d['k'], V(d['a']), n, V(d['v'])))
        elif op == 'cmpxchg':
            n = bits(d['t']) // 8
            self.setd(d, 'S.cmpxchg(%s, %d, %s, %s)' % (V(d['a']), n, V(d['c']), V(d['n'])))
        elif op == 'br':
            if d['c'] is None:
                self.goto(lab, d['x'])
                return True
            c = V(d['c'])
            if not c.isdigit():
                o.append('    if %s.__class__ is not int: return S.branch(%s, %s, %s)' % (c, c, self.edge(lab, d['x']), self.edge(lab, d['y'])))
            o.append('    if %s:' % c)
            self.goto(lab, d['x'], '        ')
            self.goto(lab, d['y'])
            return True
        elif op == 'switch':
            v = V(d['v'])
            w = bits(d['t'])
            tbl = ', '.join('%d: %s' % (cv, self.edge(lab, x)) for cv, x in d['cases'])
            o.append('    T = {%s}' % tbl)
            o.append('    if %s.__class__ is not int: return S.switch(%d, %s, T, %s)' % (v, w, v, self.edge(lab, d['df'])))
            o.append('    return T.get(%s, %s)' % (v, self.edge(lab, d['df'])))
            return True
        elif op == 'ret':
            o.append('    return S.ret(%s)' % ('None' if d['v'] is None else V(d['v'])))
            return True
        elif op == 'unreachable':
            o.append('    S.unreachable(FN)')
            return True
        elif op == 'resume':
            o.append('    S.unreachable(FN)')
            return True
        elif op == 'landingpad':
            self.setd(d, '(0, 0)')
        elif op == 'asm':
            ex = 'S.asm(%r)' % d['text']
            if d['d']:
                self.setd(d, ex)
            else:
                o.append('    ' + ex)
        elif op == 'call':
            return self.call(k, lab, d)
        else:
            raise ParseError('emit ' + op)
        return False

    def call(self, k, lab, d):
        o = self.o
        V = self.V
        f = d['f']
        args = [V(v) for _, v in d['args']]
        dest = self.ix[d['d']] if d['d'] and d['d'] in self.ix else -1
        if type(f) is str and f.startswith('@llvm.'):
            ex = self.vm.intrinsic(f[1:], d, args)
            if ex is None:
                return False
            if d['d']:
                self.setd(d, ex)
            else:
                o.append('    ' + ex)
            return False
        if type(f) is str:
            g = self.mod.funcs.get(f)
            if g is None and f in self.mod.aliases:
                a = self.mod.addr(f)
                g = self.mod.byid[a >> 32]
            if g is None:
                ex = 'S.ext_%s(%s)' % (re.sub(r'\W', '_', f[1:]), ', '.join(args))
                nm = 'ext_' + re.sub(r'\W', '_', f[1:])
                if not hasattr(self.vm.State, nm):
                    ex = 'S.noext(%r)' % f
                if d['d']:
                    self.setd(d, ex)
                else:
                    o.append('    ' + ex)
                if d['nxt'] is not None:
                    self.goto(lab, d['nxt'])
                    return True
                return False
            if g.noreturn or d['nrt']:
                o.append('    S.panic(%r, [%s])' % (g.name, ', '.join(args)))
                return True
            tgt = 'G_%d' % g.id
            self.vm.ns[tgt] = g
        else:
            tgt = 'S.target(%s)' % V(f)
            if d['nrt']:
                o.append('    S.panic("indirect", [%s])' % ', '.join(args))
                return True
        if d['nxt'] is not None:
            nxt = self.edge(lab, d['nxt'])
        else:
            nxt = 's%d' % (k + 1)
        o.append('    return S.call(%s, [%s], %d, %s)' % (tgt, ', '.join(args), dest, nxt))
        return True


VOIDLP = ('s', (PTR, ('i', 32)), False)
