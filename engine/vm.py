"""Symbolic virtual machine for rustc-generated LLVM IR."""
import time, struct, math, sys, re
import expr
from expr import *
import ll, cg
from ll import bits, size, field
from solver import Solver, Unknown

M64 = (1 << 64) - 1


class PathEnd(Exception):
    def __init__(self, kind, info=None):
        self.kind = kind      # done | assume | fail | limit
        self.info = info


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts      # [(constraints, model, (eid, value) or None)]


class EngineLimit(Exception):
    pass


class Obj(object):
    __slots__ = ('size', 'data', 'sym', 'own', 'ro')

    def copy(self, own):
        o = Obj()
        o.size = self.size
        o.data = bytearray(self.data)
        o.sym = dict(self.sym) if self.sym else None
        o.own = own
        o.ro = self.ro
        return o


def newobj(n, own, data=None, ro=False):
    o = Obj()
    o.size = n
    o.data = data if data is not None else bytearray(n if n <= 1 << 16 else 1 << 12)
    o.sym = None
    o.own = own
    o.ro = ro
    return o


# ------------------------------------------------------------ helpers for generated code
def I_eq(w, a, b): return eq(w, a, b)
def I_ne(w, a, b): return bxor(1, eq(w, a, b), 1)
def I_ult(w, a, b): return ult(w, a, b)
def I_ule(w, a, b): return bxor(1, ult(w, b, a), 1)
def I_ugt(w, a, b): return ult(w, b, a)
def I_uge(w, a, b): return bxor(1, ult(w, a, b), 1)
def I_slt(w, a, b): return slt(w, a, b)
def I_sle(w, a, b): return bxor(1, slt(w, b, a), 1)
def I_sgt(w, a, b): return slt(w, b, a)
def I_sge(w, a, b): return bxor(1, slt(w, a, b), 1)


def vbin(f, w, a, b):
    return tuple([f(w, x, y) for x, y in zip(a, b)])


def zext_(w, iw, a): return zext(w, a, iw)
def sext_(w, iw, a): return sext(w, a, iw)
def trunc_(w, iw, a): return ext(w, a, 0)


def vcast(f, w, iw, a):
    return tuple([f(w, iw, x) for x in a])


def vselect(w, c, a, b):
    return tuple([ite(w, x, y, z) for x, y, z in zip(c, a, b)])


def aselect(t, c, a, b):
    if type(c) is int:
        return a if c else b
    k = t[0]
    if k in ('v', 'a'):
        return tuple(aselect(t[2], c, x, y) for x, y in zip(a, b))
    if k == 's':
        return tuple(aselect(ft, c, x, y) for ft, x, y in zip(t[1], a, b))
    return ite(bits(t), c, a, b)


def flat(t, v):
    """value as one bit-vector (little endian element order)"""
    if t[0] != 'v':
        return v
    w = bits(t[2])
    r = v[0]
    k = w
    for x in v[1:]:
        r = cat(k + w, x, r, k)
        k += w
    return r


def bitcast(t, r, v):
    f = flat(t, v)
    if r[0] == 'v':
        w = bits(r[2])
        return tuple(ext(w, f, i * w) for i in range(r[1]))
    return f


def insval(a, v, ix):
    a = list(a)
    if len(ix) == 1:
        a[ix[0]] = v
    else:
        a[ix[0]] = insval(a[ix[0]], v, ix[1:])
    return tuple(a)


def extel(S, w, a, i):
    if type(i) is not int:
        r = a[-1]
        for k in range(len(a) - 1):
            r = ite(w, eq(i.w, i, k), a[k], r)
        return r
    return a[i]


def insel(S, a, v, i):
    if type(i) is not int:
        i = S.conc(i)
    a = list(a)
    a[i] = v
    return tuple(a)


def shuf(a, b, m):
    n = len(a)
    return tuple(a[i] if i < n else b[i - n] for i in m)


def _f(w, x):
    if w == 64:
        return struct.unpack('<d', struct.pack('<Q', x))[0]
    return struct.unpack('<f', struct.pack('<I', x))[0]


def _fb(w, d):
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', d))[0]
    try:
        return struct.unpack('<I', struct.pack('<f', d))[0]
    except OverflowError:
        return 0x7f800000 if d > 0 else 0xff800000


def fbin(S, op, w, a, b):
    a = S.conc(a)
    b = S.conc(b)
    x = _f(w, a)
    y = _f(w, b)
    if op == 'fadd':
        r = x + y
    elif op == 'fsub':
        r = x - y
    elif op == 'fmul':
        r = x * y
    elif op == 'fdiv':
        if y == 0:
            r = math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
        else:
            r = x / y
    else:
        r = math.fmod(x, y)
    return _fb(w, r)


def fcmp(S, p, w, a, b):
    if type(a) is not int or type(b) is not int:
        r = fcmp_sym(p, w, a, b)
        if r is not None:
            return r
    a = S.conc(a)
    b = S.conc(b)
    x = _f(w, a)
    y = _f(w, b)
    un = x != x or y != y
    k = p[1:]
    if p == 'ord':
        return 0 if un else 1
    if p == 'uno':
        return 1 if un else 0
    if p == 'true':
        return 1
    if p == 'false':
        return 0
    r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k]
    if un:
        return 1 if p[0] == 'u' else 0
    return 1 if r else 0


def fisnan(w, a):
    e, m = (11, 52) if w == 64 else (8, 23)
    return band(1, eq(e, ext(e, a, m), (1 << e) - 1), bxor(1, eq(m, ext(m, a, 0), 0), 1))


def fcmp_sym(p, w, a, b):
    """comparisons on bit patterns"""
    un = bor(1, fisnan(w, a), fisnan(w, b))
    if p == 'uno':
        return un
    if p == 'ord':
        return bxor(1, un, 1)
    W1 = w - 1
    za = eq(W1, ext(W1, a, 0), 0)
    zb = eq(W1, ext(W1, b, 0), 0)
    feq = bor(1, eq(w, a, b), band(1, za, zb))
    sa = ext(1, a, W1)
    sb = ext(1, b, W1)
    # a<b for non-nan: sign-magnitude
    lt = ite(1, sa, ite(1, sb, ult(w, b, a), bxor(1, band(1, za, zb), 1)), ite(1, sb, 0, ult(w, a, b)))
    gt = ite(1, sb, ite(1, sa, ult(w, a, b), bxor(1, band(1, za, zb), 1)), ite(1, sa, 0, ult(w, b, a)))
    r = {'eq': feq, 'ne': bxor(1, feq, 1), 'lt': lt, 'gt': gt, 'le': bor(1, lt, feq), 'ge': bor(1, gt, feq)}.get(p[1:])
    if r is None:
        return None
    if p[0] == 'u':
        return bor(1, r, un)
    return band(1, r, bxor(1, un, 1))


def fpext_sym(a):
    """f32 to f64 on bit patterns"""
    s = ext(1, a, 31)
    e = ext(8, a, 23)
    m = ext(23, a, 0)
    M = zext(64, m, 23)
    E = zext(64, e, 8)
    normal = bor(64, shl(64, add(64, E, 896), 52), shl(64, M, 29))
    nan = bor(64, 0x7FF0000000000000, bor(64, shl(64, M, 29), ite(64, eq(23, m, 0), 0, 1 << 51)))
    den = 0
    for k in range(23):     # k: the top bit of m
        # value 2^(k-149): exponent 1023+k-149
        frac = band(64, shl(64, M, 52 - k), (1 << 52) - 1)
        den = ite(64, eq(23 - k, ext(23 - k, m, k), 1), bor(64, (874 + k) << 52, frac), den)
    r = ite(64, eq(8, e, 255), nan, ite(64, eq(8, e, 0), den, normal))
    return bor(64, r, shl(64, zext(64, s, 1), 63))


def fptrunc_sym(a):
    """f64 to f32 on bit patterns, round to nearest even"""
    s = ext(1, a, 63)
    e = ext(11, a, 52)
    m = ext(52, a, 0)
    M = zext(64, m, 52)
    E = zext(64, e, 11)
    nan = bor(32, 0x7F800000, ite(32, eq(52, m, 0), 0, bor(32, 1 << 22, zext(32, ext(23, m, 29), 23))))

    def rnd(q, rest, half):
        up = bor(1, ult(64, half, rest), band(1, eq(64, rest, half), ext(1, q, 0)))
        return add(64, q, zext(64, up, 1))
    n = rnd(bor(64, shl(64, sub(64, E, 896), 23), lshr(64, M, 29)), band(64, M, (1 << 29) - 1), 1 << 28)
    n = ite(64, ult(64, 0x7F800000, n), 0x7F800000, n)
    full = bor(64, M, 1 << 52)
    sh = sub(64, 926, E)
    sh = ite(64, ult(64, 60, sh), 60, sh)
    one = shl(64, 1, sh)
    d = rnd(lshr(64, full, sh), band(64, full, sub(64, one, 1)), lshr(64, one, 1))
    d = ite(64, eq(11, e, 0), 0, d)
    r = ite(64, ult(64, E, 897), d, ite(64, ult(64, 1150, E), 0x7F800000, n))
    r = ite(32, eq(11, e, 0x7FF), nan, ext(32, r, 0))
    return bor(32, r, shl(32, zext(32, s, 1), 31))


def fconv(S, op, w, iw, a):
    if type(a) is not int:
        if op == 'fpext' and (w, iw) == (64, 32):
            return fpext_sym(a)
        if op == 'fptrunc' and (w, iw) == (32, 64):
            return fptrunc_sym(a)
    a = S.conc(a)
    if op == 'uitofp':
        return _fb(w, float(a))
    if op == 'sitofp':
        return _fb(w, float(sgn(a, iw)))
    x = _f(iw, a)
    if op in ('fpext', 'fptrunc'):
        return _fb(w, x)
    if x != x or math.isinf(x):
        return 0
    return int(x) & ((1 << w) - 1)


def fptosat(S, signed, w, iw, a):
    a = S.conc(a)
    x = _f(iw, a)
    if x != x:
        return 0
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if x == math.inf:
        v = hi
    elif x == -math.inf:
        v = lo
    else:
        v = max(lo, min(hi, int(x)))
    return v & ((1 << w) - 1)


def fround(S, op, w, a):
    a = S.conc(a)
    x = _f(w, a)
    if x != x or math.isinf(x):
        return a
    r = {'ceil': math.ceil, 'floor': math.floor, 'trunc': math.trunc}[op](x)
    r = float(r)
    if r == 0:
        r = math.copysign(0.0, x)
    return _fb(w, r)


def ovf(op, w, a, b):
    if op == 'uadd':
        r = add(w + 1, zext(w + 1, a, w), zext(w + 1, b, w))
        return (ext(w, r, 0), ext(1, r, w))
    if op == 'usub':
        return (sub(w, a, b), ult(w, a, b))
    if op == 'umul':
        r = mul(2 * w, zext(2 * w, a, w), zext(2 * w, b, w))
        return (ext(w, r, 0), bxor(1, eq(w, ext(w, r, w), 0), 1))
    if op == 'sadd':
        r = add(w + 1, sext(w + 1, a, w), sext(w + 1, b, w))
    elif op == 'ssub':
        r = sub(w + 1, sext(w + 1, a, w), sext(w + 1, b, w))
    elif op == 'smul':
        r = mul(2 * w, sext(2 * w, a, w), sext(2 * w, b, w))
        lo = ext(w, r, 0)
        return (lo, bxor(1, eq(2 * w, r, sext(2 * w, lo, w)), 1))
    return (ext(w, r, 0), bxor(1, ext(1, r, w), ext(1, r, w - 1)))


def sat(op, w, a, b):
    if op == 'usub':
        return ite(w, ult(w, a, b), 0, sub(w, a, b))
    if op == 'uadd':
        r, o = ovf('uadd', w, a, b)
        return ite(w, o, (1 << w) - 1, r)
    r, o = ovf('s' + op[1:], w, a, b)
    # overflow: sign of a decides
    neg = ext(1, a, w - 1)
    return ite(w, o, ite(w, neg, 1 << (w - 1), (1 << (w - 1)) - 1), r)


def minmax(op, w, a, b):
    if op == 'umax':
        return ite(w, ult(w, a, b), b, a)
    if op == 'umin':
        return ite(w, ult(w, b, a), b, a)
    if op == 'smax':
        return ite(w, slt(w, a, b), b, a)
    return ite(w, slt(w, b, a), b, a)


def fsh(op, w, a, b, c):
    if type(c) is int:
        c %= w
        if c == 0:
            return a if op == 'fshl' else b
        if op == 'fshr':
            c = w - c
        return bor(w, shl(w, a, c), lshr(w, b, w - c))
    x = cat(2 * w, a, b, w)
    c = zext(2 * w, urem(w, c, w), w)
    if op == 'fshl':
        return ext(w, shl(2 * w, x, c), w)
    return ext(w, lshr(2 * w, x, c), 0)


def cmp3(op, w, rw, a, b):
    f = ult if op == 'ucmp' else slt
    return ite(rw, f(w, a, b), (1 << rw) - 1, ite(rw, f(w, b, a), 1, 0))


class State(object):
    __slots__ = ('vm', 'frames', 'R', 'fn', 'mem', 'own', 'cons', 'model', 'memo', 'known', 'nvar', 'nextid', 'seg',
                 'covers', 'obs', 'nd', 'allocas', 'inb', 'prm', 'depth', 'trace')

    def clone(self):
        vm = self.vm
        s = State()
        s.vm = vm
        s.frames = [(f[0], list(f[1]), f[2], f[3], list(f[4])) for f in self.frames]
        s.R = list(self.R)
        s.fn = self.fn
        s.mem = dict(self.mem)
        vm.tok += 2
        self.own = vm.tok
        s.own = vm.tok + 1
        s.cons = list(self.cons)
        s.model = self.model
        s.memo = self.memo
        s.known = dict(self.known)
        s.nvar = self.nvar
        s.nextid = self.nextid
        s.seg = self.seg
        s.covers = set(self.covers)
        s.obs = list(self.obs)
        s.nd = list(self.nd)
        s.allocas = list(self.allocas)
        s.inb = set(self.inb)
        s.prm = self.prm
        s.depth = self.depth
        return s

    # ---- expressions
    def val(self, e):
        if type(e) is int:
            return e
        return ev(e, self.model, self.memo)

    def setmodel(self, m2):
        m = dict(self.model)
        m.update(m2)
        self.model = m
        self.memo = {}

    def addcon(self, c):
        if type(c) is E:
            # split conjunctions
            st = [c]
            while st:
                x = st.pop()
                if type(x) is int:
                    continue
                if x.op == 'and' and x.w == 1:
                    st.append(x.a)
                    st.append(x.b)
                else:
                    self.cons.append(x)

    def branch(self, c, A, B):
        k = self.known.get(c.id)
        if k is not None:
            return A if k else B
        v = self.val(c)
        vm = self.vm
        neg = bxor(1, c, 1)
        this = c if v else neg
        other = neg if v else c
        try:
            m2 = vm.solver.check(self.cons, [other])
        except Unknown:
            # undecided: follow the side the current model takes, report the case as incomplete
            vm.unknowns += 1
            m2 = None
        if m2 is None:
            self.known[c.id] = v
            if type(neg) is E:
                self.known[neg.id] = 1 - v
            return A if v else B
        s2 = self.clone()
        s2.addcon(other)
        s2.setmodel(m2)
        s2.known[c.id] = 1 - v
        s2.seg = B if v else A
        vm.push(s2)
        self.addcon(this)
        self.known[c.id] = v
        return A if v else B

    def switch(self, w, v, T, df):
        """fork over the distinct targets"""
        vm = self.vm
        groups = {}
        for cv, t in T.items():
            if t is df:
                continue
            groups.setdefault(t, []).append(cv)
        conds = []
        rest = 1
        for t, cvs in groups.items():
            c = 0
            for cv in cvs:
                c = bor(1, c, eq(w, v, cv))
            conds.append((c, t))
            rest = band(1, rest, bxor(1, c, 1))
        conds.append((rest, df))
        cur = None
        for c, t in conds:
            if self.val(c):
                cur = (c, t)
                break
        for c, t in conds:
            if c is cur[0] and t is cur[1]:
                continue
            if type(c) is int and not c:
                continue
            m2 = vm.solver.check(self.cons, [c])
            if m2 is not None:
                s2 = self.clone()
                s2.addcon(c)
                s2.setmodel(m2)
                s2.seg = t
                vm.push(s2)
        self.addcon(cur[0])
        return cur[1]

    def conc(self, e, limit=None):
        """concretise: fork over every feasible value"""
        if type(e) is int:
            return e
        k = self.known.get(e.id)
        if k is not None:
            return k
        vm = self.vm
        if limit is None:
            limit = vm.conc_limit
        v = self.val(e)
        ex = [bxor(1, eq(e.w, e, v), 1)]
        alts = []
        while True:
            m = vm.solver.check(self.cons, ex)
            if m is None:
                break
            mm = dict(self.model)
            mm.update(m)
            v2 = ev(e, mm, {})
            alts.append((eq(e.w, e, v2), m, (e.id, v2)))
            ex.append(bxor(1, eq(e.w, e, v2), 1))
            if len(alts) > limit:
                raise EngineLimit('too many values for %s in %s' % (show(e, 5), self.fn.name))
        if not alts:
            self.known[e.id] = v
            return v
        raise Fork([(eq(e.w, e, v), {}, (e.id, v))] + alts)

    # ---- memory
    def obj(self, p):
        i = p >> 32
        o = self.mem.get(i)
        if o is None:
            g = self.vm.mod.byid.get(i)
            if isinstance(g, ll.Global):
                self.vm.mod.ginit(g)
                o = newobj(g.size, self.own, bytearray(g.data), g.const)
                self.mem[i] = o
                return o
            self.memerr('invalid pointer %#x' % p)
        return o

    def memerr(self, msg):
        raise PathEnd('fail', ('memory', msg, self.where()))

    def where(self):
        return [self.fn.name] + [f[0].name for f in reversed(self.frames)][:12]

    def ld(self, p, n):
        if p.__class__ is not int:
            return self.ldsym(p, n)
        o = self.mem.get(p >> 32)
        if o is None:
            o = self.obj(p)
        off = p & 0xffffffff
        if off + n > o.size:
            if n == 0:
                return 0
            self.memerr('read of %d bytes at offset %d of a %d byte object' % (n, off, o.size))
        if not o.sym:
            return int.from_bytes(o.data[off:off + n], 'little')
        return self.ldb(o, off, n)

    def ldb(self, o, off, n):
        sym = o.sym
        g = sym.get
        first = g(off)
        if first is not None and first[1] == 0 and first[0].w == 8 * n:
            e = first[0]
            for i in range(1, n):
                x = g(off + i)
                if x is None or x[0] is not e or x[1] != i:
                    break
            else:
                return e
        r = None
        k = 0
        d = o.data
        for i in range(n):
            x = g(off + i)
            if x is None:
                b = d[off + i] if off + i < len(d) else 0
            else:
                e, j = x
                b = ext(8, e, 8 * j) if e.w != 8 else e
            if k == 0:
                r = b
            else:
                r = cat(k + 8, b, r, k)
            k += 8
        return r

    def ldsym(self, p, n):
        k = self.known.get(p.id)
        if k is not None:
            return self.ld(k, n)
        vm = self.vm
        # ite over concrete addresses
        lv = leaves(p, 1, [])
        if lv is not None and len(lv) <= 64:
            r = None
            for c, a in lv:
                i = a >> 32
                ok = i in self.mem or isinstance(vm.mod.byid.get(i), ll.Global)
                if ok:
                    o = self.obj(a)
                    ok = (a & 0xffffffff) + n <= o.size
                if not ok:
                    m2 = vm.solver.check(self.cons, [c])
                    if m2 is None:
                        continue
                    if self.val(c):
                        self.memerr('read through bad pointer %#x' % a)
                    raise Fork([(c, m2, None), (bxor(1, c, 1), {}, None)])
                v = self.ld(a, n)
                r = v if r is None else ite(8 * n, c, v, r)
            if r is None:
                self.memerr('no valid address')
            return r
        v = self.val(p)
        o = self.obj(v)
        if vm.fork_reads and not o.ro:
            return self.ld(self.conc(p, 4096), n)
        base = v >> 32 << 32
        # every address must stay in this object
        self.inrange(p, base, o, n)
        cand = self.cands(p, base, o, n)
        if cand is None:
            a = self.conc(p, 4096)
            return self.ld(a, n)
        groups = {}
        for off in cand:
            x = self.ld(base + off, n)
            groups.setdefault(x if type(x) is int else (x.id,), []).append((off, x))
        gl = sorted(groups.values(), key=lambda g: -len(g))
        r = gl[0][0][1]
        for g in gl[1:]:
            c = 0
            for off, x in g:
                c = bor(1, c, eq(64, p, base + off))
            r = ite(8 * n, c, g[0][1], r)
        return r

    def inrange(self, p, base, o, n):
        key = (p.id, n)
        if key in self.inb:
            return
        lo, hi = urange(p)
        if not (lo >= base and hi + n <= base + o.size):
            ok = band(1, bxor(1, ult(64, p, base), 1), bxor(1, ult(64, base + o.size - n, p), 1))
            if type(ok) is int:
                if not ok:
                    self.memerr('out of bounds symbolic address')
            else:
                bad = bxor(1, ok, 1)
                if self.val(ok):
                    m2 = self.vm.solver.check(self.cons, [bad])
                    if m2 is not None:
                        raise Fork([(ok, {}, None), (bad, m2, None)])
                else:
                    m2 = self.vm.solver.check(self.cons, [ok])
                    if m2 is not None:
                        raise Fork([(bad, {}, None), (ok, m2, None)])
                    self.memerr('out of bounds symbolic address in object of %d bytes' % o.size)
        self.inb.add(key)

    def cands(self, p, base, o, n):
        """candidate offsets of p in the object, from the possible-bits mask"""
        if p.op == 'add' and type(p.b) is int:
            x, c = p.a, p.b
        else:
            x, c = p, 0
        pm = x.pm
        nb = bin(pm).count('1')
        top = base + o.size - n
        if nb <= 11:
            out = []
            s = 0
            while True:
                a = (s + c) & M64
                if base <= a <= top:
                    out.append(a - base)
                if s == pm:
                    break
                s = (s - pm) & pm
            return out if out else None
        low = (pm & -pm) if pm else 1
        if o.size // low <= 600:
            out = []
            a = base + ((c - base) % low)
            while a <= top:
                if ((a - c) & M64) & ~pm == 0:
                    out.append(a - base)
                a += low
            return out if out else None
        return None

    def sto(self, p, n, v):
        if p.__class__ is not int:
            p = self.conc(p, 600)
        i = p >> 32
        o = self.mem.get(i)
        if o is None:
            o = self.obj(p)
        off = p & 0xffffffff
        if off + n > o.size:
            if n == 0:
                return
            self.memerr('write of %d bytes at offset %d of a %d byte object' % (n, off, o.size))
        if o.own != self.own:
            o = o.copy(self.own)
            self.mem[i] = o
        if o.ro:
            self.memerr('write to constant')
        d = o.data
        if off + n > len(d):
            d.extend(bytes(max(off + n - len(d), len(d)) if len(d) * 2 < o.size else o.size - len(d)))
        if v.__class__ is int:
            d[off:off + n] = v.to_bytes(n, 'little')
            s = o.sym
            if s:
                for j in range(off, off + n):
                    if j in s:
                        del s[j]
        else:
            s = o.sym
            if s is None:
                s = o.sym = {}
            if v.op in ('cat', 'zext'):
                self.stcat(o, off, n, v)
            else:
                for j in range(n):
                    s[off + j] = (v, j)

    def stcat(self, o, off, n, v):
        """store keeping the whole expression for a same-size reload"""
        s = o.sym
        for j in range(n):
            s[off + j] = (v, j)

    def ldagg(self, p, t):
        k = t[0]
        if k == 'v':
            w = bits(t[2])
            if w % 8:
                f = self.ld(p, (bits(t) + 7) // 8)
                return tuple(ext(w, f, i * w) for i in range(t[1]))
            s = w // 8
            return tuple(self.ld(add(64, p, i * s), s) for i in range(t[1]))
        if k == 'a':
            s = size(t[2])
            return tuple(self.ldagg(add(64, p, i * s), t[2]) for i in range(t[1]))
        if k == 's':
            out = []
            for i in range(len(t[1])):
                o, ft = field(t, i)
                out.append(self.ldagg(add(64, p, o), ft))
            return tuple(out)
        w = bits(t)
        n = (w + 7) // 8
        v = self.ld(p, n)
        return v if w == 8 * n else ext(w, v, 0)

    def stagg(self, p, t, v):
        k = t[0]
        p = self.conc(p)
        if k == 'v':
            w = bits(t[2])
            if w % 8:
                n = (bits(t) + 7) // 8
                self.sto(p, n, zext(8 * n, flat(t, v), bits(t)))
                return
            s = w // 8
            for i in range(t[1]):
                self.sto(p + i * s, s, v[i])
        elif k == 'a':
            s = size(t[2])
            for i in range(t[1]):
                self.stagg(p + i * s, t[2], v[i])
        elif k == 's':
            for i in range(len(t[1])):
                o, ft = field(t, i)
                self.stagg(p + o, ft, v[i])
        else:
            w = bits(t)
            n = (w + 7) // 8
            self.sto(p, n, v if w == 8 * n else zext(8 * n, v, w))

    def rmw(self, k, p, n, v):
        if type(p) is not int:
            p = self.conc(p)
        w = 8 * n
        old = self.ld(p, n)
        if k == 'add':
            r = add(w, old, v)
        elif k == 'sub':
            r = sub(w, old, v)
        elif k == 'xchg':
            r = v
        elif k == 'and':
            r = band(w, old, v)
        elif k == 'or':
            r = bor(w, old, v)
        elif k == 'xor':
            r = bxor(w, old, v)
        elif k in ('umax', 'umin', 'max', 'min'):
            r = minmax({'max': 'smax', 'min': 'smin'}.get(k, k), w, old, v)
        else:
            raise EngineLimit('atomicrmw ' + k)
        self.sto(p, n, r)
        return old

    def cmpxchg(self, p, n, c, nw):
        if type(p) is not int:
            p = self.conc(p)
        old = self.ld(p, n)
        e = eq(8 * n, old, c)
        if type(e) is not int:
            e = self.conc(e)
        if e:
            self.sto(p, n, nw)
        return (old, e)

    def malloc(self, n, zero=False):
        if type(n) is not int:
            k = self.known.get(n.id)
            if k is not None:
                n = k
            else:
                # small feasible sets are forked over, large ones get one sparse object
                lo, hi = urange(n)
                try:
                    n = self.conc(n, 24)
                except EngineLimit:
                    if hi >= 1 << 32:
                        big = ult(64, (1 << 32) - 1, n)
                        if type(big) is E:
                            m2 = self.vm.solver.check(self.cons, [big])
                            if m2 is not None and not (big.id in self.known):
                                mm = {}
                                if self.val(big):
                                    m3 = self.vm.solver.check(self.cons, [bxor(1, big, 1)])
                                    alts = [(big, {}, (big.id, 1))]
                                    if m3 is not None:
                                        alts.append((bxor(1, big, 1), m3, (big.id, 0)))
                                else:
                                    alts = [(bxor(1, big, 1), {}, (big.id, 0)), (big, m2, (big.id, 1))]
                                raise Fork(alts)
                            if self.known.get(big.id):
                                self.vm.note('huge allocation refused')
                                return 0
                    n = (1 << 32) - 1 if hi >= 1 << 32 else hi
        if n >= 1 << 32:
            self.vm.note('huge allocation refused')
            return 0
        i = self.nextid
        self.nextid += 1
        self.mem[i] = newobj(n, self.own)
        return i << 32

    def alloca(self, n):
        i = self.nextid
        self.nextid += 1
        self.mem[i] = newobj(n, self.own)
        self.allocas.append(i)
        return i << 32

    def memcpy(self, d, s, n):
        if type(n) is not int:
            n = self.conc(n)
        if n == 0:
            return
        if type(d) is not int:
            d = self.conc(d)
        if type(s) is not int:
            s = self.conc(s)
        so = self.mem.get(s >> 32) or self.obj(s)
        do = self.mem.get(d >> 32) or self.obj(d)
        a = s & 0xffffffff
        b = d & 0xffffffff
        if a + n > so.size:
            self.memerr('memcpy reads %d bytes at %d of %d' % (n, a, so.size))
        if b + n > do.size:
            self.memerr('memcpy writes %d bytes at %d of %d' % (n, b, do.size))
        if do.ro:
            self.memerr('write to constant')
        if do.own != self.own:
            same = do is so
            do = do.copy(self.own)
            self.mem[d >> 32] = do
            if same:
                so = do
        sd = so.data
        if a + n > len(sd):
            sd.extend(bytes(a + n - len(sd)))
        dd = do.data
        if b + n > len(dd):
            dd.extend(bytes(b + n - len(dd)))
        dd[b:b + n] = sd[a:a + n]
        ss = so.sym
        mv = None
        if ss:
            if n <= len(ss):
                mv = [(j, ss[a + j]) for j in range(n) if (a + j) in ss]
            else:
                mv = [(j - a, x) for j, x in ss.items() if a <= j < a + n]
        ds = do.sym
        if ds:
            if n <= len(ds):
                for j in range(b, b + n):
                    if j in ds:
                        del ds[j]
            else:
                for j in [j for j in ds if b <= j < b + n]:
                    del ds[j]
        if mv:
            if ds is None:
                ds = do.sym = {}
            for j, x in mv:
                ds[b + j] = x

    def memset(self, d, v, n):
        if type(n) is not int:
            n = self.conc(n)
        if n == 0:
            return
        if type(d) is not int:
            d = self.conc(d)
        if type(v) is not int:
            for i in range(n):
                self.sto(d + i, 1, v)
            return
        o = self.mem.get(d >> 32) or self.obj(d)
        b = d & 0xffffffff
        if b + n > o.size:
            self.memerr('memset writes %d bytes at %d of %d' % (n, b, o.size))
        if o.own != self.own:
            o = o.copy(self.own)
            self.mem[d >> 32] = o
        dd = o.data
        if v == 0 and not o.sym and b >= len(dd):
            return
        if b + n > len(dd):
            dd.extend(bytes(b + n - len(dd)))
        dd[b:b + n] = bytes([v]) * n
        ds = o.sym
        if ds:
            if n <= len(ds):
                for j in range(b, b + n):
                    if j in ds:
                        del ds[j]
            else:
                for j in [j for j in ds if b <= j < b + n]:
                    del ds[j]

    # ---- control
    def call(self, g, args, dest, nxt):
        if g.__class__ is tuple:
            # extern called through a pointer
            nm = 'ext_' + re.sub(r'\W', '_', g[1][1:])
            if not hasattr(self, nm):
                self.noext(g[1])
            v = getattr(self, nm)(*args)
            if dest >= 0:
                self.R[dest] = v
            return nxt
        if g.entry is None:
            self.vm.compile(g)
        if g.noreturn:
            self.panic(g.name, args)
        if not g.hit:
            g.hit = True
        if g.memo and self.remembered(g, args):
            return nxt
        self.frames.append((self.fn, self.R, dest, nxt, self.allocas))
        if len(self.frames) > self.vm.max_depth:
            raise PathEnd('fail', ('stack', 'call depth exceeds %d' % self.vm.max_depth, self.where()))
        R = [None] * g.nregs
        R[:len(args)] = args
        self.R = R
        self.fn = g
        self.allocas = []
        return g.entry

    def blob(self, p, n):
        """n bytes at p if they are concrete"""
        if type(p) is not int:
            return None
        o = self.mem.get(p >> 32)
        a = p & 0xffffffff
        if o is None or a + n > o.size or o.own is None:
            return None
        if o.sym and any(i in o.sym for i in range(a, a + n)):
            return None
        b = bytes(o.data[a:a + n])
        return b + bytes(n - len(b))

    def remembered(self, g, args):
        """a call of a pure function (memo) on concrete memory: run once, its result is kept for later calls"""
        vm = self.vm
        if len(args) != len(g.memo) or type(args[0]) is not int:
            return False
        k = [g.id]
        for p, n in zip(args[1:], g.memo[1:]):
            b = self.blob(p, n)
            if b is None:
                return False
            k.append(b)
        k = tuple(k)
        r = vm.memos.get(k)
        if r is None:
            if len(self.frames) + 20 > vm.max_depth:
                return False
            depth = len(self.frames)
            self.frames.append((self.fn, self.R, -1, None, self.allocas))
            self.R = args + [None] * (g.nregs - len(args))
            self.fn = g
            self.allocas = []
            seg = g.entry
            try:
                while seg is not None:
                    seg = seg(self, self.R)
            except Fork:
                raise EngineLimit('fork in ' + g.name)
            assert len(self.frames) == depth
            r = self.blob(args[0], g.memo[0])
            if r is not None and len(vm.memos) < 20000:
                vm.memos[k] = r
            return True
        for i in range(0, len(r), 8):
            self.sto(args[0] + i, 8, int.from_bytes(r[i:i + 8], 'little'))
        return True

    def ret(self, v):
        if self.allocas:
            mem = self.mem
            for i in self.allocas:
                mem.pop(i, None)
        if not self.frames:
            raise PathEnd('done')
        self.fn, self.R, dest, nxt, self.allocas = self.frames.pop()
        if dest >= 0:
            self.R[dest] = v
        return nxt

    def target(self, p):
        if type(p) is not int:
            p = self.conc(p)
        g = self.vm.mod.byid.get(p >> 32)
        if g is None or p & 0xffffffff or isinstance(g, ll.Global):
            self.memerr('call of a bad function pointer %#x' % p)
        return g

    def unreachable(self, fn):
        raise PathEnd('fail', ('unreachable', fn.name, self.where()))

    def panic(self, name, args):
        info = self.vm.panic_info(self, name, args)
        raise PathEnd('fail', ('panic', info, [name] + self.where()))

    def trap(self):
        raise PathEnd('fail', ('abort', 'trap', self.where()))

    def asm(self, text):
        if 'cpuid' in text:
            return (0, 0, 0, 0)
        if 'asm sideeffect ""' in text or 'asm ""' in text:
            return 0
        raise EngineLimit('asm ' + text[:80])

    def noext(self, f):
        raise EngineLimit('extern %s called from %s' % (f, self.where()[:4]))

    # ---- harness interface
    def ext___nd_bytes(self, p, n):
        n = self.conc(n)
        p = self.conc(p)
        vm = self.vm
        for i in range(n):
            k = self.nvar
            self.nvar += 1
            if vm.forced is not None:
                self.sto(p + i, 1, vm.forced[k] if k < len(vm.forced) else 0)
            else:
                self.sto(p + i, 1, var(k))
        self.nd.append(n)

    def ext___nd_assume(self, c):
        if type(c) is not int:
            if c.w != 1:
                c = ext(1, c, 0)
            if type(c) is not int:
                m = self.vm.solver.check(self.cons, [c]) if not self.val(c) else {}
                if m is None:
                    raise PathEnd('assume')
                self.addcon(c)
                if m:
                    self.setmodel(m)
                return
        if not c & 1:
            raise PathEnd('assume')

    def ext___nd_conc(self, v):
        return self.conc(v)

    def ext___nd_param(self, i):
        return self.prm[self.conc(i)]

    def ext___nd_cover(self, i):
        self.covers.add(self.conc(i))

    def ext___nd_obs(self, v):
        self.obs.append(v)

    # ---- libc
    def ext_malloc(self, n):
        return self.malloc(n)

    def ext_calloc(self, a, b):
        return self.malloc(mul(64, a, b))

    def ext_posix_memalign(self, out, al, n):
        p = self.malloc(n)
        if p == 0:
            return 12
        self.sto(out, 8, p)
        return 0

    def ext_realloc(self, p, n):
        p = self.conc(p)
        q = self.malloc(n)
        if q == 0:
            return 0
        if p:
            o = self.obj(p)
            m = min(o.size, self.mem[q >> 32].size, len(o.data))
            self.memcpy(q, p, m)
            self.mem.pop(p >> 32, None)
        return q

    def ext_free(self, p):
        p = self.conc(p)
        if p:
            if (p >> 32) not in self.mem or p & 0xffffffff:
                self.memerr('free of %#x' % p)
            self.mem.pop(p >> 32)

    def ext_bcmp(self, a, b, n):
        n = self.conc(n)
        a = self.conc(a)
        b = self.conc(b)
        r = 1
        for i in range(n):
            r = band(1, r, eq(8, self.ld(a + i, 1), self.ld(b + i, 1)))
            if r.__class__ is int and not r:
                break
        return zext(32, bxor(1, r, 1), 1)

    def ext_memcmp(self, a, b, n):
        n = self.conc(n)
        a = self.conc(a)
        b = self.conc(b)
        r = 0
        xs = [(self.ld(a + i, 1), self.ld(b + i, 1)) for i in range(n)]
        for x, y in reversed(xs):
            r = ite(32, eq(8, x, y), r, sub(32, zext(32, x, 8), zext(32, y, 8)))
        return r

    def ext_strlen(self, p):
        p = self.conc(p)
        n = 0
        while True:
            c = self.ld(p + n, 1)
            if self.conc(eq(8, c, 0)):
                return n
            n += 1

    def ext_memchr(self, p, c, n):
        raise EngineLimit('memchr')

    def ext_getenv(self, p):
        return 0

    def ext_abort(self):
        raise PathEnd('fail', ('abort', 'abort()', self.where()))

    def ext___errno_location(self):
        i = 9
        if i not in self.mem:
            self.mem[i] = newobj(4, self.own)
        return i << 32

    def ext_gettid(self):
        return 1

    def ext_sysconf(self, n):
        return 4096

    def ext_mmap64(self, addr, n, prot, flags, fd, off):
        fd = self.conc(fd)
        if fd & 0xffffffff != 0xffffffff:
            raise EngineLimit('mmap of a file')
        n = self.conc(n)
        return self.malloc(n)

    ext_mmap = ext_mmap64

    def ext_munmap(self, p, n):
        p = self.conc(p)
        self.mem.pop(p >> 32, None)
        return 0

    def ext_mprotect(self, p, n, prot):
        return 0

    def ext_syscall(self, n, *a):
        n = self.conc(n)
        if n == 9:        # mmap
            return self.ext_mmap64(*a)
        if n == 11:       # munmap
            return self.ext_munmap(*a)
        if n == 202:      # futex wake
            return 0
        if n == 318:      # getrandom: fixed bytes
            self.memset(a[0], 0x5a, a[1])
            return self.conc(a[1])
        raise EngineLimit('syscall %d' % n)

    def ext_write(self, fd, p, n):      # console output is dropped
        if self.conc(fd) not in (1, 2):
            raise EngineLimit('write to a file')
        return n

    def ext_getrandom(self, p, n, fl):
        self.memset(p, 0x5a, n)
        return n

    def ext___cxa_thread_atexit_impl(self, *a):
        return 0


def leaves(p, cond, out, depth=0):
    """[(cond, address)] when p is a tree of ite over constants"""
    if type(p) is int:
        out.append((cond, p))
        return out if len(out) <= 64 else None
    if p.op == 'ite':
        if leaves(p.b, band(1, cond, p.a), out, depth + 1) is None:
            return None
        return leaves(p.c, band(1, cond, bxor(1, p.a, 1)), out, depth + 1)
    if p.op == 'add' and type(p.b) is int:
        sub_ = leaves(p.a, cond, [], depth + 1)
        if sub_ is None:
            return None
        out += [(c, (a + p.b) & M64) for c, a in sub_]
        return out if len(out) <= 64 else None
    return None


INTR = re.compile(r'llvm\.([a-z0-9_]+(?:\.[a-z_]+)*?)(?:\.(?:i\d+|p\d|v\d+i\d+|f\d+).*)?$')


class VM(object):
    State = State

    def __init__(self, mod, solver=None, seed=0):
        self.mod = mod
        self.solver = solver or Solver()
        self.tok = 1
        self.ns = {k: v for k, v in globals().items() if not k.startswith('__')}
        self.work = []
        self.memos = {}
        self.conc_limit = 300
        self.fork_reads = False
        self.max_depth = 400
        self.forced = None
        self.notes = {}
        self.unknowns = 0
        self.segs = 0
        self.forks = 0

    def note(self, m):
        self.notes[m] = self.notes.get(m, 0) + 1

    def push(self, s):
        self.forks += 1
        self.work.append(s)

    def compile(self, fn):
        try:
            cg.Cg(self, fn).compile()
        except (ll.ParseError, KeyError, IndexError) as e:
            raise EngineLimit('cannot translate %s: %r' % (fn.name, e))

    def intrinsic(self, f, d, a):
        parts = f.split('.')
        n = parts[1]
        t = d['args'][0][0] if d['args'] else None
        r = d['res']
        if n in ('assume', 'lifetime', 'invariant', 'donothing', 'experimental', 'prefetch', 'va_start', 'va_end', 'sideeffect', 'pseudoprobe'):
            return None
        if n in ('memcpy', 'memmove'):
            return 'S.memcpy(%s, %s, %s)' % (a[0], a[1], a[2])
        if n == 'memset':
            return 'S.memset(%s, %s, %s)' % (a[0], a[1], a[2])
        if n == 'trap' or n == 'debugtrap':
            return 'S.trap()'
        if n == 'x86':
            if 'pause' in f:
                return None
            return 'S.noext(%r)' % f
        if n == 'threadlocal':
            return a[0]
        if n == 'expect':
            return a[0]
        if n == 'ptrmask':
            return 'band(64, %s, %s)' % (a[0], a[1])
        if n == 'is':
            return '0'
        if n == 'load' and parts[2] == 'relative':
            return 'add(64, %s, sext(64, S.ld(add(64, %s, %s), 4), 32))' % (a[0], a[0], a[1])
        vec = r[0] == 'v'
        if n in ('umax', 'umin', 'smax', 'smin'):
            if vec:
                return 'tuple([minmax(%r, %d, x, y) for x, y in zip(%s, %s)])' % (n, bits(r[2]), a[0], a[1])
            return 'minmax(%r, %d, %s, %s)' % (n, bits(r), a[0], a[1])
        if n in ('fshl', 'fshr'):
            if vec:
                return 'tuple([fsh(%r, %d, x, y, z) for x, y, z in zip(%s, %s, %s)])' % (n, bits(r[2]), a[0], a[1], a[2])
            return 'fsh(%r, %d, %s, %s, %s)' % (n, bits(r), a[0], a[1], a[2])
        if n in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
            if parts[2] == 'with':
                return 'ovf(%r, %d, %s, %s)' % (n, bits(t), a[0], a[1])
            if vec:
                return 'tuple([sat(%r, %d, x, y) for x, y in zip(%s, %s)])' % (n, bits(r[2]), a[0], a[1])
            return 'sat(%r, %d, %s, %s)' % (n, bits(r), a[0], a[1])
        if n in ('ucmp', 'scmp'):
            return 'cmp3(%r, %d, %d, %s, %s)' % (n, bits(t), bits(r), a[0], a[1])
        if n in ('ctpop', 'cttz', 'ctlz', 'bswap', 'bitreverse'):
            fn = 'bitrev' if n == 'bitreverse' else n
            if vec:
                return 'tuple([%s(%d, x) for x in %s])' % (fn, bits(r[2]), a[0])
            return '%s(%d, %s)' % (fn, bits(r), a[0])
        if n == 'abs':
            w = bits(r)
            return 'ite(%d, slt(%d, %s, 0), sub(%d, 0, %s), %s)' % (w, w, a[0], w, a[0], a[0])
        if n in ('ceil', 'floor', 'trunc'):
            return 'fround(S, %r, %d, %s)' % (n, bits(r), a[0])
        if n == 'fabs':
            return 'band(%d, %s, %d)' % (bits(r), a[0], (1 << (bits(r) - 1)) - 1)
        if n == 'copysign':
            w = bits(r)
            m = (1 << (w - 1)) - 1
            return 'bor(%d, band(%d, %s, %d), band(%d, %s, %d))' % (w, w, a[0], m, w, a[1], m + 1)
        if n in ('fptoui', 'fptosi'):
            return 'fptosat(S, %r, %d, %d, %s)' % (n == 'fptosi', bits(r), bits(t), a[0])
        if n == 'vector' and parts[2] == 'reduce':
            op = parts[3]
            f2 = {'add': 'add', 'or': 'bor', 'and': 'band', 'xor': 'bxor', 'mul': 'mul'}.get(op)
            w = bits(r)
            if f2:
                return '__import__("functools").reduce(lambda x, y: %s(%d, x, y), %s)' % (f2, w, a[0])
            return '__import__("functools").reduce(lambda x, y: minmax(%r, %d, x, y), %s)' % (op, w, a[0])
        return 'S.noext(%r)' % f

    def panic_info(self, st, name, args):
        """try to read a core::panic::Location among the arguments"""
        out = []
        for a in args:
            if type(a) is not int or a < 1 << 32:
                continue
            g = self.mod.byid.get(a >> 32)
            if not isinstance(g, ll.Global):
                continue
            try:
                self.mod.ginit(g)
                if g.size == 24:
                    fp, n = struct.unpack('<QQ', bytes(g.data[:16]))
                    line, col = struct.unpack('<II', bytes(g.data[16:24]))
                    fg = self.mod.byid.get(fp >> 32)
                    if isinstance(fg, ll.Global) and n < 500:
                        self.mod.ginit(fg)
                        out.append('%s:%d:%d' % (bytes(fg.data[:n]).decode('latin1'), line, col))
                        continue
                s = bytes(g.data)
                if g.size < 200 and all(32 <= c < 127 for c in s.rstrip(b'\0')):
                    out.append(s.rstrip(b'\0').decode())
            except Exception:
                pass
        return ' | '.join(out) or name

    def start(self, fname, prm=()):
        f = self.mod.funcs['@' + fname]
        if f.entry is None:
            self.compile(f)
        s = State()
        s.vm = self
        s.frames = []
        s.R = [None] * f.nregs
        s.fn = f
        s.mem = {}
        s.own = 1
        s.cons = []
        s.model = {}
        s.memo = {}
        s.known = {}
        s.nvar = 0
        s.nextid = 1 << 20
        s.seg = f.entry
        s.covers = set()
        s.obs = []
        s.nd = []
        s.allocas = []
        s.inb = set()
        s.prm = list(prm)
        s.depth = 0
        f.hit = True
        return s

    def run(self, fname, prm=(), on_path=None, max_paths=100000, deadline=None, stop_on_fail=True):
        """explore every path; on_path(kind, state, info)"""
        self.work = [self.start(fname, prm)]
        paths = 0
        while self.work:
            st = self.work.pop()
            kind, info = self.run_path(st, deadline)
            paths += 1
            if on_path(kind, st, info) and stop_on_fail:
                return
            if paths >= max_paths:
                raise EngineLimit('more than %d paths' % max_paths)

    def run_path(self, st, deadline=None):
        seg = st.seg
        n = 0
        try:
            while True:
                try:
                    while True:
                        nxt = seg(st, st.R)
                        seg = nxt
                        n += 1
                        if n & 0xffff == 0 and deadline is not None and time.time() > deadline:
                            raise EngineLimit('time limit')
                except Fork as f:
                    if deadline is not None and time.time() > deadline:
                        raise EngineLimit('time limit')
                    st.seg = seg
                    alts = f.alts
                    for c, m, kn in alts[1:]:
                        s2 = st.clone()
                        s2.addcon(c)
                        s2.setmodel(m)
                        if kn is not None:
                            s2.known[kn[0]] = kn[1]
                        self.push(s2)
                    c, m, kn = alts[0]
                    st.addcon(c)
                    if m:
                        st.setmodel(m)
                    if kn is not None:
                        st.known[kn[0]] = kn[1]
                    seg = st.seg
        except PathEnd as e:
            self.segs += n
            return e.kind, e.info
        except RecursionError:
            raise EngineLimit('expression too deep')
