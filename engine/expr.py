"""Bit-vector expression DAG with hash-consing, local simplification, concrete
evaluation and translation to z3.  A value is a Python int (concrete) or an E."""
import sys
sys.setrecursionlimit(200000)
try:
    import z3
except ImportError:
    z3 = None

_tab = {}
_next = [0]


class E(object):
    __slots__ = ('op', 'w', 'a', 'b', 'c', 'id', 'vars', 'pm', 'z', 'tt', 'nd', 'sz')
    # pm: mask of bits that may be one

    def __repr__(self):
        return show(self, 6)


def reset():
    _tab.clear()


def show(e, d=4):
    if type(e) is int:
        return hex(e)
    if e.op == 'var':
        return 'b%d' % e.a
    if d == 0:
        return '..'
    xs = [show(x, d - 1) if (type(x) is E or type(x) is int) else str(x) for x in (e.a, e.b, e.c) if x is not None]
    return '(%s.%d %s)' % (e.op, e.w, ' '.join(xs))


def _mk(op, w, a, b=None, c=None, pm=None):
    k = (op, w, a if type(a) is int else (a.id, 0) if a is not None else None,
         b if type(b) is int else (b.id, 0) if b is not None else None,
         c if type(c) is int else (c.id, 0) if c is not None else None)
    r = _tab.get(k)
    if r is not None:
        return r
    r = E()
    r.op = op
    r.w = w
    r.a = a
    r.b = b
    r.c = c
    r.id = _next[0]
    _next[0] += 1
    v = 0
    n = 1
    if op == 'var':
        v = 1 << a
    else:
        if type(a) is E:
            v |= a.vars
            n += a.sz
        if type(b) is E:
            v |= b.vars
            n += b.sz
        if type(c) is E:
            v |= c.vars
            n += c.sz
    r.vars = v
    # size as a tree, saturating: rewrites that copy structure stop at big shared circuits
    r.sz = n if n < 1000000 else 1000000
    r.pm = pm if pm is not None else (1 << w) - 1
    r.z = None
    r.tt = None
    _tab[k] = r
    return r


def var(i, w=8):
    return _mk('var', w, i)


def pmask(x):
    return x if type(x) is int else x.pm


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def _fill(n):
    return (1 << n.bit_length()) - 1


def add(w, a, b):
    M = (1 << w) - 1
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return (a + b) & M
    if ta:
        a, b, ta, tb = b, a, tb, ta
    if tb:
        if b == 0:
            return a
        if a.op == 'add' and type(a.b) is int:
            return add(w, a.a, (a.b + b) & M)
        if a.op == 'ite' and type(a.b) is int and type(a.c) is int:
            return ite(w, a.a, (a.b + b) & M, (a.c + b) & M)
    pa = pmask(a)
    pb = pmask(b)
    if pa & pb == 0 and not tb:
        return bor(w, a, b)
    hi = pa + pb
    pm = M if hi > M else _fill(hi)
    if not tb and a.id > b.id:
        a, b = b, a
    return _mk('add', w, a, b, None, pm)


def sub(w, a, b):
    M = (1 << w) - 1
    if type(b) is int:
        if type(a) is int:
            return (a - b) & M
        return add(w, a, (-b) & M)
    if a is b:
        return 0
    if type(a) is E and a.op == 'add' and a.a is b:
        return a.b
    if type(a) is E and a.op == 'add' and a.b is b:
        return a.a
    if type(a) is E and type(b) is E:
        # (x + c1) - (x + c2)
        xa, ca = (a.a, a.b) if a.op == 'add' and type(a.b) is int else (a, 0)
        xb, cb = (b.a, b.b) if b.op == 'add' and type(b.b) is int else (b, 0)
        if xa is xb:
            return (ca - cb) & M
    return _mk('sub', w, a, b)


def mul(w, a, b):
    M = (1 << w) - 1
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return (a * b) & M
    if ta:
        a, b, ta, tb = b, a, tb, ta
    if tb:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(w, a, b.bit_length() - 1)
    elif a.id > b.id:
        a, b = b, a
    hi = pmask(a) * pmask(b)
    return _mk('mul', w, a, b, None, M if hi > M else _fill(hi))


def udiv(w, a, b):
    if type(b) is int:
        if b == 0:
            raise ZeroDivisionError
        if type(a) is int:
            return a // b
        if b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
        return _mk('udiv', w, a, b, None, _fill(a.pm // b))
    return _mk('udiv', w, a, b, None, _fill(pmask(a)))


def urem(w, a, b):
    if type(b) is int:
        if b == 0:
            raise ZeroDivisionError
        if type(a) is int:
            return a % b
        if b & (b - 1) == 0:
            return band(w, a, b - 1)
        if a.pm < b:
            return a
        return _mk('urem', w, a, b, None, min(_fill(b - 1), _fill(a.pm)))
    return _mk('urem', w, a, b, None, _fill(pmask(a)))


def sdiv(w, a, b):
    if type(b) is int:
        if b == 0:
            raise ZeroDivisionError
        if type(a) is int:
            x = sgn(a, w)
            y = sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q & ((1 << w) - 1)
        if not (a.pm >> (w - 1)) and not (b >> (w - 1)):
            return udiv(w, a, b)
    return _mk('sdiv', w, a, b)


def srem(w, a, b):
    if type(b) is int:
        if b == 0:
            raise ZeroDivisionError
        if type(a) is int:
            x = sgn(a, w)
            y = sgn(b, w)
            r = abs(x) % abs(y)
            if x < 0:
                r = -r
            return r & ((1 << w) - 1)
        if not (a.pm >> (w - 1)) and not (b >> (w - 1)):
            return urem(w, a, b)
    return _mk('srem', w, a, b)


def band(w, a, b):
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return a & b
    if ta:
        a, b, ta, tb = b, a, tb, ta
    if a is b:
        return a
    if tb:
        pa = a.pm
        if pa & b == 0:
            return 0
        if pa & ~b == 0:
            return a
        if b & (b + 1) == 0 and w > 1:
            k = b.bit_length()
            return zext(w, ext(k, a, 0), k)
        if a.op == 'and' and type(a.b) is int:
            return band(w, a.a, a.b & b)
        if a.op == 'ite' and type(a.b) is int and type(a.c) is int:
            return ite(w, a.a, a.b & b, a.c & b)
        if a.op == 'zext' and b >> a.a.w == 0:
            return zext(w, band(a.a.w, a.a, b), a.a.w)
    else:
        if a.pm & b.pm == 0:
            return 0
        if a.id > b.id:
            a, b = b, a
    return _mk('and', w, a, b, None, pmask(a) & pmask(b))


def bor(w, a, b):
    ta = type(a) is int
    tb = type(b) is int
    M = (1 << w) - 1
    if ta and tb:
        return a | b
    if ta:
        a, b, ta, tb = b, a, tb, ta
    if a is b:
        return a
    if tb:
        if b == 0:
            return a
        if b == M:
            return M
        if a.op == 'ite' and type(a.b) is int and type(a.c) is int:
            return ite(w, a.a, a.b | b, a.c | b)
    else:
        if w > 1:
            r = _or_cat(w, a, b)
            if r is not None:
                return r
        if a.id > b.id:
            a, b = b, a
    return _mk('or', w, a, b, None, pmask(a) | pmask(b))


def _or_cat(w, a, b):
    """or of two values with disjoint contiguous possible bits -> concatenation"""
    if a.pm & b.pm:
        return None
    if a.pm < b.pm:
        a, b = b, a
    k = b.pm.bit_length()
    if a.pm & ((1 << k) - 1):
        return None
    lo = ext(k, b, 0)
    hi = ext(w - k, a, k)
    return cat(w, hi, lo, k)


def bxor(w, a, b):
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return a ^ b
    if ta:
        a, b, ta, tb = b, a, tb, ta
    if a is b:
        return 0
    if tb:
        if b == 0:
            return a
        if a.op == 'xor' and type(a.b) is int:
            return bxor(w, a.a, a.b ^ b)
        if w == 1 and a.op == 'ite':
            return ite(1, a.a, bxor(1, a.b, 1), bxor(1, a.c, 1))
        if a.op == 'ite' and type(a.b) is int and type(a.c) is int:
            return ite(w, a.a, a.b ^ b, a.c ^ b)
        if a.op == 'zext' and b >> a.a.w == 0 and w > 1:
            return zext(w, bxor(a.a.w, a.a, b), a.a.w)
        if a.op == 'cat':
            k = a.c
            return cat(w, bxor(w - k, a.a, b >> k), bxor(k, a.b, b & ((1 << k) - 1)), k)
    else:
        if a.op == 'xor':
            if a.a is b:
                return a.b
            if a.b is b:
                return a.a
        if b.op == 'xor':
            if b.a is a:
                return b.b
            if b.b is a:
                return b.a
        if a.op == 'xor' and type(a.b) is int:
            return bxor(w, bxor(w, a.a, b), a.b)
        if b.op == 'xor' and type(b.b) is int:
            return bxor(w, bxor(w, a, b.a), b.b)
        if a.op == 'cat' and b.op == 'cat' and a.c == b.c:
            k = a.c
            return cat(w, bxor(w - k, a.a, b.a), bxor(k, a.b, b.b), k)
        if a.id > b.id:
            a, b = b, a
    return _mk('xor', w, a, b, None, pmask(a) | pmask(b) if not tb else (pmask(a) | b))


def shl(w, a, b):
    M = (1 << w) - 1
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return (a << b) & M
        if b == 0:
            return a
        return cat(w, ext(w - b, a, 0), 0, b)
    return _mk('shl', w, a, b)


def lshr(w, a, b):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return a >> b
        if b == 0:
            return a
        return zext(w, ext(w - b, a, b), w - b)
    return _mk('lshr', w, a, b, None, _fill(pmask(a)))


def ashr(w, a, b):
    if type(b) is int:
        if b >= w:
            b = w - 1
        if type(a) is int:
            return (sgn(a, w) >> b) & ((1 << w) - 1)
        if b == 0:
            return a
        if not (a.pm >> (w - 1)):
            return lshr(w, a, b)
        return sext(w, ext(w - b, a, b), w - b)
    return _mk('ashr', w, a, b)


def cat(w, hi, lo, k):
    """hi : lo, lo has k bits"""
    if k == 0:
        return hi
    if k == w:
        return lo
    th = type(hi) is int
    tl = type(lo) is int
    if th and tl:
        return (hi << k) | lo
    if th and hi == 0:
        return zext(w, lo, k)
    if not th and hi.op == 'zext':
        return zext(w, cat(k + hi.a.w, hi.a, lo, k), k + hi.a.w)
    if not th and not tl:
        # merge adjacent extracts
        if hi.op == 'ext' and lo.op == 'ext' and hi.a is lo.a and hi.b == lo.b + lo.w:
            return ext(w, hi.a, lo.b)
        if hi.op == 'ext' and hi.a is lo and hi.b == lo.w:
            return ext(w, lo, 0)
        if lo.op == 'ext' and lo.a.op != 'ext' and hi.op == 'cat' and type(hi.b) is E and hi.b.op == 'ext' and hi.b.a is lo.a and hi.b.b == lo.b + lo.w:
            return cat(w, hi.a, ext(k + hi.c, lo.a, lo.b), k + hi.c)
        if lo.op == 'cat' and type(lo.a) is E and lo.a.op == 'ext' and hi.op == 'ext' and hi.a is lo.a.a and hi.b == lo.a.b + lo.a.w:
            return cat(w, ext(hi.w + lo.a.w, hi.a, lo.a.b), lo.b, lo.c)
    return _mk('cat', w, hi, lo, k, (pmask(hi) << k) | pmask(lo))


BIG = 400


def ext(w, a, lo):
    """bits [lo, lo+w) of a"""
    if type(a) is int:
        return (a >> lo) & ((1 << w) - 1)
    if lo == 0 and w == a.w:
        return a
    if (a.pm >> lo) & ((1 << w) - 1) == 0:
        return 0
    op = a.op
    if op == 'ext':
        return ext(w, a.a, a.b + lo)
    if op == 'zext':
        iw = a.a.w
        if lo + w <= iw:
            return ext(w, a.a, lo)
        return zext(w, ext(iw - lo, a.a, lo), iw - lo)
    if op == 'sext':
        iw = a.a.w
        if lo + w <= iw:
            return ext(w, a.a, lo)
        if lo < iw:
            return sext(w, ext(iw - lo, a.a, lo), iw - lo)
    if op == 'cat':
        k = a.c
        if lo >= k:
            return ext(w, a.a, lo - k)
        if lo + w <= k:
            return ext(w, a.b, lo)
        return cat(w, ext(w - (k - lo), a.a, 0), ext(k - lo, a.b, lo), k - lo)
    if op == 'xor' or op == 'and' or op == 'or':
        # push the extract inwards, but not through arbitrarily deep (shared) circuits
        if a.sz < BIG:
            f = bxor if op == 'xor' else band if op == 'and' else bor
            return f(w, ext(w, a.a, lo), ext(w, a.b, lo))
    if op == 'ite':
        if type(a.b) is int or type(a.c) is int or a.b.op in ('zext', 'cat', 'ext') or a.c.op in ('zext', 'cat', 'ext'):
            return ite(w, a.a, ext(w, a.b, lo), ext(w, a.c, lo))
    if lo == 0 and op in ('add', 'sub', 'mul'):
        f = add if op == 'add' else sub if op == 'sub' else mul
        return f(w, ext(w, a.a, 0), ext(w, a.b, 0))
    return _mk('ext', w, a, lo, None, (a.pm >> lo) & ((1 << w) - 1))


def zext(w, a, iw):
    if type(a) is int:
        return a
    if w == iw:
        return a
    if a.op == 'zext':
        return zext(w, a.a, a.a.w)
    if a.op == 'ite' and type(a.b) is int and type(a.c) is int:
        return ite(w, a.a, a.b, a.c)
    return _mk('zext', w, a, None, None, a.pm)


def sext(w, a, iw):
    if type(a) is int:
        return sgn(a, iw) & ((1 << w) - 1)
    if w == iw:
        return a
    if not (a.pm >> (iw - 1)):
        return zext(w, a, iw)
    if a.op == 'sext':
        return sext(w, a.a, a.a.w)
    if iw == 1:
        return ite(w, a, (1 << w) - 1, 0)
    if a.op == 'ite' and type(a.b) is int and type(a.c) is int:
        return ite(w, a.a, sext(w, a.b, iw), sext(w, a.c, iw))
    return _mk('sext', w, a)


def ite(w, c, a, b):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if w == 1 and type(a) is int and type(b) is int:
        return c if a == 1 else bxor(1, c, 1)
    if w == 1:
        if type(a) is int:
            return bor(1, c, b) if a else band(1, bxor(1, c, 1), b)
        if type(b) is int:
            return bor(1, bxor(1, c, 1), a) if b else band(1, c, a)
    if c.op == 'xor' and type(c.b) is int and c.b == 1 and c.w == 1:
        return ite(w, c.a, b, a)
    if type(a) is E and a.op == 'ite' and a.a is c:
        a = a.b
        return ite(w, c, a, b)
    if type(b) is E and b.op == 'ite' and b.a is c:
        return ite(w, c, a, b.c)
    return _mk('ite', w, c, a, b, pmask(a) | pmask(b))


def bnot1(a):
    return bxor(1, a, 1)


def eq(w, a, b):
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return 1 if a == b else 0
    if ta:
        a, b, ta, tb = b, a, tb, ta
    if a is b:
        return 1
    if w == 1:
        if tb:
            return a if b else bxor(1, a, 1)
        return bxor(1, bxor(1, a, b), 1)
    if tb:
        if b & ~a.pm:
            return 0
        op = a.op
        if op == 'zext':
            return eq(a.a.w, a.a, b)
        if op == 'sext':
            iw = a.a.w
            t = b & ((1 << iw) - 1)
            if sgn(t, iw) & ((1 << w) - 1) != b:
                return 0
            return eq(iw, a.a, t)
        if op == 'xor' and type(a.b) is int:
            return eq(w, a.a, a.b ^ b)
        if op == 'add' and type(a.b) is int:
            return eq(w, a.a, (b - a.b) & ((1 << w) - 1))
        if op == 'ite':
            if type(a.b) is int or type(a.c) is int:
                return ite(1, a.a, eq(w, a.b, b), eq(w, a.c, b))
        if op == 'cat':
            k = a.c
            return band(1, eq(w - k, a.a, b >> k), eq(k, a.b, b & ((1 << k) - 1)))
    else:
        if a.pm & b.pm == 0 and False:
            pass
        if a.op == 'cat' and b.op == 'cat' and a.c == b.c:
            k = a.c
            return band(1, eq(w - k, a.a, b.a), eq(k, a.b, b.b))
        if a.op == 'zext' and b.op == 'zext':
            n = max(a.a.w, b.a.w)
            return eq(n, zext(n, a.a, a.a.w), zext(n, b.a, b.a.w))
        if a.id > b.id:
            a, b = b, a
    return _mk('eq', 1, a, b, w)


def urange(x):
    """unsigned bounds"""
    if type(x) is int:
        return x, x
    op = x.op
    if op == 'zext':
        return urange(x.a)
    if op == 'add' and type(x.b) is int:
        l, h = urange(x.a)
        M = (1 << x.w)
        if h + x.b < M:
            return l + x.b, h + x.b
        if l + x.b >= M:
            return l + x.b - M, h + x.b - M
        return 0, M - 1
    if op == 'ite':
        l1, h1 = urange(x.b)
        l2, h2 = urange(x.c)
        return min(l1, l2), max(h1, h2)
    if op == 'add':
        l1, h1 = urange(x.a)
        l2, h2 = urange(x.b)
        if h1 + h2 < (1 << x.w):
            return l1 + l2, h1 + h2
    if op == 'mul':
        l1, h1 = urange(x.a)
        l2, h2 = urange(x.b)
        if h1 * h2 < (1 << x.w):
            return l1 * l2, h1 * h2
    if op == 'urem' and type(x.b) is int:
        return 0, min(x.b - 1, x.pm)
    if op == 'udiv' and type(x.b) is int:
        l, h = urange(x.a)
        return l // x.b, h // x.b
    return 0, x.pm


def ult(w, a, b):
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return 1 if a < b else 0
    if a is b:
        return 0
    if w == 1:
        return band(1, bxor(1, a, 1), b)
    la, ha = urange(a)
    lb, hb = urange(b)
    if ha < lb:
        return 1
    if la >= hb:
        return 0
    if tb:
        if b == 1:
            return eq(w, a, 0)
        if a.op == 'zext':
            return ult(a.a.w, a.a, b)
        if a.op == 'ite' and (type(a.b) is int or type(a.c) is int):
            return ite(1, a.a, ult(w, a.b, b), ult(w, a.c, b))
    if ta:
        if b.op == 'zext':
            return ult(b.a.w, a, b.a)
        if b.op == 'ite' and (type(b.b) is int or type(b.c) is int):
            return ite(1, b.a, ult(w, a, b.b), ult(w, a, b.c))
        if a == 0:
            return bxor(1, eq(w, b, 0), 1)
    if not ta and not tb and a.op == 'zext' and b.op == 'zext':
        n = max(a.a.w, b.a.w)
        return ult(n, zext(n, a.a, a.a.w), zext(n, b.a, b.a.w))
    return _mk('ult', 1, a, b, w)


def ule(w, a, b):
    return bxor(1, ult(w, b, a), 1)


def slt(w, a, b):
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return 1 if sgn(a, w) < sgn(b, w) else 0
    if a is b:
        return 0
    S = 1 << (w - 1)
    if not (pmask(a) & S) and not (pmask(b) & S):
        return ult(w, a, b)
    if tb and type(a) is E:
        if a.op == 'sext':
            iw = a.a.w
            sb = sgn(b, w)
            if sb <= -(1 << (iw - 1)):
                return 0
            if sb > (1 << (iw - 1)) - 1:
                return 1
            return slt(iw, a.a, sb & ((1 << iw) - 1))
        if a.op == 'ite' and (type(a.b) is int or type(a.c) is int):
            return ite(1, a.a, slt(w, a.b, b), slt(w, a.c, b))
        if b == 0:
            return ext(1, a, w - 1)
    if ta and type(b) is E:
        if b.op == 'sext':
            iw = b.a.w
            sa = sgn(a, w)
            if sa >= (1 << (iw - 1)) - 1:
                return 0
            if sa < -(1 << (iw - 1)):
                return 1
            return slt(iw, sa & ((1 << iw) - 1), b.a)
        if b.op == 'ite' and (type(b.b) is int or type(b.c) is int):
            return ite(1, b.a, slt(w, a, b.b), slt(w, a, b.c))
        if a == (1 << w) - 1:
            return bxor(1, ext(1, b, w - 1), 1)
    return _mk('slt', 1, a, b, w)


def sle(w, a, b):
    return bxor(1, slt(w, b, a), 1)


def ctpop(w, a):
    if type(a) is int:
        return bin(a).count('1')
    r = 0
    for i in range(w):
        r = add(w, r, zext(w, ext(1, a, i), 1))
    return r


def cttz(w, a):
    if type(a) is int:
        return w if a == 0 else (a & -a).bit_length() - 1
    r = w
    for i in range(w - 1, -1, -1):
        r = ite(w, ext(1, a, i), i, r)
    return r


def ctlz(w, a):
    if type(a) is int:
        return w - a.bit_length()
    r = w
    for i in range(w):
        r = ite(w, ext(1, a, i), w - 1 - i, r)
    return r


def bswap(w, a):
    n = w // 8
    r = ext(8, a, 0)
    k = 8
    for i in range(1, n):
        # result: byte0 is most significant
        r = cat(k + 8, r, ext(8, a, 8 * i), 8)
        k += 8
    return r


def bitrev(w, a):
    r = ext(1, a, 0)
    for i in range(1, w):
        r = cat(i + 1, r, ext(1, a, i), 1)
    return r


# ---------------------------------------------------------------- evaluation
def ev(e, model, memo):
    """value of e under model (dict var -> int, default 0)"""
    if type(e) is int:
        return e
    r = memo.get(e.id)
    if r is not None:
        return r
    op = e.op
    w = e.w
    if op == 'var':
        r = model.get(e.a, 0)
    elif op == 'ite':
        r = ev(e.b, model, memo) if ev(e.a, model, memo) else ev(e.c, model, memo)
    elif op == 'cat':
        r = (ev(e.a, model, memo) << e.c) | ev(e.b, model, memo)
    elif op == 'ext':
        r = (ev(e.a, model, memo) >> e.b) & ((1 << w) - 1)
    elif op == 'zext':
        r = ev(e.a, model, memo)
    elif op == 'sext':
        r = sgn(ev(e.a, model, memo), e.a.w) & ((1 << w) - 1)
    else:
        a = ev(e.a, model, memo)
        b = ev(e.b, model, memo)
        M = (1 << w) - 1
        if op == 'add':
            r = (a + b) & M
        elif op == 'sub':
            r = (a - b) & M
        elif op == 'mul':
            r = (a * b) & M
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'eq':
            r = 1 if a == b else 0
        elif op == 'ult':
            r = 1 if a < b else 0
        elif op == 'slt':
            r = 1 if sgn(a, e.c) < sgn(b, e.c) else 0
        elif op == 'shl':
            r = (a << b) & M if b < w else 0
        elif op == 'lshr':
            r = a >> b if b < w else 0
        elif op == 'ashr':
            r = ashr(w, a, b)
        elif op == 'udiv':
            r = a // b if b else M
        elif op == 'urem':
            r = a % b if b else a
        elif op == 'sdiv':
            r = sdiv(w, a, b) if b else (1 if sgn(a, w) < 0 else M)
        elif op == 'srem':
            r = srem(w, a, b) if b else a
        else:
            raise NotImplementedError(op)
    memo[e.id] = r
    return r


# ---------------------------------------------------------------- z3
def _b2v(x):
    return z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def _zv(x, w):
    """as z3 bit-vector"""
    if type(x) is int:
        return z3.BitVecVal(x, w)
    t = toz(x)
    return _b2v(t) if x.w == 1 else t


def _zb(x):
    if type(x) is int:
        return z3.BoolVal(x == 1)
    return toz(x)


def toz(e):
    """z3 term; width-1 expressions become Bool"""
    if e.z is not None:
        return e.z
    # iterative post-order to avoid deep recursion
    stack = [e]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop()
            continue
        pend = [y for y in (x.a, x.b, x.c) if type(y) is E and y.z is None]
        if pend:
            stack.extend(pend)
            continue
        x.z = _toz1(x)
        stack.pop()
    return e.z


def _toz1(e):
    op = e.op
    w = e.w
    if op == 'var':
        return z3.BitVec('b%d' % e.a, w)
    if w == 1:
        if op == 'eq':
            if e.c == 1:
                return _zb(e.a) == _zb(e.b)
            return _zv(e.a, e.c) == _zv(e.b, e.c)
        if op == 'ult':
            return z3.ULT(_zv(e.a, e.c), _zv(e.b, e.c))
        if op == 'slt':
            return _zv(e.a, e.c) < _zv(e.b, e.c)
        if op == 'and':
            return z3.And(_zb(e.a), _zb(e.b))
        if op == 'or':
            return z3.Or(_zb(e.a), _zb(e.b))
        if op == 'xor':
            if type(e.b) is int and e.b == 1:
                return z3.Not(_zb(e.a))
            return z3.Xor(_zb(e.a), _zb(e.b))
        if op == 'ite':
            return z3.If(_zb(e.a), _zb(e.b), _zb(e.c))
        if op == 'ext':
            return z3.Extract(e.b, e.b, toz(e.a)) == z3.BitVecVal(1, 1)
        if op in ('add', 'sub'):
            return z3.Xor(_zb(e.a), _zb(e.b))
        if op == 'mul':
            return z3.And(_zb(e.a), _zb(e.b))
        raise NotImplementedError('z3 bool ' + op)
    if op == 'ite':
        return z3.If(_zb(e.a), _zv(e.b, w), _zv(e.c, w))
    if op == 'zext':
        return z3.ZeroExt(w - e.a.w, _zv(e.a, e.a.w))
    if op == 'sext':
        return z3.SignExt(w - e.a.w, _zv(e.a, e.a.w))
    if op == 'ext':
        return z3.Extract(e.b + w - 1, e.b, toz(e.a))
    if op == 'cat':
        return z3.Concat(_zv(e.a, w - e.c), _zv(e.b, e.c))
    a = _zv(e.a, w)
    b = _zv(e.b, w)
    if op == 'add':
        return a + b
    if op == 'sub':
        return a - b
    if op == 'mul':
        return a * b
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return a << b
    if op == 'lshr':
        return z3.LShR(a, b)
    if op == 'ashr':
        return a >> b
    if op == 'udiv':
        return z3.UDiv(a, b)
    if op == 'urem':
        return z3.URem(a, b)
    if op == 'sdiv':
        return a / b
    if op == 'srem':
        return z3.SRem(a, b)
    raise NotImplementedError('z3 ' + op)


# ---------------------------------------------------------------- byte-domain tables
# an expression over a single input byte is a function of 256 values; its table is
# computed once, vectorised, and makes such slices decidable without a SAT call
import numpy as np
_BYTES = np.arange(256, dtype=np.uint64)
_U = np.uint64


def table(e):
    """numpy array of the 256 values of a single-variable expression, or None"""
    t = e.tt
    if t is not None:
        return t if t is not False else None
    t = _table(e)
    e.tt = False if t is None else t
    return t


def _opnd(x):
    if type(x) is int:
        return _U(x) if x >> 64 == 0 else None
    return table(x)


def _sg(x, w):
    """sign-extended to int64"""
    s = _U(64 - w)
    return (x << s).view(np.int64) >> np.int64(64 - w) if type(x) is np.ndarray else np.array([x], dtype=np.uint64).__lshift__(s).view(np.int64) >> np.int64(64 - w)


def _table(e):
    w = e.w
    op = e.op
    if w > 64:
        return None
    if op == 'var':
        return _BYTES
    a = _opnd(e.a)
    if a is None:
        return None
    M = _U((1 << w) - 1)
    if op == 'ext':
        return (a >> _U(e.b)) & M
    if op == 'zext':
        return a
    if op == 'sext':
        return _sg(a, e.a.w).view(np.uint64) & M
    b = _opnd(e.b)
    if b is None:
        return None
    if op == 'ite':
        c = _opnd(e.c)
        if c is None:
            return None
        return np.where(a != 0, b, c)
    if op == 'cat':
        return (a << _U(e.c)) | b
    with np.errstate(over='ignore'):
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'and':
            return a & b
        elif op == 'or':
            return a | b
        elif op == 'xor':
            return a ^ b
        elif op == 'eq':
            return (a == b).astype(np.uint64)
        elif op == 'ult':
            return (a < b).astype(np.uint64)
        elif op == 'slt':
            return (_sg(a, e.c) < _sg(b, e.c)).astype(np.uint64)
        elif op == 'udiv' and type(e.b) is int and e.b:
            return a // b
        elif op == 'urem' and type(e.b) is int and e.b:
            return a % b
        else:
            return None
    return r & M


def tmask(e):
    """256-bit integer: bit i set when the boolean e holds for byte value i"""
    t = table(e)
    if t is None:
        return None
    if type(t) is not np.ndarray or t.shape != (256,):
        t = np.broadcast_to(t, (256,))
    return int.from_bytes(np.packbits(t.astype(np.uint8), bitorder='little').tobytes(), 'little')
