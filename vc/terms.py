"""Value domain of the verifier.

int            a constant (masked to its width)
bool/BoolRef   an i1
BitVecRef      a term of any width
Lin            a 64-bit linear form  c + sum coef*term   (pointers and sizes)
Mux            guarded alternatives of 64-bit values (pointers into different objects)
tuple          aggregates
All arithmetic is modular machine arithmetic; nothing is treated as mathematical integers.
"""
import z3

BASE_SHIFT = 40
HALF = 1 << 39
M64 = (1 << 64) - 1


def obj_base(k):
    return (k << BASE_SHIFT) + HALF


class Lin:
    __slots__ = ("c", "t", "_bv")

    def __init__(self, c, t):
        self.c = c & M64
        self.t = t
        self._bv = None

    def bv(self):
        if self._bv is None:
            acc = None
            for k in sorted(self.t):
                term, co = self.t[k]
                if co == 1:
                    x = term
                elif co & (co - 1) == 0:
                    x = term << z3.BitVecVal(co.bit_length() - 1, 64)
                elif co > (1 << 63):
                    n = (-co) & M64
                    x = -term if n == 1 else -(term * z3.BitVecVal(n, 64))
                else:
                    x = term * z3.BitVecVal(co, 64)
                acc = x if acc is None else acc + x
            if acc is None:
                acc = z3.BitVecVal(self.c, 64)
            elif self.c:
                acc = acc + z3.BitVecVal(self.c, 64)
            self._bv = acc
        return self._bv


class Mux:
    """alts: list of (guard BoolRef, value) mutually exclusive; the last one is the default"""
    __slots__ = ("alts", "_bv")

    def __init__(self, alts):
        self.alts = alts
        self._bv = None

    def bv(self):
        if self._bv is None:
            r = bv(self.alts[-1][1], 64)
            for g, v in reversed(self.alts[:-1]):
                r = z3.If(g, bv(v, 64), r)
            self._bv = r
        return self._bv


class Float:
    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = bits


def mask(w):
    return (1 << w) - 1


_VAL = {}


def bvval(c, w):
    k = (c, w)
    r = _VAL.get(k)
    if r is None:
        r = z3.BitVecVal(c, w)
        _VAL[k] = r
    return r


def bv(v, w):
    if isinstance(v, bool):
        return bvval(int(v), w)
    if isinstance(v, int):
        return bvval(v & mask(w), w)
    if isinstance(v, (Lin, Mux)):
        return v.bv()
    if isinstance(v, z3.BoolRef):
        return z3.If(v, bvval(1, w), bvval(0, w))
    if isinstance(v, Float):
        return bv(v.bits, w)
    return v


def norm(t, w):
    """z3 term -> int when it is a numeral"""
    if isinstance(t, z3.BitVecNumRef):
        return t.as_long()
    return t


def tobool(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return bool(v & 1)
    if isinstance(v, z3.BoolRef):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return v
    return v != bvval(0, v.size())


def zb(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(r)


def Or(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(r)


def Implies(a, b):
    return Or(Not(a), b)


def beq(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    if a.eq(b):
        return True
    return a == b


def lin(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, int):
        return Lin(v, {})
    if isinstance(v, Mux):
        v = v.bv()
    t = v
    if isinstance(t, z3.BitVecNumRef):
        return Lin(t.as_long(), {})
    return Lin(0, {t.get_id(): (t, 1)})


def unlin(l):
    return l if l.t else l.c


def _add(a, b, sb=1):
    if isinstance(a, int) and isinstance(b, int):
        return (a + sb * b) & M64
    a, b = lin(a), lin(b)
    t = dict(a.t)
    for k, (term, co) in b.t.items():
        co = (co * sb) & M64
        if k in t:
            n = (t[k][1] + co) & M64
            if n:
                t[k] = (term, n)
            else:
                del t[k]
        else:
            t[k] = (term, co)
    return unlin(Lin(a.c + sb * b.c, t))


def dist2(f, a, b):
    """apply f over Mux alternatives"""
    if isinstance(a, Mux) and isinstance(b, Mux):
        if len(a.alts) * len(b.alts) > 24:
            return f(a.bv(), b.bv())
        out = []
        for g, x in a.alts:
            for h, y in b.alts:
                out.append((And(g, h), f(x, y)))
        return mkmux(out)
    if isinstance(a, Mux):
        return mkmux([(g, f(x, b)) for g, x in a.alts])
    if isinstance(b, Mux):
        return mkmux([(g, f(a, y)) for g, y in b.alts])
    return f(a, b)


def objof(v):
    """object id a 64-bit value syntactically points into, or None"""
    if isinstance(v, Lin):
        c = v.c
    elif isinstance(v, int):
        c = v
    else:
        return None
    k = c >> BASE_SHIFT
    return k if 0 < k < (1 << 22) else None


def same64(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Lin) and isinstance(b, Lin):
        if a.c != b.c or len(a.t) != len(b.t):
            return False
        return all(k in b.t and b.t[k][1] == co for k, (_, co) in a.t.items())
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return a is b


def ite64(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b or same64(a, b):
        return a
    if isinstance(a, Mux) or isinstance(b, Mux):
        aa = a.alts if isinstance(a, Mux) else [(True, a)]
        bb = b.alts if isinstance(b, Mux) else [(True, b)]
        return mkmux([(And(c, g), v) for g, v in aa] + [(And(Not(c), g), v) for g, v in bb])
    ka, kb = objof(a), objof(b)
    if ka is not None and ka == kb:
        base = obj_base(ka)
        x, y = _add(a, base, -1), _add(b, base, -1)
        # factor the common part
        x, y = lin(x), lin(y)
        com = {k: v for k, v in x.t.items() if k in y.t and y.t[k][1] == v[1]}
        rx = unlin(Lin(x.c, {k: v for k, v in x.t.items() if k not in com}))
        ry = unlin(Lin(y.c, {k: v for k, v in y.t.items() if k not in com}))
        # pull out a common scale so that alignment stays visible
        g = 0
        import math
        for l in (lin(rx), lin(ry)):
            s = l.c if l.c < (1 << 63) else (1 << 64) - l.c
            g = math.gcd(g, s)
            for _, co in l.t.values():
                s = co if co < (1 << 63) else (1 << 64) - co
                g = math.gcd(g, s)
        if g > 1:
            dv = lambda l: Lin(_sdiv(l.c, g), {k: (t, _sdiv(co, g)) for k, (t, co) in l.t.items()})
            m = z3.If(c, bv(unlin(dv(lin(rx))), 64), bv(unlin(dv(lin(ry))), 64))
            m = Lin(0, {m.get_id(): (m, g)})
        else:
            m = z3.If(c, bv(rx, 64), bv(ry, 64))
        return _add(_add(unlin(Lin(base, com)), m), 0)
    if ka is None and kb is None and not (isinstance(a, int) and a == 0) and not (isinstance(b, int) and b == 0):
        return lin(z3.If(c, bv(a, 64), bv(b, 64)))
    if ka is None and kb is None:
        return lin(z3.If(c, bv(a, 64), bv(b, 64)))
    return Mux([(c, a), (Not(c), b)])


def _sdiv(c, g):
    s = c if c < (1 << 63) else c - (1 << 64)
    return (s // g) & M64


def mkmux(alts):
    """merge alternatives that point into the same object"""
    groups = {}
    order = []
    for g, v in alts:
        if isinstance(g, bool) and not g:
            continue
        if isinstance(v, Mux):
            sub = [(And(g, h), x) for h, x in v.alts]
        else:
            sub = [(g, v)]
        for h, x in sub:
            if isinstance(x, z3.ExprRef):
                x = unlin(lin(x))
            k = objof(x)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((h, x))
    out = []
    for k in order:
        l = groups[k]
        v = l[-1][1]
        for h, x in reversed(l[:-1]):
            v = ite64(h, x, v)
        out.append((Or(*[h for h, _ in l]), v))
    if not out:
        return 0
    if len(out) == 1:
        return out[0][1]
    return Mux(out)


# ---------------------------------------------------------------- 64-bit and generic ops
def add(a, b, w):
    if w == 64:
        return dist2(_add, a, b)
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return bv(a, w) + bv(b, w)


def sub(a, b, w):
    if w == 64:
        return dist2(lambda x, y: _add(x, y, -1), a, b)
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    if isinstance(b, int) and b == 0:
        return a
    return bv(a, w) - bv(b, w)


def mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    if w == 64:
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            def f(x):
                l = lin(x)
                return unlin(Lin(l.c * b, {k: (t, (co * b) & M64) for k, (t, co) in l.t.items() if (co * b) & M64}))
            if isinstance(a, Mux):
                return mkmux([(g, f(x)) for g, x in a.alts])
            return f(a)
        return lin(bv(a, 64) * bv(b, 64))
    return bv(a, w) * bv(b, w)


def tosigned(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def binop(op, a, b, w):
    ci = isinstance(a, int) and isinstance(b, int)
    m = mask(w)
    if op == 'add':
        return add(a, b, w)
    if op == 'sub':
        return sub(a, b, w)
    if op == 'mul':
        return mul(a, b, w)
    if op == 'shl' and isinstance(b, int):
        if b >= w:
            return 0
        if w == 64:
            return mul(a, 1 << b, 64)
    if ci:
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (tosigned(a, w) >> min(b, w - 1)) & m
        if op == 'udiv':
            return a // b if b else m
        if op == 'urem':
            return a % b if b else a
        if op in ('sdiv', 'srem'):
            x, y = tosigned(a, w), tosigned(b, w)
            if y == 0:
                return 0
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q & m if op == 'sdiv' else (x - q * y) & m
    if op == 'and':
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int):
                if y == 0:
                    return 0
                if y == m:
                    return x
    if op in ('or', 'xor'):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int):
                if y == 0:
                    return x
                if op == 'or' and y == m:
                    return m
    if op in ('lshr', 'ashr', 'udiv', 'urem') and isinstance(a, int) and a == 0:
        return 0
    if op in ('lshr', 'ashr', 'shl') and isinstance(b, int) and b == 0:
        return a
    if op == 'urem' and isinstance(b, int) and b and b & (b - 1) == 0:
        return binop('and', a, b - 1, w)
    if op == 'udiv' and isinstance(b, int) and b and b & (b - 1) == 0:
        return binop('lshr', a, b.bit_length() - 1, w)
    x, y = bv(a, w), bv(b, w)
    r = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
         'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y),
         'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
    return lin(r) if w == 64 else r


def wrap(t, w):
    """z3 bit-vector term -> value"""
    if isinstance(t, z3.BitVecNumRef):
        return t.as_long()
    return lin(t) if w == 64 else t


_CMP = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
        'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}


def icmp(p, a, b, w):
    if w == 1:
        a, b = tobool(a), tobool(b)
        if p == 'eq':
            return beq(a, b)
        if p == 'ne':
            return Not(beq(a, b))
        a = bv(a, 1) if not isinstance(a, bool) else int(a)
        b = bv(b, 1) if not isinstance(b, bool) else int(b)
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, Mux) or isinstance(b, Mux):
        aa = a.alts if isinstance(a, Mux) else [(True, a)]
        bb = b.alts if isinstance(b, Mux) else [(True, b)]
        if len(aa) * len(bb) <= 24:
            return Or(*[And(g, h, icmp(p, x, y, w)) for g, x in aa for h, y in bb])
        a, b = bv(a, 64), bv(b, 64)
    if isinstance(a, int) and isinstance(b, int):
        if p[0] == 's':
            a, b = tosigned(a, w), tosigned(b, w)
        return {'eq': a == b, 'ne': a != b}[p] if p in ('eq', 'ne') else {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p[1:]]
    if p == 'ne':
        return Not(icmp('eq', a, b, w))
    if w == 64 and (isinstance(a, Lin) or isinstance(b, Lin)):
        if p == 'eq':
            d = _add(a, b, -1)
            if isinstance(d, int):
                return d == 0
            # even coefficients and odd constant can never be equal
            pos = {k: v for k, v in d.t.items() if v[1] < (1 << 63)}
            neg = {k: (t, (-co) & M64) for k, (t, co) in d.t.items() if co >= (1 << 63)}
            l = Lin(0, pos)
            r = Lin(-d.c, neg)
            return l.bv() == r.bv()
        if same64(a, b):
            return p[1:] in ('le', 'ge')
    x, y = bv(a, w), bv(b, w)
    if x.eq(y):
        return p == 'eq' or p[1:] in ('le', 'ge')
    if p == 'eq':
        return x == y
    if p[0] == 'u' and isinstance(b, int):
        if b == 0:
            if p == 'ult':
                return False
            if p == 'uge':
                return True
    return _CMP[p](x, y)


def ite(c, a, b, w):
    """merge two values of the same type; w is the width (64 for pointers), or None for aggregates"""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, tuple):
        return tuple(ite(c, x, y, None) for x, y in zip(a, b))
    if isinstance(a, Float) or isinstance(b, Float):
        n = w or 64
        return Float(ite(c, a.bits if isinstance(a, Float) else a, b.bits if isinstance(b, Float) else b, n))
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a if a == b else (c if a else Not(c))
        if isinstance(a, bool):
            return Or(c, b) if a else And(Not(c), b)
        if isinstance(b, bool):
            return Or(Not(c), a) if b else And(c, a)
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    if isinstance(a, (Lin, Mux)) or isinstance(b, (Lin, Mux)) or w == 64:
        return ite64(c, a, b)
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        if w is None:
            # unknown width: assume pointer/size
            return ite64(c, a, b)
        return z3.If(c, bvval(a, w), bvval(b, w))
    if w is None:
        w = (a if isinstance(a, z3.BitVecRef) else b).size()
    x, y = bv(a, w), bv(b, w)
    if x.eq(y):
        return a
    return z3.If(c, x, y)


def extract(v, hi, lo, w):
    """bits hi..lo of a w-bit value"""
    n = hi - lo + 1
    if n == w:
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return (v >> lo) & mask(n)
    if isinstance(v, Mux):
        v = v.bv()
    if isinstance(v, Lin):
        v = v.bv()
    if isinstance(v, z3.BoolRef):
        v = bv(v, w)
    # peel structure
    k = v.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        ch = v.children()
        pos = w
        for c in ch:
            s = c.size()
            pos -= s
            if lo >= pos and hi < pos + s:
                return extract(norm(c, s), hi - pos, lo - pos, s)
    elif k == z3.Z3_OP_ZERO_EXT:
        c = v.arg(0)
        s = c.size()
        if hi < s:
            return extract(norm(c, s), hi, lo, s)
        if lo >= s:
            return 0
    elif k == z3.Z3_OP_EXTRACT:
        h2, l2 = v.params()
        return extract(v.arg(0), hi + l2, lo + l2, v.arg(0).size())
    r = z3.Extract(hi, lo, v)
    return wrap(r, n)


def concat(parts):
    """parts: list of (value, width), most significant first"""
    if len(parts) == 1:
        return parts[0][0]
    if all(isinstance(p, int) for p, _ in parts):
        r = 0
        for p, w in parts:
            r = (r << w) | (p & mask(w))
        return r
    # merge adjacent extracts of one term
    out = []
    for p, w in parts:
        t = bv(p, w)
        if out:
            q = out[-1]
            if (q.decl().kind() == z3.Z3_OP_EXTRACT and t.decl().kind() == z3.Z3_OP_EXTRACT
                    and q.arg(0).eq(t.arg(0)) and q.params()[1] == t.params()[0] + 1):
                out[-1] = z3.Extract(q.params()[0], t.params()[1], t.arg(0))
                continue
        out.append(t)
    if len(out) == 1:
        t = out[0]
        if t.decl().kind() == z3.Z3_OP_EXTRACT and t.params()[1] == 0 and t.params()[0] == t.arg(0).size() - 1:
            t = t.arg(0)
        return wrap(t, t.size())
    # leading zeros -> zext
    t = z3.Concat(out)
    return wrap(t, t.size())


def zext(v, w0, w1):
    if w0 == 1:
        v = tobool(v)
        if isinstance(v, bool):
            return int(v)
        return wrap(z3.If(v, bvval(1, w1), bvval(0, w1)), w1)
    if isinstance(v, int):
        return v
    r = z3.ZeroExt(w1 - w0, bv(v, w0))
    return wrap(r, w1)


def sext(v, w0, w1):
    if w0 == 1:
        v = tobool(v)
        if isinstance(v, bool):
            return mask(w1) if v else 0
        return wrap(z3.If(v, bvval(mask(w1), w1), bvval(0, w1)), w1)
    if isinstance(v, int):
        return tosigned(v, w0) & mask(w1)
    r = z3.SignExt(w1 - w0, bv(v, w0))
    return wrap(r, w1)
