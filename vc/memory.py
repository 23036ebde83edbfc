"""Object contents as layered functions from offset to value.

A Content is immutable: constant-offset cells on top of a lower layer. The lower layers are
  Base     symbolic array / constant bytes / zero
  WriteL   one write at a symbolic offset
  CopyL    memmove of a (possibly symbolic) range from another content
  FillL    memset of a range
  MuxL     control-flow merge
Reads are resolved through the layers exactly (no approximation); offsets are 64-bit values."""
import math
import z3
from terms import *
from terms import _add


class Unsupported(Exception):
    pass


class Base:
    """kind: 'arr' symbolic content (z3 array, granularity decided at the first read), 'bytes' constant"""
    _n = 0

    def __init__(self, kind, data=None, gran=0, name="m"):
        self.kind, self.data, self.gran = kind, data, gran
        Base._n += 1
        self.name = "%s!%d" % (name, Base._n)
        self.arr = None
        self.cache = {}
        self.keep = []

    def array(self):
        if self.arr is None:
            g = self.gran or 1
            self.arr = z3.Array(self.name, z3.BitVecSort(64), z3.BitVecSort(8 * g))
        return self.arr

    def select(self, off):
        """one granule at a granule-aligned offset"""
        k = off if isinstance(off, int) else None
        if k is not None and k in self.cache:
            return self.cache[k]
        r = z3.Select(self.array(), bv(off, 64))
        if k is not None:
            self.cache[k] = r
        return r


def residue(off, g):
    """off mod g if syntactically known"""
    if g == 1:
        return 0
    if isinstance(off, int):
        return off % g
    if isinstance(off, Lin):
        for _, co in off.t.values():
            if co % g:
                return None
        # 2^64 multiples: g power of two or the combination does not wrap (offsets are < 2^39 in bounds)
        return (off.c if off.c < (1 << 63) else off.c - (1 << 64)) % g
    return None


def coefgcd(off):
    g = 0
    for _, co in off.t.values():
        s = co if co < (1 << 63) else (1 << 64) - co
        g = math.gcd(g, s)
    return g


def relate(o1, n1, o2, n2):
    """'eq' same bytes, 'disj', ('off', d) with d = o1-o2 const, 'eqordisj', or None unknown"""
    d = _add(o1, o2, -1) if not isinstance(o1, z3.ExprRef) and not isinstance(o2, z3.ExprRef) else None
    if d is None:
        return None
    if isinstance(d, int):
        s = d if d < (1 << 63) else d - (1 << 64)
        if s == 0 and n1 == n2:
            return 'eq'
        if s >= n2 or s + n1 <= 0:
            return 'disj'
        return ('off', s)
    g = coefgcd(d)
    if g > 1:
        r = (d.c if d.c < (1 << 63) else d.c - (1 << 64)) % g
        # o1 = o2 + r + g*z
        if r == 0 and n1 == n2 and n1 <= g:
            return 'eqordisj'
        if r >= n2 and r + n1 <= g:
            return 'disj'
    return None


class Layer:
    pass


class WriteL(Layer):
    def __init__(self, prev, off, n, val):
        self.prev, self.off, self.n, self.val = prev, off, n, val


class CopyL(Layer):
    def __init__(self, prev, doff, ln, src, soff):
        self.prev, self.doff, self.ln, self.src, self.soff = prev, doff, ln, src, soff


class FillL(Layer):
    def __init__(self, prev, doff, ln, val):
        self.prev, self.doff, self.ln, self.val = prev, doff, ln, val


class MuxL(Layer):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class FnL(Layer):
    """content given by a python function read(off, n, below) -> value; used for loop summaries"""
    def __init__(self, prev, fn):
        self.prev, self.fn = prev, fn


class Content:
    __slots__ = ("cells", "low", "memo")

    def __init__(self, cells, low):
        self.cells, self.low = cells, low
        self.memo = {}


def new_content(base):
    return Content({}, base)


def _ovl(cells, off, n):
    """cells overlapping [off, off+n)"""
    r = []
    if len(cells) <= 40:
        for o, (m, v) in cells.items():
            if o < off + n and off < o + m:
                r.append((o, m, v))
    else:
        for o in range(off - 15, off + n):
            c = cells.get(o)
            if c is not None and o + c[0] > off:
                r.append((o, c[0], c[1]))
        for o, (m, v) in cells.items():
            if m > 16 and o < off + n and off < o + m and (o, m, v) not in r:
                r.append((o, m, v))
    return r


def write(c, off, n, val):
    if isinstance(off, int):
        cells = dict(c.cells)
        for o, m, v in _ovl(cells, off, n):
            del cells[o]
            if o == off and m == n:
                continue
            for j in range(m):
                if not (off <= o + j < off + n):
                    cells[o + j] = (1, extract(v if not isinstance(v, Float) else v.bits, 8 * j + 7, 8 * j, 8 * m))
        cells[off] = (n, val)
        return Content(cells, c.low)
    if c.cells and len(c.cells) <= 16 and not isinstance(val, Float):
        # small structured object: update every cell the write may hit, keep the rest below
        cells = {}
        for o, (m, v) in c.cells.items():
            rel = relate(off, n, o, m)
            if rel == 'disj':
                cells[o] = (m, v)
            elif rel == 'eqordisj' and not isinstance(v, Float):
                cells[o] = (m, ite(icmp('eq', off, o, 64), val, v, 8 * m))
            else:
                cells = None
                break
        if cells is not None:
            return Content(cells, WriteL(Content({}, c.low), off, n, val))
    return Content({}, WriteL(c, off, n, val))


def key(off):
    if isinstance(off, int):
        return off
    if isinstance(off, Lin):
        return (off.c, tuple(sorted((k, co) for k, (t, co) in off.t.items())))
    return ('z', off.get_id())


def read(c, off, n):
    """n-byte little-endian value at off"""
    if isinstance(c, Base):
        return read_base(c, off, n)
    if isinstance(c, Layer):
        return read_layer(c, off, n)
    if isinstance(off, int):
        e = c.cells.get(off)
        if e is not None and e[0] == n:
            return e[1]
        ov = _ovl(c.cells, off, n)
        if not ov:
            return read(c.low, off, n)
        if len(ov) == 1 and ov[0][0] <= off and ov[0][0] + ov[0][1] >= off + n:
            o, m, v = ov[0]
            if isinstance(v, Float):
                v = v.bits
            return extract(v, 8 * (off - o + n) - 1, 8 * (off - o), 8 * m)
        if n == 1:
            raise AssertionError
        return _bytes(c, off, n)
    k = (key(off), n)
    m = c.memo.get(k)
    if m is not None:
        return m[0]
    r = None
    items = sorted(c.cells.items())
    if n == 1 and len(items) >= 64 and all(m == 1 and not isinstance(v, Float) for _, (m, v) in items) and items[0][0] == 0 and items[-1][0] == len(items) - 1:
        # dense byte table written cell by cell
        r = _tree([v for _, (m, v) in items], off, 1, 8)
        r2 = read(c.low, off, n) if True else None
        r = ite(icmp('ult', off, len(items), 64), r, r2, 8)
    else:
        if n > 1:
            for o, (m, v) in items:
                rel = relate(off, n, o, m)
                if rel is None or isinstance(rel, tuple):
                    r = _bytes(c, off, n)
                    break
        if r is None:
            r = read(c.low, off, n)
            for o, (m, v) in items:
                rel = relate(off, n, o, m)
                if rel == 'disj':
                    continue
                if isinstance(v, Float):
                    v = v.bits
                if rel == 'eq':
                    r = v
                elif m == n:
                    r = ite(icmp('eq', off, o, 64), v, r, 8 * n)
                else:
                    # n == 1 inside a wider cell
                    for j in range(m):
                        r = ite(icmp('eq', off, o + j, 64), extract(v, 8 * j + 7, 8 * j, 8 * m), r, 8)
    c.memo[k] = (r, off)
    return r


def _bytes(c, off, n):
    parts = []
    for j in reversed(range(n)):
        parts.append((read(c, _add(off, j) if not isinstance(off, int) else off + j, 1), 8))
    return concat(parts)


def _tree(vals, idx, lo, w):
    """balanced selection vals[idx]; idx 64-bit value < len(vals) (anything otherwise)"""
    n = len(vals)
    bits = max(1, (n - 1).bit_length())
    t = bv(idx, 64)

    def go(base, b):
        if b < 0:
            return vals[base] if base < n else vals[n - 1]
        lo_ = go(base, b - 1)
        if base + (1 << b) >= n:
            return lo_
        hi_ = go(base + (1 << b), b - 1)
        if lo_ is hi_:
            return lo_
        return ite(z3.Extract(b, b, t) == bvval(1, 1), hi_, lo_, w)
    return go(0, bits - 1)


def read_base(b, off, n):
    if b.kind == 'bytes':
        d = b.data
        if isinstance(off, int):
            if 0 <= off and off + n <= len(d):
                return int.from_bytes(d[off:off + n], 'little')
            return 0
        k = (key(off), n)
        m = b.cache.get(k)
        if m is not None:
            return m[0]
        step = 1
        if n > 1 and residue(off, n) == 0:
            step = n
        if step == n and n > 1:
            vals = [int.from_bytes(d[i:i + n], 'little') for i in range(0, len(d) - n + 1, n)] or [0]
            r = _tree(vals, binop('lshr', off, n.bit_length() - 1, 64) if n & (n - 1) == 0 else binop('udiv', off, n, 64), 0, 8 * n)
            if isinstance(r, int) is False and not isinstance(r, (Lin, Mux)):
                r = wrap(r, 8 * n)
        elif n > 1:
            r = _bytes(b, off, n)
        else:
            r = _tree(list(d) or [0], off, 0, 8)
        if isinstance(r, z3.ExprRef):
            r = wrap(r, 8 * n)
        b.cache[k] = (r, off)
        return r
    if b.kind == 'zero':
        return 0
    g = b.gran
    if g == 0:
        g = n if n in (1, 2, 4, 8) and residue(off, n) == 0 else 1
        b.gran = g
    r = residue(off, g)
    if r is None:
        # unaligned or unknown residue
        if g == 1:
            r = 0
        else:
            if n == 1:
                word = b.select(binop('and', off, M64 ^ (g - 1), 64))
                sh = z3.Extract(8 * g - 1, 0, z3.ZeroExt(max(0, 8 * g - 64), bv(binop('and', off, g - 1, 64), 64)) if 8 * g > 64 else bv(binop('and', off, g - 1, 64), 64))
                return wrap(z3.Extract(7, 0, z3.LShR(word, sh * 8)), 8)
            return _bytes(b, off, n)
    if g == 1:
        if n == 1:
            return b.select(off)
        if isinstance(off, int):
            return concat([(b.select(off + j), 8) for j in reversed(range(n))])
        return concat([(b.select(_add(off, j)), 8) for j in reversed(range(n))])
    if r == 0 and n == g:
        return wrap(b.select(off), 8 * n)
    if r + n <= g:
        w = b.select(_add(off, r, -1))
        return extract(w, 8 * (r + n) - 1, 8 * r, 8 * g)
    if r == 0 and n % g == 0:
        return concat([(b.select(_add(off, j)), 8 * g) for j in reversed(range(0, n, g))])
    return _bytes(b, off, n)


def inrange(off, n, doff, ln):
    """('in'|'out'|BoolRef|None) : [off,off+n) relative to [doff,doff+ln)"""
    d = _add(off, doff, -1)
    if isinstance(d, int) and isinstance(ln, int):
        s = d if d < (1 << 63) else d - (1 << 64)
        if 0 <= s and s + n <= ln:
            return 'in'
        if s >= ln or s + n <= 0:
            return 'out'
        return None
    if n == 1:
        return icmp('ult', d, ln, 64)
    if residue(d, n) == 0 and residue(ln, n) == 0 and n & (n - 1) == 0:
        return icmp('ult', d, ln, 64)
    return None


def read_layer(l, off, n):
    memo = l.__dict__.setdefault('memo', {})
    k = (key(off), n)
    m = memo.get(k)
    if m is not None:
        return m[0]
    r = _read_layer(l, off, n)
    memo[k] = (r, off)
    return r


def _read_layer(l, off, n):
    if isinstance(l, MuxL):
        a = read(l.a, off, n)
        b = read(l.b, off, n)
        return ite(l.c, a, b, 8 * n)
    if isinstance(l, WriteL):
        rel = relate(off, n, l.off, l.n)
        if rel == 'eq':
            return l.val
        if rel == 'disj':
            return read(l.prev, off, n)
        v = l.val.bits if isinstance(l.val, Float) else l.val
        if rel == 'eqordisj':
            return ite(icmp('eq', off, l.off, 64), v, read(l.prev, off, n), 8 * n)
        if isinstance(rel, tuple):
            d = rel[1]
            if d >= 0 and d + n <= l.n:
                return extract(v, 8 * (d + n) - 1, 8 * d, 8 * l.n)
        if n > 1:
            return _bytes(l, off, n)
        r = read(l.prev, off, 1)
        for j in range(l.n):
            r = ite(icmp('eq', off, _add(l.off, j), 64), extract(v, 8 * j + 7, 8 * j, 8 * l.n), r, 8)
        return r
    if isinstance(l, CopyL):
        c = inrange(off, n, l.doff, l.ln)
        if isinstance(c, str) and c == 'in':
            return read(l.src, _add(l.soff, _add(off, l.doff, -1)), n)
        if isinstance(c, str) and c == 'out':
            return read(l.prev, off, n)
        if c is None:
            return _bytes(l, off, n)
        return ite(c, read(l.src, _add(l.soff, _add(off, l.doff, -1)), n), read(l.prev, off, n), 8 * n)
    if isinstance(l, FillL):
        c = inrange(off, n, l.doff, l.ln)
        if c is None:
            return _bytes(l, off, n)
        v = concat([(l.val, 8)] * n) if not isinstance(l.val, int) else int.from_bytes(bytes([l.val]) * n, 'little')
        if isinstance(c, str) and c == 'in':
            return v
        if isinstance(c, str) and c == 'out':
            return read(l.prev, off, n)
        return ite(c, v, read(l.prev, off, n), 8 * n)
    if isinstance(l, FnL):
        r = l.fn(off, n, l.prev)
        if r is NotImplemented:
            return _bytes(l, off, n)
        return r
    raise AssertionError


def copy(dst, doff, src, soff, ln):
    """memmove semantics (src is an immutable snapshot)"""
    if isinstance(ln, int):
        if ln == 0:
            return dst
        if isinstance(doff, int) and isinstance(soff, int) and ln <= 4096:
            cells = dict(dst.cells)
            tmp = Content(cells, dst.low)
            # cover [soff, soff+ln) by src cells; gaps by 8/4/2/1 byte reads
            p = soff
            end = soff + ln
            out = []
            small = isinstance(src.low, Base) or isinstance(src.low, Layer)
            while p < end:
                e = src.cells.get(p)
                if e is not None and p + e[0] <= end:
                    out.append((p, e[0], e[1]))
                    p += e[0]
                    continue
                # gap or partial: find next cell start
                nxt = end
                for o in src.cells:
                    if p < o < nxt:
                        nxt = o
                ov = _ovl(src.cells, p, 1)
                if ov:
                    out.append((p, 1, read(src, p, 1)))
                    p += 1
                    continue
                # pure gap [p,nxt): represent as CopyL if large
                out.append((p, nxt - p, None))
                p = nxt
            res = Content(cells, dst.low)
            for o, m, v in out:
                d = doff + (o - soff)
                if v is None:
                    if m <= 8 and m in (1, 2, 4, 8):
                        res = write(res, d, m, read(src, o, m))
                    else:
                        # split into chunks, keeping granularity
                        q = 0
                        g = 8
                        b = src.low
                        if isinstance(b, Base) and b.kind == 'arr' and b.gran:
                            g = b.gran
                        if m <= 256 or isinstance(src.low, Base) and src.low.kind != 'arr':
                            while q < m:
                                s = g
                                while s > m - q or (o + q) % s:
                                    s //= 2
                                res = write(res, d + q, s, read(src, o + q, s))
                                q += s
                        else:
                            # drop cells in range, then layer
                            for oo, mm, vv in _ovl(res.cells, d, m):
                                pass
                            res = Content({}, CopyL(res, d, m, src, o))
                else:
                    res = write(res, d, m, v)
            return res
        if ln <= 64 and ln in (1, 2, 4, 8):
            return write(dst, doff, ln, read(src, soff, ln))
        if ln <= 256 and not isinstance(doff, int):
            # copy a small block element-wise, by 8-byte words where possible
            res = dst
            q = 0
            while q < ln:
                s = 8
                while s > ln - q:
                    s //= 2
                res = write(res, _add(doff, q), s, read(src, _add(soff, q), s))
                q += s
            return res
    return Content({}, CopyL(dst, doff, ln, src, soff))


def fill(dst, doff, ln, val):
    if isinstance(ln, int):
        if ln == 0:
            return dst
        if isinstance(doff, int) and ln <= 512:
            res = dst
            q = 0
            while q < ln:
                s = 8
                while s > ln - q or (doff + q) % s:
                    s //= 2
                v = int.from_bytes(bytes([val]) * s, 'little') if isinstance(val, int) else concat([(val, 8)] * s)
                res = write(res, doff + q, s, v)
                q += s
            return res
    if dst.cells and len(dst.cells) <= 16 and not any(isinstance(v, Float) for _, v in dst.cells.values()):
        cells = {}
        for o, (m, v) in dst.cells.items():
            parts = []
            for j in reversed(range(m)):
                parts.append((ite(icmp('ult', _add(o + j, doff, -1), ln, 64), val, extract(v, 8 * j + 7, 8 * j, 8 * m), 8), 8))
            cells[o] = (m, concat(parts))
        return Content(cells, FillL(Content({}, dst.low), doff, ln, val))
    return Content({}, FillL(dst, doff, ln, val))


def merge(c, a, b):
    """ite(c, a, b) for contents"""
    if a is b:
        return a
    if a.low is not b.low and a.cells and len(a.cells) == len(b.cells) and len(a.cells) <= 64 and \
            all(o in b.cells and b.cells[o][0] == n for o, (n, v) in a.cells.items()):
        return Content({o: (n, v if v is b.cells[o][1] else ite(c, v, b.cells[o][1], 8 * n)) for o, (n, v) in a.cells.items()},
                       MuxL(c, Content({}, a.low), Content({}, b.low)))
    if a.low is b.low:
        ok = True
        cells = {}
        for o, (n, v) in a.cells.items():
            e = b.cells.get(o)
            if e is None:
                if _ovl(b.cells, o, n):
                    ok = False
                    break
                w = read(b.low, o, n)
                cells[o] = (n, v if v is w else ite(c, v, w, 8 * n))
            elif e[0] != n:
                ok = False
                break
            else:
                cells[o] = (n, v if v is e[1] else ite(c, v, e[1], 8 * n))
        if ok:
            for o, (n, v) in b.cells.items():
                if o in a.cells:
                    continue
                if _ovl(a.cells, o, n):
                    ok = False
                    break
                cells[o] = (n, ite(c, read(a.low, o, n), v, 8 * n))
        if ok:
            return Content(cells, a.low)
        # differing cell shapes: rewrite both bytewise where they differ
        cells = {}
        offs = set()
        for o, (n, v) in list(a.cells.items()) + list(b.cells.items()):
            offs.update(range(o, o + n))
        if len(offs) <= 600:
            done = set()
            for o, (n, v) in a.cells.items():
                e = b.cells.get(o)
                if e and e[0] == n:
                    cells[o] = (n, v if v is e[1] else ite(c, v, e[1], 8 * n))
                    done.update(range(o, o + n))
            for o in sorted(offs - done):
                cells[o] = (1, ite(c, read(a, o, 1), read(b, o, 1), 8))
            return Content(cells, a.low)
    return Content({}, MuxL(c, a, b))
