"""Abstract memory: objects holding layered symbolic contents."""
from terms import *


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class Violation(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg
        super().__init__(f"{kind}: {msg}")


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return type(o) is Ptr and o.obj == self.obj and o.off == self.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return f"&{self.obj}+{show(self.off) if is_t(self.off) else self.off}"


class FnV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __eq__(self, o):
        return type(o) is FnV and o.fn == self.fn

    def __hash__(self):
        return hash(self.fn)

    def __repr__(self):
        return f"fn#{self.fn}"


class Blob:
    """A value that is not one machine scalar: cells [(off,size,val)] or a snapshot of memory."""
    __slots__ = ("n", "cells", "src", "soff", "tag")

    def __init__(self, n, cells=None, src=None, soff=0, tag=None):
        self.n = n
        self.cells = cells
        self.src = src
        self.soff = soff
        self.tag = tag

    def __repr__(self):
        return f"Blob{self.n}{self.cells if self.cells is not None else '<snap>'}"

    def at(self, off):
        for o, s, v in self.cells:
            if o == off:
                return v
        return UNDEF


class Layer:
    __slots__ = ("kind", "off", "n", "val", "src", "soff", "below")

    def __init__(self, kind, off, n, val, src, soff, below):
        self.kind = kind
        self.off = off
        self.n = n
        self.val = val
        self.src = src
        self.soff = soff
        self.below = below


class Base:
    """Initial contents.  read(st, off, size) -> value"""
    zero = False

    def read(self, st, off, size):
        return UNDEF


class ZeroBase(Base):
    zero = True

    def read(self, st, off, size):
        return 0


UNDEF_BASE = Base()
ZERO_BASE = ZeroBase()


class Content:
    """cells: {const off: (size, val)} above `under` (Layer or Base)."""
    __slots__ = ("cells", "under", "owner")

    def __init__(self, cells, under, owner):
        self.cells = cells
        self.under = under
        self.owner = owner


class Obj:
    __slots__ = ("size", "kind", "c", "alive", "align", "info", "ro")

    def __init__(self, size, kind, c, align=8, info=None, ro=False):
        self.size = size
        self.kind = kind
        self.c = c
        self.alive = True
        self.align = align
        self.info = info
        self.ro = ro

    def clone(self):
        o = Obj(self.size, self.kind, self.c, self.align, self.info, self.ro)
        o.alive = self.alive
        return o


def join_pieces(pieces, size):
    """pieces: [(rel, n, val)] covering size bytes"""
    if len(pieces) == 1 and pieces[0][1] == size:
        return pieces[0][2]
    pieces.sort(key=lambda p: p[0])
    if any(v is UNDEF for _, _, v in pieces):
        return UNDEF
    if any(isinstance(v, (Ptr, FnV)) for _, _, v in pieces):
        raise Unsupported("pointer read in parts")
    segs = []
    for _, n, v in pieces:
        segs.extend(segs_of(v, n * 8))
    return cat_mk(segs)


def part(val, size, o, n):
    """bytes o..o+n of a size-byte value"""
    if o == 0 and n == size:
        return val
    if val is UNDEF:
        return UNDEF
    if isinstance(val, (Ptr, FnV)):
        raise Unsupported("partial pointer")
    return bslice(val, o * 8, n * 8)


def read(st, c, off, size):
    """value of size bytes at off; off may be symbolic"""
    f = st.facts
    if not is_t(off):
        cell = c.cells.get(off)
        if cell is not None and cell[0] == size:
            return cell[1]
    return _read(st, c, off, size)


def _read(st, c, off, size):
    f = st.facts
    while True:
        cells = c.cells
        if cells:
            if not is_t(off):
                cell = cells.get(off)
                if cell is not None and cell[0] == size:
                    return cell[1]
                hit = [(o, s, v) for o, (s, v) in cells.items() if o < off + size and o + s > off]
                if hit:
                    pieces = []
                    hit.sort(key=lambda p: p[0])
                    pos = off
                    below = Content({}, c.under, None)
                    for o, s, v in hit:
                        a = max(o, off)
                        b = min(o + s, off + size)
                        if a > pos:
                            pieces.append((pos - off, a - pos, _read(st, below, pos, a - pos)))
                        pieces.append((a - off, b - a, part(v, s, a - o, b - a)))
                        pos = b
                    if pos < off + size:
                        pieces.append((pos - off, off + size - pos, _read(st, below, pos, off + size - pos)))
                    return join_pieces(pieces, size)
            else:
                v = uniform(f, cells, off, size)
                if v is not None:
                    return v
                for o, (s, v) in cells.items():
                    r = overlap(f, off, size, o, s)
                    if r == "eq":
                        return v
                    if r == "in":
                        d = f.norm(lsub(off, o))
                        if is_t(d):
                            raise Unsupported("symbolic offset inside a cell")
                        return part(v, s, d, size)
                    if r == "part":
                        raise Unsupported("partial symbolic overlap")
        u = c.under
        if isinstance(u, Base):
            return u.read(st, off, size)
        if u.kind == "w":
            r = overlap(f, off, size, u.off, u.n)
            if r == "eq":
                return u.val
            if r == "in":
                d = f.norm(lsub(off, u.off))
                if is_t(d):
                    raise Unsupported("symbolic offset inside a cell")
                return part(u.val, u.n, d, size)
            if r == "part":
                raise Unsupported("partial symbolic overlap")
        else:
            # copy or fill of [off, off+n)
            inside = f.decide(ge0(f.norm(lsub(off, u.off))))
            end = f.norm(lsub(ladd(u.off, u.n), off))      # bytes from off to the end of the range
            fits = f.decide(ge0(lsub(end, size)))
            if inside == 1 and fits == 1:
                if u.kind == "f":
                    if u.val is UNDEF:
                        return UNDEF
                    b = u.val
                    if b == 0 and not is_t(b):
                        return 0
                    return cat_mk(segs_of(b, 8) * size)
                return read(st, u.src, f.norm(ladd(u.soff, lsub(off, u.off))), size)
            before = f.decide(ge0(f.norm(lsub(u.off, ladd(off, size)))))
            after = f.decide(ge0(lmul(end, -1)))
            if before != 1 and after != 1:
                if inside is None:
                    raise NeedSplit(f.norm(ge0(f.norm(lsub(off, u.off)))))
                if fits is None and inside == 1:
                    raise NeedSplit(f.norm(ge0(lsub(end, size))))
                if before is None and inside == 0:
                    raise NeedSplit(f.norm(ge0(f.norm(lsub(u.off, ladd(off, size))))))
                # both edges known but the access straddles one: read in halves when constant
                if not is_t(off) and not is_t(u.off) and not is_t(u.n):
                    pieces = []
                    cut = [off, off + size]
                    for e in (u.off, u.off + u.n):
                        if off < e < off + size:
                            cut.append(e)
                    cut.sort()
                    for a, b in zip(cut, cut[1:]):
                        pieces.append((a - off, b - a, _read(st, Content({}, u, None), a, b - a)))
                    return join_pieces(pieces, size)
                raise Unsupported("copy range straddled")
        c = u.below


def uniform(f, cells, off, size):
    """the one constant every cell an access at off can meet holds, if they do"""
    if len(cells) < 8:
        return None
    c, ts = lin_of(off)
    if any(k % size for _, k in ts):
        return None
    lo, hi = f.rng(off)
    if (hi - lo) // size >= 1024 or lo < 0:
        return None
    lo += (c - lo) % size
    val = None
    for o in range(lo, hi + 1, size):
        cell = cells.get(o)
        if cell is None or cell[0] != size or is_t(cell[1]) or type(cell[1]) is not int:
            return None
        if val is None:
            val = cell[1]
        elif val != cell[1]:
            return None
    return val


def overlap(f, off, size, o, s):
    """'eq' same cell, 'in' inside, None disjoint, 'part' otherwise; may raise NeedSplit"""
    d = f.norm(lsub(off, o))
    if not is_t(d):
        if d >= s or d <= -size:
            return None
        if d == 0 and size == s:
            return "eq"
        if d >= 0 and d + size <= s:
            return "in"
        return "part"
    # disjointness by congruence: d = g*k + c
    if size == s:
        e = eq0(d)
        r = f.decide(e)
        if r == 1:
            return "eq"
        lo = f.decide(ge0(lsub(d, s)))
        if lo == 1:
            return None
        hi = f.decide(ge0(lsub(lmul(d, -1), size)))
        if hi == 1:
            return None
        if r is None:
            raise NeedSplit(f.norm(e))
        if lo is None:
            raise NeedSplit(f.norm(ge0(lsub(d, s))))
        if hi is None:
            raise NeedSplit(f.norm(ge0(lsub(lmul(d, -1), size))))
        return "part"
    lo = f.decide(ge0(lsub(d, s)))
    if lo == 1:
        return None
    hi = f.decide(ge0(lsub(lmul(d, -1), size)))
    if hi == 1:
        return None
    if lo is None:
        raise NeedSplit(f.norm(ge0(lsub(d, s))))
    if hi is None:
        raise NeedSplit(f.norm(ge0(lsub(lmul(d, -1), size))))
    d2 = f.norm(d)
    ins = f.decide(ge0(d2)) == 1 and f.decide(ge0(lsub(s - size, d2))) == 1
    return "in" if ins else "part"


def write(st, obj, off, size, val):
    """obj: Obj (already owned by st)"""
    c = obj.c
    if not is_t(off):
        if c.owner is not st.token:
            c = Content(dict(c.cells), c.under, st.token)
            obj.c = c
        cells = c.cells
        old = cells.get(off)
        if old is not None and old[0] == size:
            cells[off] = (size, val)
            return
        for o in [o for o, (s, v) in cells.items() if o < off + size and o + s > off]:
            s, v = cells.pop(o)
            if o < off:
                cells[o] = (off - o, part_or_undef(v, s, 0, off - o))
            if o + s > off + size:
                cells[off + size] = (o + s - off - size, part_or_undef(v, s, off + size - o, o + s - off - size))
        cells[off] = (size, val)
    else:
        below = Content(c.cells, c.under, None)
        obj.c = Content({}, Layer("w", off, size, val, None, None, below), st.token)


def part_or_undef(v, s, o, n):
    if isinstance(v, (Ptr, FnV)):
        return UNDEF
    return part(v, s, o, n)


def freeze(st, obj):
    """snapshot of the contents"""
    c = obj.c
    obj.c = Content(c.cells, c.under, None)
    return Content(c.cells, c.under, None)


def simple(c):
    """only constant-offset cells over an uninitialised/zero base"""
    return isinstance(c.under, Base) and type(c.under) in (Base, ZeroBase)


def copy_range(st, dst, doff, n, src, soff):
    """memmove n bytes from snapshot src to object dst"""
    if not is_t(n) and n == 0:
        return
    if not is_t(n) and not is_t(soff) and not is_t(doff) and simple(src) and (n <= 4096):
        cells = [(o, s, v) for o, (s, v) in src.cells.items() if o < soff + n and o + s > soff]
        if dst.c.owner is not st.token:
            dst.c = Content(dict(dst.c.cells), dst.c.under, st.token)
        base = 0 if isinstance(src.under, ZeroBase) else UNDEF
        # clear the destination range
        dc = dst.c.cells
        for o in [o for o, (s, v) in dc.items() if o < doff + n and o + s > doff]:
            s, v = dc.pop(o)
            if o < doff:
                dc[o] = (doff - o, part_or_undef(v, s, 0, doff - o))
            if o + s > doff + n:
                dc[doff + n] = (o + s - doff - n, part_or_undef(v, s, doff + n - o, o + s - doff - n))
        need_fill = not (type(dst.c.under) is Base and base is UNDEF) and not (type(dst.c.under) is ZeroBase and base == 0)
        cov = sum(min(o + s, soff + n) - max(o, soff) for o, s, v in cells)
        if need_fill and cov < n:
            below = Content(dst.c.cells, dst.c.under, None)
            dst.c = Content({}, Layer("f", doff, n, base, None, None, below), st.token)
            dc = dst.c.cells
        for o, s, v in cells:
            a = max(o, soff)
            b = min(o + s, soff + n)
            dc[doff + a - soff] = (b - a, part_or_undef(v, s, a - o, b - a) if (a, b) != (o, o + s) else v)
        return
    below = Content(dst.c.cells, dst.c.under, None)
    dst.c = Content({}, Layer("c", doff, n, None, src, soff, below), st.token)


def fill(st, dst, doff, n, byte):
    if not is_t(n) and n == 0:
        return
    below = Content(dst.c.cells, dst.c.under, None)
    dst.c = Content({}, Layer("f", doff, n, byte, None, None, below), st.token)
