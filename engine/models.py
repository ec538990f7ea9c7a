"""Models of intrinsics, the allocator, and the few std routines whose loops are data dependent."""
import terms as tm
from terms import *
import mem
from mem import *
from facts import wneg


def explore(I, st, fn, limit=400, on_bad=None):
    """evaluate fn(state) on a fork of st, partitioning on undecided facts; yields (state, result)"""
    work = [st.fork()]
    out = []
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            raise Unsupported("partition limit in a summary")
        bk = s.fork()
        try:
            out.append((s, fn(s)))
        except Infeasible:
            pass
        except (NeedSplit, Violation, Unsupported) as e:
            if type(e) is NeedSplit:
                c = bk.facts.norm(e.cond)
                if not is_t(c):
                    bk.facts._dirty()
                    work.append(bk)
                    continue
            else:
                try:
                    c = s.refine()
                except Infeasible:
                    continue
                if c is None:
                    if on_bad is None:
                        raise
                    on_bad(s, e)
                    continue
            for v in (0, 1):
                b2 = bk.fork()
                try:
                    b2.facts.assume(c, v)
                    b2.trace = b2.trace + ((c, v),)
                    work.append(b2)
                except Infeasible:
                    pass
    return out


def w_of(c, i=0):
    t = c.args[i][1]
    return c.I.p.types[t]["size"] * 8


# ------------------------------------------------------------------ intrinsics
def i_ctpop(c):
    x = c.a(0)
    c.I.chk(x)
    f = c.st.facts
    return f.norm(f._pop(f.norm(x)))


def i_cttz(c):
    x = c.a(0)
    c.I.chk(x)
    f = c.st.facts
    x = f.norm(x)
    if f.need(eq(x, 0)):
        if "nonzero" in c.f["path"]:
            raise Violation("zero", "trailing-zero count of zero declared non-zero")
        return w_of(c)
    if not is_t(x):
        return (x & -x).bit_length() - 1
    return f.norm(tz(x))


def i_ctlz(c):
    x = c.a(0)
    f = c.st.facts
    x = f.norm(x)
    w = w_of(c)
    if not is_t(x):
        return w - x.bit_length()
    lo, hi = f.rng(x)
    if lo.bit_length() == hi.bit_length():
        return w - hi.bit_length()
    return mk("lz", x, w, hi=w)


def elem_size(c, i=0):
    t = c.I.p.types[c.args[i][1]]["to"]
    return c.I.p.size(t)


def i_copy(c):
    es = elem_size(c)
    c.I.memcopy(c.st, c.a(1), c.a(0), c.I.mulsz(c.st, c.a(2), es), True)
    return Blob(0, [])


def i_write_bytes(c):
    es = elem_size(c)
    st = c.st
    n = st.facts.norm(c.I.mulsz(st, c.a(2), es))
    c.I.bulk(st, n, "fills")
    p = c.I.rs(st, c.a(0), n)
    o = c.I.access(st, p, n, True)
    if o is not None:
        mem.fill(st, o, st.facts.norm(p.off), n, c.a(1))
    return Blob(0, [])


def i_arith_offset(c):
    return c.I.binop(c.st, "Offset", c.a(0), c.a(1), c.args[0][1], c.args[1][1])


def i_ptr_diff(c):
    es = elem_size(c)
    a, b = c.a(0), c.a(1)
    if type(a) is not Ptr or type(b) is not Ptr:
        if not is_t(a) and not is_t(b) and isinstance(a, int) and isinstance(b, int):
            return (a - b) // es
        raise Unsupported("pointer difference")
    if a.obj != b.obj:
        raise Unsupported("difference of pointers into different objects")
    d = c.st.facts.norm(lsub(a.off, b.off))
    return c.I.binop(c.st, "Div", d, es, USIZE(c.I), None)


def USIZE(I):
    r = I.ctx.get("usize")
    if r is None:
        r = next(i for i, t in enumerate(I.p.types) if t["name"] == "usize")
        I.ctx["usize"] = r
    return r


def i_unit(c):
    return Blob(0, [])


def i_black_box(c):
    return c.a(0)


def i_size_of_val(c):
    t = c.I.p.types[c.args[0][1]]["to"]
    n = c.I.p.size(t)
    if n is None:
        ty = c.I.p.types[t]
        if ty["kind"] == "slice":
            return c.I.mulsz(c.st, c.a(0).at(8), c.I.p.size(ty["elem"]))
        raise Unsupported("size_of_val")
    return n


def i_align_of_val(c):
    t = c.I.p.types[c.args[0][1]]["to"]
    ty = c.I.p.types[t]
    if ty["kind"] == "slice":
        return c.I.p.types[ty["elem"]]["align"]
    return ty["align"]


def i_loc(c):
    return 16


def lanes(c, i):
    """64-bit words of a SIMD value"""
    v = c.a(i)
    n = c.I.p.size(c.args[i][1])
    if v.cells is not None:
        src = Content({o: (s, x) for o, s, x in v.cells}, mem.UNDEF_BASE, None)
        off = 0
    else:
        src, off = v.src, v.soff
    return [mem.read(c.st, src, ladd(off, k), 8) for k in range(0, n, 8)]


def simd_bit(op):
    def f(c):
        a, b = lanes(c, 0), lanes(c, 1)
        for x in a + b:
            c.I.chk(x)
        fs = c.st.facts
        return Blob(8 * len(a), [(8 * k, 8, fs.norm(fs.bitop(op, x, y, 64))) for k, (x, y) in enumerate(zip(a, b))])
    return f


def i_simd_eq(c):
    a, b = lanes(c, 0), lanes(c, 1)
    n = 8 * len(a)
    return Blob(n, [(8 * k, 8, uf("lane_eq", (x, y))) for k, (x, y) in enumerate(zip(a, b))], tag=("eq", a, b))


def i_simd_lt(c):
    # movemask(x) compares lanes with zero: keeps the tag of an equality mask
    for i in (0, 1):
        v = c.a(i)
        if type(v) is Blob and v.cells and all(is_t(x) and x.op == "uf" and x.a[0] == "lane_eq" for _, _, x in v.cells):
            return v
    raise Unsupported("simd_lt")


def mask_words(v):
    out = []
    for _, _, x in v.cells:
        if not (is_t(x) and x.op == "uf" and x.a[0] == "lane_eq"):
            raise Unsupported("movemask of an unknown vector")
        out.append(eq(x.a[1][0], x.a[1][1]))
    return out


def movemask(c):
    v = c.a(0)
    if type(v) is not Blob or v.cells is None:
        raise Unsupported("movemask")
    ws = mask_words(v)
    f = c.st.facts
    alleq = f.need(band([f.norm(w) for w in ws]))
    rt = c.dst[1]
    n = len(v.cells) * 8
    full = (1 << n) - 1
    # the caller's lane type fixes how many mask bits there are; byte lanes are assumed (pmovmskb)
    if alleq:
        return full
    r = uf("movemask", tuple(x for _, _, x in v.cells), hi=full - 1)
    return r


# ------------------------------------------------------------------ allocator
def x_alloc(c):
    st = c.st
    size, align = c.a(0), c.a(1)
    c.I.chk(size)
    size = st.facts.norm(size)
    if c.I.o["alloc_null"]:
        b = sym(f"alloc_fails#{st.next_obj}", 1)
        if st.facts.need(b):
            st.ev.append(("allocnull",))
            return 0
    if not is_t(size) and size == 0:
        raise Violation("alloc", "allocation of zero bytes")
    oid = st.new_obj(size, "heap", mem.ZERO_BASE if "zeroed" in c.f["path"] else mem.UNDEF_BASE, align)
    st.mem[oid].info = ("alloc", oid)
    st.ev.append(("alloc", oid, size, align))
    return Ptr(oid, 0)


def heapobj(c, p, what):
    st = c.st
    if type(p) is not Ptr:
        raise Violation("bad-free", f"{what} of an invalid pointer {p!r}")
    o = st.mem.get(p.obj)
    if o is None or o.kind not in ("heap", "node", "vec", "array"):
        raise Violation("bad-free", f"{what} of memory not from the allocator ({c.I.oname(st, p.obj)})")
    if not o.alive:
        raise Violation("double-free", f"{what} of memory already freed ({c.I.oname(st, p.obj)})")
    if st.facts.norm(p.off) != 0:
        raise Violation("bad-free", f"{what} of an interior pointer")
    return o


def chk_layout(c, o, size, align, what):
    st = c.st
    if o.size is not None:
        if o.info and isinstance(o.info, tuple) and o.info[0] == "lazy-size":
            pass
        e = st.facts.need(eq(st.facts.norm(size), st.facts.norm(o.size)))
        if not e:
            raise Violation("layout", f"{what} with size {show(size)}, allocated with {show(o.size)}")
    if o.align is not None and align != o.align:
        raise Violation("layout", f"{what} with alignment {show(align)}, allocated with {show(o.align)}")


def x_dealloc(c):
    p, size, align = c.a(0), c.a(1), c.a(2)
    o = heapobj(c, p, "dealloc")
    chk_layout(c, o, size, align, "dealloc")
    o.alive = False
    c.st.ev.append(("dealloc", p.obj))
    return Blob(0, [])


def x_realloc(c):
    st = c.st
    p, old, align, new = c.a(0), c.a(1), c.a(2), c.a(3)
    o = heapobj(c, p, "realloc")
    chk_layout(c, o, old, align, "realloc")
    if c.I.o["alloc_null"]:
        b = sym(f"realloc_fails#{st.next_obj}", 1)
        if st.facts.need(b):
            st.ev.append(("allocnull",))
            return 0
    new = st.facts.norm(new)
    d = st.facts.norm(lsub(new, old))
    if is_t(d):
        # growing at least by half or shrinking at least by a third is paid for by the operations in between
        f = st.facts
        big, small = (new, old) if f.decide(ult(new, old)) == 0 else (old, new)
        ok = f.decide(ult(lmul(big, 2), lmul(small, 3))) == 0
        d = "a varying number of"
    else:
        ok = False
    if not ok:
        c.I.bulk(st, new, f"reallocates to hold {d} more or fewer bytes:")
    snap = st.snap(p.obj)
    oid = st.new_obj(new, o.kind, mem.UNDEF_BASE, align, o.info)
    n = st.mem[oid]
    n.c = Content(dict(snap.cells), snap.under, st.token)
    st.mem[p.obj].alive = False
    st.ev.append(("realloc", p.obj, oid, new))
    return Ptr(oid, 0)


# ------------------------------------------------------------------ Vec growth
def nested(I, t, names):
    off = 0
    for n in names:
        o, t = I.p.field_by_name(t, n)
        off += o
    return off, t


def unwrap_off(I, t):
    """offset of the only non-ZST leaf of a newtype"""
    lv = I.p.leaves(t)
    return lv[0][0]


def m_grow_one(c):
    I, st = c.I, c.st
    self_t = I.p.types[c.args[0][1]]["to"]
    et = c.tyarg(0)
    es = I.p.size(et)
    p = c.a(0)
    co, ct = nested(I, self_t, ["inner", "cap"])
    po, pt = nested(I, self_t, ["inner", "ptr"])
    if es == 0:
        return NotImplemented
    capp = I.padd(st, p, co + unwrap_off(I, ct))
    ptrp = I.padd(st, p, po + unwrap_off(I, pt))
    cap = I.rd(st, capp, 8)
    ptr = I.rd(st, ptrp, 8)
    return vec_regrow(c, capp, ptrp, cap, ptr, es, I.p.types[et]["align"], ladd(cap, 1))


def vec_regrow(c, capp, ptrp, cap, ptr, es, align, mincap):
    I, st = c.I, c.st
    f = st.facts
    need = f.norm(mincap)
    if is_t(need):
        ncap = sym(f"cap#{st.next_obj}", (1 << 40))
        st.next_obj += 1
        f.assume(ge0(f.norm(lsub(ncap, mincap))), 1)
    else:
        ncap = max(2 * (need - 1), need, 4)     # RawVec's amortised growth
    size = f.norm(lmul(ncap, es))
    if type(ptr) is Ptr:
        o = heapobj(c, ptr, "grow")
        snap = st.snap(ptr.obj)
        oid = st.new_obj(size, "array" if o.kind == "array" else "vec", mem.UNDEF_BASE, align, o.info)
        st.mem[oid].c = Content(dict(snap.cells), snap.under, st.token)
        st.mem[ptr.obj].alive = False
        st.ev.append(("grow", ptr.obj, oid))
    else:
        oid = st.new_obj(size, "vec", mem.UNDEF_BASE, align, ("vecbuf",))
    I.wr(st, ptrp, 8, Ptr(oid, 0))
    I.wr(st, capp, 8, ncap)
    return Blob(0, [])


# ------------------------------------------------------------------ drops of slices
def m_slice_drop(c):
    I, st = c.I, c.st
    v = c.a(0)
    p, n = v.at(0), v.at(8)
    f = st.facts
    n = f.norm(n)
    if len(c.f["body"]["blocks"]) <= 1:
        return NotImplemented       # elements without drop glue
    ft = c.f["body"]["locals"][1]
    to = I.p.types[ft]["to"]
    ty = I.p.types[to]
    if ty["kind"] != "slice" or (not is_t(n) and n <= 4):
        return NotImplemented
    es = I.p.size(ty["elem"])
    size = f.norm(I.mulsz(st, n, es))
    if f.need(eq(n, 0)):
        return Blob(0, [])
    o = I.access(st, p, size, False)
    # every element of the range must be a live value
    j = sym(f"j#{st.next_obj}", (1 << 40))
    st.next_obj += 1

    def look(s):
        s.facts.assume(ge0(s.facts.norm(lsub(lsub(n, 1), j))), 1)
        q = I.padd(s, p, f.norm(I.mulsz(s, j, es)))
        return s.load(q, min(es, 8))
    for s2, val in explore(I, st, look):
        if val is UNDEF:
            raise Violation("drop-uninit", f"drops an element of a range that is not initialised ({I.oname(st, p.obj)})")
    st.ev.append(("dropslice", p.obj, f.norm(p.off), n, es, st.snap(p.obj)))
    if c.maythrow("element drop"):
        st.ev.append(("throw", "drop"))
        return I.unwind_to(st, c.unwind) or "handled"
    return Blob(0, [])


INTRINSICS = {
    "ctpop": i_ctpop, "cttz": i_cttz, "cttz_nonzero": i_cttz, "ctlz": i_ctlz, "ctlz_nonzero": i_ctlz,
    "copy": i_copy, "copy_nonoverlapping": i_copy, "write_bytes": i_write_bytes,
    "arith_offset": i_arith_offset, "ptr_offset_from_unsigned": i_ptr_diff, "ptr_offset_from": i_ptr_diff,
    "size_of_val": i_size_of_val, "align_of_val": i_align_of_val, "black_box": i_black_box,
    "assert_inhabited": i_unit, "assert_zero_valid": i_unit, "assert_mem_uninitialized_valid": i_unit,
    "caller_location": i_loc, "cold_path": i_unit,
    "simd_and": simd_bit("and"), "simd_or": simd_bit("or"), "simd_xor": simd_bit("xor"),
    "simd_eq": i_simd_eq, "simd_lt": i_simd_lt, "simd_bitmask": movemask, "pmovmskb128": movemask, "pmovmskb": movemask,
}

EXT = {
    "__rust_alloc": x_alloc, "__rust_alloc_zeroed": x_alloc, "__rust_dealloc": x_dealloc, "__rust_realloc": x_realloc,
    "__rust_no_alloc_shim_is_unstable_v2": i_unit,
}

MODELS = {
    "alloc::raw_vec::RawVec::<T, A>::grow_one": m_grow_one,
    "<slice drop>": m_slice_drop,
}
