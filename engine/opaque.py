"""Opaque element type, source trees and user functions of the harness.

A source tree is any tree that honours the documented contract: a mask for every node, a node
exists exactly when its bit is set in its parent, an element exists exactly when its bit is set in
its terminal node.  Masks and elements are uninterpreted functions of (source, path), so a verdict
holds for every source.  Calls outside the documented contract are violations."""
import terms as tm
from terms import *
import mem
from mem import *
from interp import Outcome


# ------------------------------------------------------------------ elements
def v_drop(c):
    I, st = c.I, c.st
    v = I.rd(st, c.a(0), 8)
    if v is UNDEF:
        raise Violation("drop-uninit", f"drops an element in uninitialised memory ({I.oname(st, c.a(0).obj)})")
    for e in st.ev:
        if e[0] == "drop" and e[1] is v:
            raise Violation("double-drop", f"element {show(v)} dropped twice")
    st.ev.append(("drop", v, c.a(0)))
    if c.maythrow("element drop"):
        st.ev.append(("throw", "drop"))
        return I.unwind_to(st, c.unwind) or "handled"
    return Blob(0, [])


def v_default(c):
    I, st = c.I, c.st
    if c.maythrow("Default::default"):
        st.ev.append(("throw", "default"))
        return I.unwind_to(st, c.unwind) or "handled"
    v = sym(f"default#{sum(1 for e in st.ev if e[0] == 'default')}", M64)
    st.ev.append(("default", v))
    return v


# ------------------------------------------------------------------ source trees
class Sources:
    """st.user["srcs"]: the shape all sources share"""

    def __init__(self, D, bits=6, flat=False, cap=None, exact=False):
        self.D = D
        self.exact = exact      # no node below the root is empty
        self.cap = cap          # at most this many children per node (bounded obligations)
        self.flat = flat        # presence of an element is one opaque fact (no masks)
        self.b = bits
        self.W = (1 << bits) // 64


def canon(st, idx, prefix):
    """idx as a child number below prefix, identified with an earlier equal one"""
    f = st.facts
    idx = f.norm(idx)
    known = st.user.get("srcidx", ())
    for p, i in known:
        if p == prefix:
            i2 = f.norm(i)
            if i2 is idx or (not is_t(i2) and i2 == idx):
                return i
    for p, i in known:
        if p == prefix and f.need(eq(idx, f.norm(i))) == 1:
            return i
    st.user["srcidx"] = known + ((prefix, idx),)
    return idx


def canon_path(st, idxs):
    p = ()
    for i in idxs:
        p = p + (canon(st, i, p),)
    return p


def node_words(st, sid, path):
    """mask words of an existing node"""
    S = st.user["srcs"]
    exact = S.exact[sid] if type(S.exact) is tuple else S.exact
    if type(S.cap) is tuple and S.cap[len(path)] < 0:      # this very mask
        return [-S.cap[len(path)]] * S.W
    ws = [uf("mask", (sid, w) + path, M64, True) for w in range(S.W)]
    if S.cap is not None or exact and path:
        seen = st.user.get("capped", ())
        if (sid, path) not in seen:
            st.user["capped"] = seen + ((sid, path),)
            t = 0
            for w in ws:
                t = ladd(t, pop(w))
            if S.cap is not None:
                cap = S.cap if type(S.cap) is int else S.cap[len(path)]
                st.facts.assume(ge0(st.facts.norm(lsub(cap, t))), 1)
            if exact and path:
                st.facts.assume(ge0(st.facts.norm(lsub(t, 1))), 1)
    return ws


def word_bit(st, words, i):
    f = st.facts
    if len(words) == 1:
        return f.norm(getb(words[0], f.norm(i)))
    i = f.norm(i)
    hi = bslice(i, 6, 2)
    for w in range(len(words)):
        if f.need(eq(f.norm(hi), w)) == 1:
            return f.norm(getb(words[w], f.norm(bslice(i, 0, 6))))
    raise Infeasible()


def present(st, sid, path):
    """does the node/element at path exist (splits)"""
    if st.user["srcs"].flat:
        return bool(st.facts.need(eq(uf("has", (sid,) + path, 1), 1)))
    for l in range(len(path)):
        if not st.facts.need(word_bit(st, node_words(st, sid, path[:l]), path[l])):
            return False
    return True


def elem(sid, path):
    return uf("elem", (sid,) + path, M64)


def sid_of(I, st, p):
    v = I.rd(st, p, 8)
    if is_t(v) or v is UNDEF or type(v) is not int:
        raise Violation("contract", f"a source tree is read at a place that holds none ({I.oname(st, p.obj)})")
    return v


def chk_range(st, i, S, what):
    if st.facts.need(ult(st.facts.norm(i), 1 << S.b)) != 1:
        raise Violation("contract", f"{what} called with child index {show(i)} out of range")


def o_new(c):
    I, st = c.I, c.st
    sid = sid_of(I, st, c.a(0))
    I.wr(st, c.a(1), 8, uf("cursor", (sid,)))
    return Blob(0, [])


def cur_of(I, st, p, sid, what):
    v = I.rd(st, p, 8)
    if not (is_t(v) and v.op == "uf" and v.a[0] == "cursor"):
        raise Violation("contract", f"{what} on a cursor that was never created")
    s, path = v.a[1][0], v.a[1][1:]
    if s != sid:
        raise Violation("contract", f"{what}: cursor of source {s} used with source {sid}")
    return tuple(path)


def o_select(c):
    I, st = c.I, c.st
    S = st.user["srcs"]
    sid = sid_of(I, st, c.a(1))
    path = cur_of(I, st, c.a(0), sid, "select_level_node")
    lvl, idx, checked, out, words = (c.a(i) for i in range(2, 7))
    if is_t(lvl) or is_t(checked) or words != S.W:
        raise Unsupported("symbolic select")
    if lvl == 0:
        if st.facts.norm(idx) != 0:
            raise Violation("contract", f"root level selected with index {show(idx)}")
        new = ()
    else:
        if lvl >= S.D:
            raise Violation("contract", f"select_level_node at level {lvl} of a {S.D}-level tree")
        # path holds the child indices of levels 1..; 'root selected' is marked by a leading 0
        if len(path) < lvl:
            raise Violation("contract", f"level {lvl} selected while level {len(path)} is not selected")
        chk_range(st, idx, S, "select_level_node")
        new = canon_path(st, path[1:lvl] + (idx,))
    if not checked and not present(st, sid, new):
        raise Violation("contract", f"select_level_node_unchecked of node {show_path(new)} that does not exist in source {sid}")
    I.wr(st, c.a(0), 8, uf("cursor", (sid, 0) + new))
    ws = node_words(st, sid, new) if present(st, sid, new) else [0] * S.W
    for k, w in enumerate(ws):
        I.wr(st, I.padd(st, out, 8 * k), 8, w)
    return Blob(0, [])


def show_path(p):
    return "[" + ",".join(show(x) for x in p) + "]"


def full_path(I, st, c, what):
    S = st.user["srcs"]
    sid = sid_of(I, st, c.a(1))
    path = cur_of(I, st, c.a(0), sid, what)
    if len(path) != S.D:
        raise Violation("contract", f"{what} while only {len(path)} of {S.D} levels are selected")
    chk_range(st, c.a(2), S, what)
    return sid, canon_path(st, path[1:] + (c.a(2),))


def o_data(c):
    I, st = c.I, c.st
    sid, p = full_path(I, st, c, "cursor data")
    if not present(st, sid, p):
        return 0
    I.wr(st, c.a(3), 8, elem(sid, p))
    return 1


def o_data_unchecked(c):
    I, st = c.I, c.st
    sid, p = full_path(I, st, c, "cursor data_unchecked")
    if not present(st, sid, p):
        raise Violation("contract", f"data_unchecked of element {show_path(p)} that does not exist in source {sid}")
    if c.maythrow("element of the source"):
        st.ev.append(("throw", "element"))
        return I.unwind_to(st, c.unwind) or "handled"
    st.ev.append(("taken", elem(sid, p)))
    return elem(sid, p)


def index_path(I, st, c, what):
    S = st.user["srcs"]
    f = st.facts
    sid = sid_of(I, st, c.a(0))
    index, li, n = c.a(1), c.a(2), c.a(3)
    if f.norm(n) != S.D:
        raise Violation("contract", f"{what}: {show(n)} level indices for {S.D} levels")
    path = []
    for l in range(S.D):
        i = I.rd(st, I.padd(st, li, 8 * l), 8)
        if i is UNDEF:
            raise Violation("uninit", f"{what}: uninitialised level index")
        want = bslice(f.norm(index), S.b * (S.D - 1 - l), S.b)
        if f.need(eq(f.norm(i), f.norm(want))) != 1:
            raise Violation("contract", f"{what}: level index {l} is {show(f.norm(i))}, the index has {show(f.norm(want))}")
        path.append(want)
    if f.need(ult(f.norm(index), 1 << (S.b * S.D))) != 1:
        raise Violation("contract", f"{what}: index out of range")
    return sid, canon_path(st, tuple(path))


def o_get(c):
    I, st = c.I, c.st
    sid, p = index_path(I, st, c, "data")
    if not present(st, sid, p):
        return 0
    I.wr(st, c.a(4), 8, elem(sid, p))
    return 1


def o_get_unchecked(c):
    I, st = c.I, c.st
    sid, p = index_path(I, st, c, "data_unchecked")
    if not present(st, sid, p):
        raise Violation("contract", f"data_unchecked of element {show_path(p)} that does not exist in source {sid}")
    return elem(sid, p)


# ------------------------------------------------------------------ user functions
def u_fn(c):
    c.st.ev.append(("call", "fn"))
    return uf("F", (sid_of(c.I, c.st, c.a(0)), c.a(1)), M64)


def u_init(c):
    c.st.ev.append(("call", "init"))
    return uf("INIT", (sid_of(c.I, c.st, c.a(0)),), M64)


def u_fold(c):
    c.st.ev.append(("call", "fold"))
    return uf("FOLD", (sid_of(c.I, c.st, c.a(0)), c.a(1), c.a(2)), M64)


def u_bits(c):
    """visitor of bit positions: continues or stops, at the latest on the call the obligation allows"""
    n = sum(1 for e in c.st.ev if e[0] == "bit")
    i = c.a(0)
    if n + 1 >= c.st.user.get("bits_calls", 3):
        r = 0
    elif c.st.user.get("bits_calls") == M64:
        r = 1
    else:
        r = c.st.facts.need(eq(uf("visit", (n,), 1), 1))
    c.st.ev.append(("bit", i, r))
    return r


EXT = {k: v for k, v in list(globals().items()) if k[:2] in ("v_", "o_", "u_")}
