"""C11: a panic in caller code (element destructors, Default, functions given to operators) leaves nothing
dropped twice, nothing uninitialised dropped, and the container with every element it had."""
from terms import *
from mem import *
import models
from opaque import *
from obl import *
from densechk import DSess, drops, same
import densechk
import sparsechk
from sparsechk import SSess


def once(st):
    """no element range is dropped twice (double drops of single elements are found on the way)"""
    seen = {}
    for e in st.ev:
        if e[0] == "dropslice":
            if e[1] in seen:
                raise Violation("double-drop", "elements already dropped are dropped again during unwinding")
            seen[e[1]] = e
    for e in st.ev:
        if e[0] == "drop" and len(e) > 2 and type(e[2]) is Ptr and e[2].obj in seen:
            raise Violation("double-drop", "an element of a range already dropped is dropped again")


def ended(S, o, root, fn):
    if o.kind == "unwound" or any(e[0] == "throw" for e in o.st.ev):
        S.judge(o.st, root, fn, "after a panic in caller code")


def sess(P, ob, kind, arg):
    S = DSess(P, ob, arg, unwind=True) if kind == "dense" else SSess(P, ob, arg, unwind=True)
    S.pre = f"dense{arg}" if kind == "dense" else arg
    return S


def ob_drop(P, ob, kind, arg, cap=1):
    S = sess(P, ob, kind, arg)
    sh = S.sh
    root = f"{S.pre}::drop_tree"
    tree = S.fresh()
    if kind == "dense":
        sh.popcap = cap
        S.st.facts.assume(ge0(lsub(cap, pop(sh.mask_of(())))), 1)
    val = S.I.read_place(S.st, tree, sh.tt)
    S.st.mem[tree.obj].alive = False
    some = False
    for o in S.call(S.st, root, [val]):
        some |= any(e[0] == "throw" for e in o.st.ev)
        ended(S, o, root, once)
    if not some:
        ob.undec.append(["no panicking destructor was reached", "", root])


def ob_insert(P, ob, kind, arg):
    """the replaced element's destructor panics: the new element is in place"""
    S = sess(P, ob, kind, arg)
    root = f"{S.pre}::insert"
    tree = S.fresh()
    k = S.key("k")
    v = sym("v")
    some = False
    for o in S.call(S.st, root, [tree, k, v]):
        if not any(e[0] == "throw" for e in o.st.ev):
            continue
        some = True

        def expect(st, q):
            if st.facts.need(eq(st.facts.norm(q), st.facts.norm(k))):
                return (1, v, None)
            return S.sh.lookup(st, q)
        post(S, kind, o, root, expect, k)
        ended(S, o, root, once)
    if not some:
        ob.undec.append(["no panicking destructor was reached", "", root])


def post(S, kind, o, root, expect, k):
    S.sh.allow_empty = True
    (densechk if kind == "dense" else sparsechk).check_post(S, o, root, expect, k)


def ob_get_or_insert(P, ob, kind, arg):
    """Default panics: every key maps to what it mapped to before; at worst an empty branch is left behind"""
    S = sess(P, ob, kind, arg)
    root = f"{S.pre}::get_or_insert"
    tree = S.fresh()
    k = S.key("k")
    some = False
    for o in S.call(S.st, root, [tree, k]):
        if not any(e[0] == "throw" for e in o.st.ev):
            continue
        some = True
        post(S, kind, o, root, S.sh.lookup, k)

        def own(st):
            if drops(st):
                raise Violation("ownership", "an element is dropped although nothing was inserted")
        ended(S, o, root, own)
    if not some:
        ob.undec.append(["no panicking default was reached", "", root])


def ob_new(P, ob, mod):
    """the placeholder's Default panics: nothing was initialised, nothing is dropped"""
    S = SSess(P, ob, mod, unwind=True)
    root = f"{mod}::new"
    some = False
    for o in S.call(State(), root, []):
        if not any(e[0] == "throw" for e in o.st.ev):
            continue
        some = True

        def fn(st):
            if any(e[0] in ("drop", "dropslice") for e in st.ev):
                raise Violation("drop-uninit", "an element is dropped although none was made")
            for oid, x in st.mem.items():
                if x.alive and x.kind in ("heap", "vec"):
                    raise Violation("leak", f"memory of {show(x.size)} bytes is left behind")
        ended(S, o, root, fn)
    if not some:
        ob.undec.append(["no panicking default was reached", "", root])


def ob_mat(P, ob, D, exact, cap):
    """the source's element function panics: each element made so far is dropped at most once, nothing else"""
    S = DSess(P, ob, D, unwind=True)
    root = f"dense{D}::{'mat_exact' if exact else 'mat'}"
    st = State()
    st.user["srcs"] = Sources(D, 6, cap=cap, exact=exact)
    some = False
    for o in S.call(st, root, [0]):
        if not any(e[0] == "throw" for e in o.st.ev):
            continue
        some = True
        ended(S, o, root, once)
    if not some:
        ob.undec.append(["no panicking element function was reached", "", root])


def ob_alloc(P, ob, D, op):
    """the allocator may refuse any request: nothing is written through the null pointer"""
    S = DSess(P, ob, D, alloc_null=True)
    root = f"dense{D}::{op}"
    if op == "new":
        st, args = State(), []
    elif op.startswith("mat"):
        st = State()
        st.user["srcs"] = Sources(D, 6, cap=2, exact=op == "mat_exact")
        args = [0]
    else:
        tree = S.fresh()
        st = S.st
        args = [tree, S.key("k")] + ([sym("v")] if op == "insert" else [])
    stops = set()
    for o in S.call(st, root, args, panics=True):
        if o.kind in ("panic", "abort"):
            stops.add(o.msg)
        ob.checks += 1
    if not any("alloc" in (m or "") or "handle" in (m or "") for m in stops):
        ob.undec.append([f"no refused allocation was reached ({sorted(stops)})", "", root])
