"""C01: the key range gate, and the digits a key is split into."""
from terms import *
from mem import *
import models
import opaque
from opaque import *
from obl import *
import opschk
import dense
from densechk import DSess
import sparsechk

WB = {64: 6, 128: 7, 256: 8}


def bound(W, D):
    """one past the largest valid key: width^depth, capped at the largest usize"""
    return min(W ** D, M64)


def frozen(st):
    """contents of every object, for a later comparison"""
    return {o: (st.snap(o), x.alive) for o, x in list(st.mem.items())}


def untouched(st, before, root):
    """nothing that existed before the call was written, allocated, freed, created or dropped"""
    for e in st.ev:
        raise Violation("effect", f"an out-of-range key has an effect ({e[0]}) before it is refused")
    for o, (c, alive) in before.items():
        x = st.mem[o]
        if x.alive != alive or x.c.under is not c.under or x.c.cells != c.cells:
            raise Violation("effect", f"an out-of-range key changes {x.kind} memory before it is refused")


def refused(S, st, root, args, k, end):
    """with k outside the range the call must panic, before any effect"""
    if end > M64:
        return
    st.facts.assume(ult(k, end), 0)
    before = frozen(st)
    st.ev = []
    for o in S.call(st, root, args, panics=True):
        if o.kind == "ret":
            S.ob.bad("gate", f"key {show(o.st.facts.norm(k))}, outside 0..{end}, is accepted", o.where or [f"result of {callee(S.P, S.root(root))}"], o.st.trace)
            continue

        def fn(s):
            untouched(s, before, root)
        S.judge(o.st, root, fn, "refused key")


def ob_index(P, ob, W, D):
    """Index::from accepts exactly 0..bound and keeps the number; index_range() says the same"""
    S = Sess(P, ob)
    m = f"key{W}_{D}"
    end = bound(W, D)
    for o in S.call(State(), f"{m}::index_range", []):
        if o.st.facts.norm(o.ret) != end:
            ob.bad("gate", f"index_range() ends at {show(o.ret)}, valid keys end at {end}", [f"result of {callee(P, S.root(m + '::index_range'))}"], o.st.trace)
        ob.checks += 1
    k = sym("k", M64)
    refused(S, State(), f"{m}::index_from", [k], k, end)
    st = State()
    st.facts.assume(ult(k, end), 1)
    for o in S.call(st, f"{m}::index_from", [k]):
        r = o.ret.at(0) if type(o.ret) is Blob else o.ret
        if r is UNDEF or o.st.facts.norm(r) is not o.st.facts.norm(k):
            ob.bad("gate", f"a valid key {show(k)} becomes {show(r)}", [f"result of {callee(P, S.root(m + '::index_from'))}"], o.st.trace)
        ob.checks += 1


def src_state(W, D):
    st = State()
    st.user["srcs"] = Sources(D, WB[W], True)
    a = st.new_obj(8, "sources")
    st.store(Ptr(a, 0), 8, 0)
    return st, Ptr(a, 0)


def ob_digits(P, ob, W, D):
    """a lookup hands the tree the key and exactly its digits, most significant first"""
    S = Sess(P, ob)
    end = bound(W, D)
    for op in ("get", "get_unchecked"):
        root = f"key{W}_{D}::{op}"
        k = sym("k", end - 1)
        st, t = src_state(W, D)
        b = WB[W]
        path = tuple(bslice(k, b * (D - 1 - l), b) for l in range(D))
        if W ** D > M64:
            st.facts.assume(ult(k, end), 1)
        starts = [st]
        if op == "get_unchecked":
            starts = [s for s, h in models.explore(S.I, st, lambda s: present(s, 0, canon_path(s, path))) if h]
        for st in starts:
            for o in S.call(st, root, [t, k]):
                def fn(s, o=o):
                    p = canon_path(s, path)
                    ex = present(s, 0, p)
                    rt = P.fns[S.root(root)]["body"]["locals"][0]
                    d = opschk.decode(S.I, s, o.ret, rt)
                    got = opschk.opt(d) if op == "get" else (d,)
                    if (got is not None) != ex or (ex and not opschk.same_val(s, got[0], elem(0, p))):
                        raise Violation("post", f"the lookup of key {show(k)} does not answer with the element at its digits")
                S.judge(o.st, root, fn, "digits")
        if op == "get":
            k = sym("k", M64)
            st, t = src_state(W, D)
            refused(S, st, root, [t, k], k, end)


def ob_dense(P, ob, D, op):
    S = DSess(P, ob, D)
    tree = S.fresh()
    k = sym("k", M64)
    args = [tree, k] + ([sym("v")] if op == "insert" else [])
    refused(S, S.st, f"dense{D}::{op}", args, k, bound(64, D))


def ob_sparse(P, ob, mod, op):
    S = sparsechk.SSess(P, ob, mod)
    tree = S.fresh()
    k = sym("k", M64)
    args = [tree, k] + ([sym("v")] if op == "insert" else [])
    refused(S, S.st, f"{mod}::{op}", args, k, bound(1 << S.sh.bits, S.D))


def ob_op(P, ob, op, D, N):
    S = opschk.OSess(P, ob, op, D, N)
    k = sym("k", M64)
    for st, tree in S.build():
        refused(S, st, f"{S.m}::get", [tree, k], k, bound(64, D))
