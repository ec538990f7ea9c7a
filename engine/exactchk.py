"""C19: a tree that claims an exact hierarchy lists no empty child."""
from terms import *
from mem import *
import models
import opaque
from opaque import *
from obl import *
import opschk
from opschk import OSess, mask_val, word_bit
import curchk


def claims(S, root):
    outs = S.call(State(), root, [])
    vs = {o.st.facts.norm(o.ret) for o in outs}
    if len(vs) != 1 or vs - {0, 1}:
        raise Unsupported(f"{root}: the exactness flag is not a constant")
    return vs.pop()


def nonzero(q, w):
    w = q.facts.norm(w)
    if is_t(w) and w.op == "or":
        return any(nonzero(q, x) for x in w.a[0])
    return q.facts.need(eq(w, 0)) == 0


def nonempty(q, ws, path, root):
    if any(w is UNDEF for w in ws):
        raise Violation("exact", "uninitialised mask")
    if not any(nonzero(q, w) for w in ws):
        raise Violation("exact", f"claims to be exact, but node {show_path(path)}, listed by its parent, is empty")


def ob_op(P, ob, mod, op, D, N, exact, mode):
    """exact: which sources claim exactness (True/False or one per source)"""
    S = OSess(P, ob, op, D, N, mod=mod, exact=exact)
    if not claims(S, f"{mod}::exact"):
        ob.notes.append("claims nothing")
        ob.checks += 1
        return
    cur = []
    root = f"{mod}::cur_new"
    for st, tree in S.build():
        for o in S.call(st, root, [tree]):
            t = S.rty(root)
            x = o.st.new_obj(P.size(t), "cursor", info=t)
            S.I.write_place(o.st, Ptr(x, 0), t, o.ret)
            cur.append((o.st, tree, Ptr(x, 0), (), None))
    walk(S.I, S.call, S.judge, mod, D, 64, S.b, cur, mode)


def walk(I, call, judge, m, D, W, b, cur, mode):
    for lvl in range(D):
        root = f"{m}::" + ("sel_" if mode == "c" else "sel_unchecked_") + str(lvl)
        idx = 0 if lvl == 0 else sym(f"i{lvl - 1}", (1 << b) - 1)
        nxt = []
        for st, tree, cp, path, ws in cur:
            path2 = path + (idx,) if lvl else ()
            sts = [st]
            if lvl:                         # the child is listed by the mask just shown
                sts = [s for s, h in models.explore(I, st, lambda s: bool(s.facts.need(word_bit(s, ws, idx)))) if h]
            for s in sts:
                for o in call(s, root, [cp, tree, idx]):
                    got = [o.ret.at(8 * w) for w in range((1 << b) // 64)] if type(o.ret) is Blob else [o.ret]
                    if lvl:
                        judge(o.st, root, lambda q, got=got: nonempty(q, got, path2, root), "selected mask")
                    if all(w is not UNDEF for w in got):
                        nxt.append((o.st, tree, cp, path2, got))
        cur = nxt


def ob_container(P, ob, kind, args, D, mode):
    T = curchk.TARGETS[kind](P, ob, *args)
    S = T.S
    if not claims(S, f"{T.m}::exact"):
        ob.notes.append("claims nothing")
        ob.checks += 1
        return
    cur = []
    root = f"{T.m}::cur_new"
    for o in S.call(T.st, root, [T.tree]):
        t = curchk.rty(P, root)
        x = o.st.new_obj(P.size(t), "cursor", info=t)
        S.I.write_place(o.st, Ptr(x, 0), t, o.ret)
        cur.append((o.st, T.tree, Ptr(x, 0), (), None))
    walk(S.I, S.call, S.judge, T.m, D, 1 << T.bits, T.bits, cur, mode)
