"""C02: iteration yields exactly the keys, ascending, each with its element."""
from terms import *
from mem import *
import models
import opaque
from opaque import *
from obl import *
import opschk
from bitschk import lowest
from gatechk import WB


def spec_next(s, stack, D, masks):
    """advance the ideal depth-first walk; returns (stack, path or None)"""
    stack = list(stack)
    while stack:
        path, ws = stack.pop()
        ex = lowest(None, s, ws)
        if ex is None:
            continue
        i, rest = ex
        stack.append((path, rest))
        p = path + (canon(s, i, path),)
        if len(p) == D:
            return tuple(stack), p
        stack.append((p, tuple(masks(s, p))))
    return (), None


def key_of(p, b):
    return cat_mk([g for i in reversed(p) for g in segs_of(i, b)])


def payload(I, P, s, v, rt):
    """Option<(usize, X)> -> None | (key, value of X, type of X)"""
    ty = P.types[rt]
    d = I.disc_of_blob(s, v, rt) if type(v) is Blob else I.disc_val(s, v, ty)
    if is_t(d):
        d = opschk.split_small(s, d, 2)
    if not d:
        return None
    ft = ty["variants"][1][2][0][1]
    tup = I.extract(s, v, P.field_off(rt, 0, 1), ft)
    (o0, t0), (o1, t1) = P.fields(ft)
    return I.extract(s, tup, o0, t0), I.extract(s, tup, o1, t1), t1


def run(S, root_new, root_next, tree, st, D, b, masks, data, items, limit=20000):
    P, I, ob = S.P, S.I, S.ob
    work = []
    for o in S.call(st, root_new, [tree]):
        t = P.fns[S.root(root_new)]["body"]["locals"][0]
        x = o.st.new_obj(P.size(t), "iterator", info=t)
        I.write_place(o.st, Ptr(x, 0), t, o.ret)
        work.append((o.st, Ptr(x, 0), None))
    rt = P.fns[S.root(root_next)]["body"]["locals"][0]
    n = 0
    while work:
        n += 1
        if n > limit:
            raise Unsupported("iteration bound")
        st, it, stack = work.pop()
        for o in S.call(st, root_next, [it]):
            def fn(s, o=o, stack=stack):
                stk = stack if stack is not None else (((), tuple(masks(s, ()))),)
                stk, p = spec_next(s, stk, D, masks)
                got = payload(I, P, s, o.ret, rt)
                if p is None:
                    if got is not None:
                        raise Violation("post", f"iteration yields key {show(got[0])} although no key is left")
                    return None
                if got is None:
                    raise Violation("post", f"iteration ends although {show_path(p)} is left")
                want = key_of(p, b)
                f = s.facts
                if got[0] is UNDEF or f.need(eq(f.norm(got[0]), f.norm(want))) != 1:
                    raise Violation("post", f"iteration yields key {show(got[0])}, the next key is {show(f.norm(want))}")
                return stk, p, got
            n0 = len(ob.viol)
            for s, r in S.judge(o.st, root_next, fn, "iteration"):
                if len(ob.viol) > n0:
                    return
                if r is None:
                    continue
                stk, p, (k, v, vt) = r
                for s2, gv in items(s, v, vt):
                    def fd(q, gv=gv, p=p):
                        ex = data(q, p)
                        if not opschk.same_val(q, gv, ex):
                            raise Violation("post", f"iteration yields {gv} under a key holding {ex}")
                    S.judge(s2, root_next, fd, "iterated element")
                    if len(ob.viol) > n0:
                        return
                    work.append((s2, it, stk))


def ob_src(P, ob, W, D, cap):
    """iteration of an arbitrary tree with at most `cap` children per node, at arbitrary positions"""
    S = Sess(P, ob)
    m = f"key{W}_{D}"
    st = State()
    st.user["srcs"] = Sources(D, WB[W], cap=cap)
    a = st.new_obj(8, "sources")
    st.store(Ptr(a, 0), 8, 0)

    def items(s, v, vt):
        return [(s, opschk.decode(S.I, s, v, vt))]
    run(S, f"{m}::iter_new", f"{m}::iter_next", Ptr(a, 0), st, D, WB[W],
        lambda s, p: node_words(s, 0, p), lambda s, p: elem(0, p), items)


def ob_op(P, ob, op, D, N, cap):
    S = opschk.OSess(P, ob, op, D, N)
    S.cap = cap

    def items(s, v, vt):
        if op in ("mi", "mu"):
            return S.items(s, v, vt, f"{S.m}::it_cur", N)
        return [(s, opschk.decode(S.I, s, v, vt))]
    for st, tree in S.build():
        run(S, f"{S.m}::iter_new", f"{S.m}::iter_next", tree, st, D, 6, S.spec.mask, S.spec.data, items)
