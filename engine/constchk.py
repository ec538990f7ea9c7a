"""C23: compile-time helpers - const loops, const integers, const arrays, conditional types."""
from terms import *
from mem import *
import models
from opaque import *
from obl import *
from opschk import decode, same_val

MAXI = M64


def where(P, S, root):
    return [f"result of {callee(P, S.root(root))}"]


def ob_loops(P, ob, to, rev):
    """const_for / const_for_rev visit exactly from..to in order and stop exactly when told to"""
    S = Sess(P, ob)
    for frm in range(10):
        root = f"consts::to{to}::{'r' if rev else 'f'}{frm}"
        want = list(range(frm, to))
        if rev:
            want.reverse()
        st = State()
        st.user["bits_calls"] = M64 + 1        # no forced stop: every visit may continue or stop
        for o in S.call(st, root, []):
            def fn(s, o=o, root=root):
                seen = [(e[1], e[2]) for e in s.ev if e[0] == "bit"]
                d = decode(S.I, s, o.ret, S.P.fns[S.root(root)]["body"]["locals"][0])
                for n, (i, r) in enumerate(seen):
                    if n >= len(want) or s.facts.norm(i) != want[n]:
                        raise Violation("order", f"visit {n} is {show(i)}, the range is {want}")
                    if not r and n + 1 != len(seen):
                        raise Violation("order", "goes on after being told to stop")
                if seen and not seen[-1][1]:
                    if d[0] != "Break" or s.facts.norm(d[1][0]) != want[len(seen) - 1]:
                        raise Violation("result", f"stopped at {want[len(seen) - 1]}, returns {d}")
                else:
                    if len(seen) != len(want):
                        raise Violation("order", f"visits {len(seen)} of {want}")
                    if d[0] != "Continue":
                        raise Violation("result", f"returns {d} although never stopped")
            S.judge(o.st, root, fn, f"range {frm}..{to}")


def ob_int(P, ob, n):
    S = Sess(P, ob)
    m = f"consts::to{n}"
    for nm, want in (("value", [n, n]), ("cap", [n, n]), ("sat_dec", max(n - 1, 0)), ("dec", n - 1 if n else None), ("inc", n + 1 if n < 9 else None)):
        root = f"{m}::{nm}"
        outs = S.call(State(), root, [], panics=True)
        ob.checks += 1
        for o in outs:
            if o.kind != "ret":
                if want is not None:
                    ob.bad("panic", f"{nm} of {n} panics", where(P, S, root), o.st.trace)
                continue
            got = decode(S.I, o.st, o.ret, S.P.fns[S.root(root)]["body"]["locals"][0])
            if want is None or got != want:
                ob.bad("value", f"{nm} of {n} is {got}, expected {want}", where(P, S, root), o.st.trace)


def ob_split(P, ob, n):
    """splitting the last item off moves every item exactly once"""
    S = Sess(P, ob)
    root = f"consts::split{n}"
    xs = [sym(f"x{i}", M64) for i in range(n)]
    arg = Blob(8 * n, [(8 * i, 8, x) for i, x in enumerate(xs)]) if n > 1 else Blob(8, [(0, 8, xs[0])])
    rt = P.fns[S.root(root)]["body"]["locals"][0]
    for o in S.call(State(), root, [arg]):
        (o0, t0), (o1, t1) = P.fields(rt)

        def fn(s):
            if any(e[0] in ("drop", "dropslice") for e in s.ev):
                raise Violation("ownership", "drops an item")
            b = o.ret if type(o.ret) is Blob else Blob(8, [(0, 8, o.ret)])
            got = [b.at(o0 + 8 * i) for i in range(n - 1)] + [b.at(o1)]
            if any(g is UNDEF or s.facts.norm(g) is not s.facts.norm(x) for g, x in zip(got, xs)):
                raise Violation("value", f"gives {[show(g) for g in got]}")
        S.judge(o.st, root, fn, "split")


def ob_cond(P, ob):
    """CondType holds and hands out the alternative its condition selects"""
    S = Sess(P, ob)
    for b in ("true", "false"):
        v = sym("v", M64)
        for o in S.call(State(), f"consts::ct_{b}_new", [v]):
            def fn(s, o=o):
                r = o.ret.at(0) if type(o.ret) is Blob else o.ret
                if r is UNDEF or s.facts.norm(r) is not s.facts.norm(v):
                    raise Violation("value", f"holds {show(r)}")
                if s.ev:
                    raise Violation("ownership", "drops or makes a value")
            S.judge(o.st, f"consts::ct_{b}_new", fn, "from")
        for nm in ("get", "get_mut", "clone"):
            root = f"consts::ct_{b}_{nm}"
            st = State()
            x = st.new_obj(8, "value")
            st.store(Ptr(x, 0), 8, v)
            for o in S.call(st, root, [Ptr(x, 0)]):
                def fn(s, o=o, nm=nm, root=root, b=b):
                    if nm == "clone":
                        r = o.ret.at(0) if type(o.ret) is Blob else o.ret
                        if r is UNDEF or s.facts.norm(r) is not s.facts.norm(v):
                            raise Violation("value", f"clones {show(r)}")
                        return
                    d = decode(S.I, s, o.ret, S.P.fns[S.root(root)]["body"]["locals"][0])
                    p = d[1][0]
                    if d[0] != b.capitalize() or type(p) is not Ptr or p.obj != x or s.facts.norm(p.off) != 0:
                        raise Violation("value", f"gives {d}")
                S.judge(o.st, root, fn, nm)
    for o in S.call(State(), "consts::ct_true_default", []):
        def fn(s):
            if [e[0] for e in s.ev] != ["default"]:
                raise Violation("ownership", f"makes and drops {[e[0] for e in s.ev]}")
            r = o.ret.at(0) if type(o.ret) is Blob else o.ret
            if r is UNDEF or s.facts.norm(r) is not s.ev[0][1]:
                raise Violation("value", f"holds {show(r)}")
        S.judge(o.st, "consts::ct_true_default", fn, "default")
