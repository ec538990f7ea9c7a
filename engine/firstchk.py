"""New trees put to use: the deep configurations, from new() through two insertions and a removal, with every lookup."""
from terms import *
from mem import *
import models
from obl import *
from opschk import decode


def ob_first(P, ob, mod, bits, D, second):
    S = Sess(P, ob)
    I = S.I
    W = 1 << bits
    top = min((1 << (bits * D)) - 1, M64 - 1)
    k, r, q, v = sym("k", top), sym("k2", top), sym("q", top), sym("v", M64)

    def ref(s, ret, want):
        """the element an Option<&V> shows is `want` (None: absent)"""
        d = decode(I, s, ret, P.fns[S.root(f"{mod}::get")]["body"]["locals"][0])
        if (d[0] == "None") != (want is None):
            raise Violation("post", "reported " + ("absent" if d[0] == "None" else "present"))
        if want is not None:
            got = I.rd(s, d[1][0], 8)
            if got is UNDEF or s.facts.need(eq(s.facts.norm(got), s.facts.norm(want))) != 1:
                raise Violation("post", f"shows {show(got) if got is not UNDEF else got}, stored {show(want)}")

    def lookups(states, want, what):
        root = f"{mod}::get"
        for st, tp in states:
            for o in S.call(st.fork(), root, [tp, q]):
                S.judge(o.st, root, lambda s, o=o: ref(s, o.ret, want(s)), what)

    def same_key(s, a, b):
        return s.facts.need(eq(s.facts.norm(a), s.facts.norm(b))) == 1
    sts = []
    root = f"{mod}::new"
    for o in S.call(State(), root, []):
        t = P.fns[S.root(root)]["body"]["locals"][0]
        x = o.st.new_obj(P.size(t), "tree", info=t)
        I.write_place(o.st, Ptr(x, 0), t, o.ret)
        sts.append((o.st, Ptr(x, 0)))
    lookups(sts, lambda s: None, "lookup in a new tree")
    sts = [(o.st, tp) for st, tp in sts for o in S.call(st, f"{mod}::insert", [tp, k, v])]
    lookups(sts, lambda s: v if same_key(s, q, k) else None, "lookup after one insertion")
    if second:
        root = f"{mod}::remove"
        rt = P.fns[S.root(root)]["body"]["locals"][0]
        nxt = []
        for st, tp in sts:
            for o in S.call(st, root, [tp, r]):
                def fn(s, o=o):
                    d = decode(I, s, o.ret, rt)
                    hit = same_key(s, r, k)
                    if (d[0] == "Some") != hit or hit and s.facts.norm(d[1][0]) is not s.facts.norm(v):
                        raise Violation("post", f"removal returns {d[0]}")
                S.judge(o.st, root, fn, "removal")
                nxt.append((o.st, tp))
        lookups(nxt, lambda s: v if same_key(s, q, k) and not same_key(s, r, k) else None, "lookup after insertion and removal")
