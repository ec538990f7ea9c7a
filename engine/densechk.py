"""Obligations on DenseTree: each operation from an arbitrary tree satisfying the invariant."""
from terms import *
from mem import *
import dense
from dense import DenseShape, comp
from obl import *


class DSess(Sess):
    def __init__(self, P, ob, D, **opts):
        super().__init__(P, ob, **opts)
        self.D = D
        self.sh = DenseShape(self.I, D)
        if interp.COST:
            self.I.o["max_visits"] = 64 + 20
        self.sh.learn_empty()
        self.I.res = Result()
        self.m = f"dense{D}"

    def key(self, name):
        return sym(name, (1 << (6 * self.D)) - 1)

    def run(self, op, args, **kw):
        return self.call(self.st, f"{self.m}::{op}", args, **kw)

    def fresh(self):
        self.st = State()
        self.tree = self.sh.build(self.st)
        return self.tree


def opt_tag(P, t):
    """(tag 0/1, payload) of an Option<64-bit> value"""
    if type(t) is Blob:
        return t
    return t


def drops(st):
    return [e for e in st.ev if e[0] in ("drop", "dropslice")]


# ------------------------------------------------------------------ post-state of a mutation
def check_post(S, o, root, expect, k=None, allow_lost=()):
    """invariant on the post-state, abstraction equals `expect(pre, q)`, nothing leaked"""
    sh, I = S.sh, S.I
    tree = Ptr(o.st.user["objs"][0], 0)

    def generic_key(st):
        q = S.key("q")
        f = st.facts
        ex = expect(st, q)
        got = sh.walk(st, I, tree, q)
        if ex[0] != got[0]:
            raise Violation("post", f"afterwards key {show(f.norm(q))} is {'present' if got[0] else 'absent'}, expected {'present' if ex[0] else 'absent'}")
        if ex[0]:
            if got[1] is UNDEF:
                raise Violation("post", f"afterwards key {show(f.norm(q))} maps to an uninitialised element")
            if got[1] is not ex[1] and not f.need(eq(f.norm(got[1]), f.norm(ex[1]))):
                raise Violation("post", f"afterwards key {show(f.norm(q))} maps to {show(got[1])}, expected {show(ex[1])}")
    S.judge(o.st, root, generic_key, "every key")

    def vecs(st):
        sh.check_vecs(st, I, tree)
        f = st.facts
        # every entry belongs to the key it is filed under
        j = sym("j", (1 << 32) - 1)
        f.assume(ge0(lsub(j, 1)), 1)
        kcap, kp, kl = sh.vec(st, tree, sh.f_keys, sh.kv)
        f.assume(ult(j, f.norm(kl)), 1)
        key = I.rd(st, I.padd(st, kp, f.norm(lmul(j, 8))), 8)
        if key is UNDEF:
            raise Violation("rep", "an entry's key is uninitialised")
        r = sh.walk(st, I, tree, f.norm(key))
        if not r[0]:
            raise Violation("map", f"entry of key {show(key)} is not reachable through the tree")
        if not f.need(eq(f.norm(r[2]), f.norm(j))):
            raise Violation("map", f"two entries for one key {show(key)}")
    S.judge(o.st, root, vecs, "every entry")

    def heap(st):
        sh.check_heap(st, I, tree, k)
    S.judge(o.st, root, heap, "memory")


def ob_new(P, ob, D):
    S = DSess(P, ob, D)
    root = f"dense{D}::new"
    st = State()
    for o in S.call(st, root, []):
        st = o.st
        t = st.new_obj(P.size(S.sh.tt), "tree", info=S.sh.tt)
        S.I.write_place(st, Ptr(t, 0), S.sh.tt, o.ret)
        st.user.update(nodes={}, kids={}, dis=(), gkeys=(), n=0)

        def fn(s, t=t):
            tree = Ptr(t, 0)
            S.sh.check_vecs(s, S.I, tree)
            q = S.key("q")
            got = S.sh.walk(s, S.I, tree, q)
            if got[0]:
                raise Violation("post", "a new tree contains a key")
            for nm, base, v in (("data", S.sh.f_data, S.sh.dv), ("keys", S.sh.f_keys, S.sh.kv)):
                if s.facts.norm(S.sh.vec(s, tree, base, v)[2]) != 1:
                    raise Violation("post", f"a new tree's {nm} list does not hold just the placeholder")
        S.judge(st, root, fn, "new tree")


def ob_get(P, ob, D, op="get"):
    """lookup equals the abstraction function, on every tree and every index"""
    S = DSess(P, ob, D)
    root = f"dense{D}::{op}"
    tree = S.fresh()
    k = S.key("k")
    st = S.st
    if op == "get_unchecked":
        # contract: the key is present
        pre = models.explore(S.I, st, lambda s: S.sh.lookup(s, k))
        starts = [s for s, r in pre if r[0]]
    elif op == "get_idx":
        starts = [st]
    else:
        starts = [st]
    for st in starts:
        for o in S.call(st, root, [tree, k]):
            def fn(s, o=o):
                ex = S.sh.lookup(s, k)
                p = o.ret if op == "get_unchecked" else opt_ref(s, o.ret)
                judge_ref(S, s, p, ex, S.sh.f_data, S.sh.dv, tree)
                no_effects(s)
            S.judge(o.st, root, fn, "lookup")


def no_effects(st):
    for e in st.ev:
        if e[0] in ("drop", "dropslice", "alloc", "dealloc", "realloc", "default"):
            raise Violation("effect", f"a lookup performs {e[0]}")


def opt_ref(st, r):
    """Option<&T>: None or Ptr"""
    if type(r) is Blob:
        r = r.at(0)
    if r is UNDEF:
        raise Violation("post", "returns an uninitialised reference")
    if type(r) is Ptr:
        return r
    if st.facts.norm(r) == 0:
        return None
    raise Violation("post", f"returns an invalid reference {r!r}")


def judge_ref(S, st, p, ex, base, v, tree):
    f = st.facts
    if p is None:
        if ex[0]:
            raise Violation("post", "a stored key is reported absent")
        return
    if not ex[0]:
        raise Violation("post", "an absent key is reported present")
    cap, dp, n = S.sh.vec(st, tree, base, v)
    if p.obj != dp.obj:
        raise Violation("post", "returned reference is not into the element storage")
    if f.need(eq(f.norm(p.off), f.norm(lmul(ex[2], 8)))) != 1:
        raise Violation("post", f"returned reference is the element at byte {show(f.norm(p.off))}, the key's element is number {show(ex[2])}")


def ob_insert(P, ob, D, **kw):
    S = DSess(P, ob, D, **kw)
    root = f"dense{D}::insert"
    tree = S.fresh()
    k = S.key("k")
    v = sym("v")
    for o in S.call(S.st, root, [tree, k, v]):
        def expect(st, q):
            if st.facts.need(eq(st.facts.norm(q), st.facts.norm(k))):
                return (1, v, None)
            return S.sh.lookup(st, q)
        check_post(S, o, root, expect, k)

        def owner(st):
            pre = S.sh.lookup(st, k)
            ds = drops(st)
            if pre[0]:
                if len(ds) != 1 or not same(st, ds[0][1], pre[1]):
                    raise Violation("ownership", f"the replaced element must be dropped exactly once, drops: {[show(d[1]) for d in ds]}")
            elif ds:
                raise Violation("ownership", f"inserting a new key drops {[show(d[1]) for d in ds]}")
        S.judge(o.st, root, owner, "elements")


def same(st, a, b):
    f = st.facts
    return a is b or (a is not UNDEF and b is not UNDEF and f.need(eq(f.norm(a), f.norm(b))) == 1)


def ob_get_or_insert(P, ob, D, **kw):
    S = DSess(P, ob, D, **kw)
    root = f"dense{D}::get_or_insert"
    tree = S.fresh()
    k = S.key("k")
    for o in S.call(S.st, root, [tree, k]):
        dv = [e[1] for e in o.st.ev if e[0] == "default"]

        def expect(st, q):
            pre = S.sh.lookup(st, q)
            if not pre[0] and st.facts.need(eq(st.facts.norm(q), st.facts.norm(k))):
                if len(dv) != 1:
                    raise Violation("ownership", f"{len(dv)} default elements made for one absent key")
                return (1, dv[0], None)
            return pre
        check_post(S, o, root, expect, k)

        def ret(st):
            pre = S.sh.lookup(st, k)
            if drops(st):
                raise Violation("ownership", "get_or_insert drops an element")
            if pre[0] and dv:
                raise Violation("ownership", "a default element is made for a key that is present")
            r = S.sh.walk(st, S.I, tree, k)
            p = opt_ref(st, o.ret)
            judge_ref(S, st, p, r, S.sh.f_data, S.sh.dv, tree)
        S.judge(o.st, root, ret, "returned reference")


def ob_remove(P, ob, D, **kw):
    S = DSess(P, ob, D, **kw)
    root = f"dense{D}::remove"
    tree = S.fresh()
    k = S.key("k")
    rt = P.fns[P.byroot[root]]["sig"]
    for o in S.call(S.st, root, [tree, k]):
        def expect(st, q):
            if st.facts.need(eq(st.facts.norm(q), st.facts.norm(k))):
                return (0, None, None)
            return S.sh.lookup(st, q)
        check_post(S, o, root, expect, k)

        def ret(st):
            f = st.facts
            pre = S.sh.lookup(st, k)
            if drops(st):
                raise Violation("ownership", f"remove drops {[show(d[1]) for d in drops(st)]} instead of handing the element over")
            tag = f.norm(o.ret.at(0))
            if is_t(tag):
                tag = f.need(eq(tag, 1))
            if tag == 0:
                if pre[0]:
                    raise Violation("post", "removing a present key returns nothing")
            else:
                if not pre[0]:
                    raise Violation("post", "removing an absent key returns an element")
                v = o.ret.at(8)
                if not same(st, v, pre[1]):
                    raise Violation("post", f"returns {show(v)}, the key held {show(pre[1])}")
        S.judge(o.st, root, ret, "returned element")


def ob_key_values(P, ob, D, op):
    S = DSess(P, ob, D)
    root = f"dense{D}::{op}"
    tree = S.fresh()
    n = S.st.user["n"]
    t, do, ko, _ = S.st.user["objs"]
    for o in S.call(S.st, root, [tree]):
        def fn(st):
            f = st.facts
            r = o.ret
            for off, obj, what in ((0, ko, "keys"), (16, do, "values")):
                p, l = r.at(off), r.at(off + 8)
                if f.need(eq(f.norm(l), f.norm(lsub(n, 1)))) != 1:
                    raise Violation("post", f"{what} list has {show(l)} entries, the tree has {show(lsub(n, 1))}")
                if type(p) is not Ptr or p.obj != obj or f.norm(p.off) != 8:
                    raise Violation("post", f"{what} list does not start at the first real entry")
        S.judge(o.st, root, fn, op)
