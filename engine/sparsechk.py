"""Obligations on SparseTree: each operation from an arbitrary tree satisfying the invariant."""
from terms import *
from mem import *
from sparse import SparseShape
from obl import *
from densechk import opt_ref, no_effects, drops, same


class SSess(Sess):
    def __init__(self, P, ob, mod, **opts):
        super().__init__(P, ob, **opts)
        self.m = mod
        self.sh = SparseShape(self.I, mod)
        if interp.COST:
            self.I.o["max_visits"] = (1 << self.sh.bits) + 20
        self.D = self.sh.D
        self.I.res = Result()

    def key(self, name):
        return sym(name, (1 << (self.sh.bits * self.D)) - 1)

    def fresh(self):
        self.st = State()
        self.tree = self.sh.build(self.st)
        return self.tree


def judge_ref(S, st, p, ex, tree):
    """p: returned reference or None; ex: (present, value, entry)"""
    f = st.facts
    if p is None:
        if ex[0]:
            raise Violation("post", "a stored key is reported absent")
        return
    if not ex[0]:
        raise Violation("post", "an absent key is reported present")
    dp = S.sh.vec(st, tree, "values")[1]
    if p.obj != dp.obj:
        raise Violation("post", "returned reference is not into the element storage")
    if f.need(eq(f.norm(p.off), f.norm(lmul(ex[2], 8)))) != 1:
        raise Violation("post", f"returned reference is the element at byte {show(f.norm(p.off))}, the key's element is number {show(ex[2])}")


def check_post(S, o, root, expect, k=None):
    sh = S.sh
    tree = Ptr(o.st.user["tree"], 0)

    def generic_key(st):
        q = S.key("q")
        f = st.facts
        ex = expect(st, q)
        got = sh.walk(st, tree, q, k)
        if ex[0] != got[0]:
            raise Violation("post", f"afterwards key {show(f.norm(q))} is {'present' if got[0] else 'absent'}, expected {'present' if ex[0] else 'absent'}")
        if ex[0] and (got[1] is UNDEF or got[1] is not ex[1] and not f.need(eq(f.norm(got[1]), f.norm(ex[1])))):
            raise Violation("post", f"afterwards key {show(f.norm(q))} maps to {got[1] if got[1] is UNDEF else show(got[1])}, expected {show(ex[1])}")
    S.judge(o.st, root, generic_key, "every key")

    def vecs(st):
        n = sh.check_vecs(st, tree)
        sh.check_entry(st, tree, n, k)
    S.judge(o.st, root, vecs, "every entry")
    for L in range(1, S.D):
        S.judge(o.st, root, lambda st: sh.check_level(st, tree, L, k), f"blocks of level {L}")
    S.judge(o.st, root, lambda st: sh.check_heap(st, tree), "memory")


def ob_new(P, ob, mod):
    S = SSess(P, ob, mod)
    root = f"{mod}::new"
    sh = S.sh
    for o in S.call(State(), root, []):
        st = o.st
        t = st.new_obj(P.size(sh.tt), "tree", info=sh.tt)
        S.I.write_place(st, Ptr(t, 0), sh.tt, o.ret)
        tree = Ptr(t, 0)
        ndef = [e for e in st.ev if e[0] == "default"]

        def fn(s):
            f = s.facts
            for what in ("values", "keys", "where"):
                cap, p, n = sh.vec(s, tree, what)
                if f.norm(n) != 1:
                    raise Violation("post", f"a new tree's {what} list does not hold just the placeholder")
                if type(p) is not Ptr or not s.mem[p.obj].alive:
                    raise Violation("rep", f"{what} list is not live memory")
                if not f.need(ge0(f.norm(lsub(cap, n)))):
                    raise Violation("rep", f"{what} length exceeds its capacity")
            if sh.required:
                v0 = S.I.rd(s, sh.vec(s, tree, "values")[1], 8)
                if len(ndef) != 1 or v0 is not ndef[0][1]:
                    raise Violation("post", "the default element is not initialised exactly once")
            elif ndef:
                raise Violation("post", "a default element is made although none is needed")
            if S.I.rd(s, sh.vec(s, tree, "keys")[1], 8) != M64:
                raise Violation("rep", "placeholder key")
            for i in (0, 1):
                if S.I.rd(s, S.I.padd(s, sh.vec(s, tree, "where")[1], sh.where_off[i]), 8) != 0:
                    raise Violation("rep", "placeholder coordinates")
            for L in range(S.D):
                d = sh.lv[L]
                if L:
                    cap, p, n = sh.vec(s, tree, L)
                    if f.norm(n) != 1 or type(p) is not Ptr or f.norm(s.load(Ptr(t, d["free"]), 8)) != M64:
                        raise Violation("rep", f"a new tree's level {L} is not one empty block and an empty free list")
                else:
                    p = Ptr(t, d["blk"])
                if any(f.norm(S.I.rd(s, S.I.padd(s, p, d["om"] + 8 * w), 8)) != 0 for w in range(sh.nw)):
                    raise Violation("rep", f"a new tree's level {L} block is not empty")
                c = sym("zc", sh.W - 1)
                v = S.I.rd(s, S.I.padd(s, p, ladd(d["och"], lmul(c, d["iw"]))), d["iw"])
                if v is UNDEF or f.norm(v) != 0:
                    raise Violation("rep", f"a new tree's level {L} block has children")
        S.judge(st, root, fn, "new tree")


def ob_get(P, ob, mod, op):
    S = SSess(P, ob, mod)
    root = f"{mod}::{op}"
    tree = S.fresh()
    k = S.key("k")
    sh = S.sh
    starts = [S.st]
    if "unchecked" in op:
        starts = [s for s, r in models.explore(S.I, S.st, lambda s: sh.lookup(s, k)) if r[0]]
    for st in starts:
        for o in S.call(st, root, [tree, k]):
            def fn(s, o=o):
                ex = sh.lookup(s, k)
                if op == "get_or_default":
                    if not ex[0]:
                        ex = (1, None, 0)
                    p = o.ret
                else:
                    p = o.ret if "unchecked" in op else opt_ref(s, o.ret)
                judge_ref(S, s, p, ex, tree)
                no_effects(s)
            S.judge(o.st, root, fn, "lookup")
            if "mut" in op:
                check_post(S, o, root, sh.lookup)


def ob_insert(P, ob, mod):
    S = SSess(P, ob, mod)
    root = f"{mod}::insert"
    tree = S.fresh()
    k = S.key("k")
    v = sym("v")
    for o in S.call(S.st, root, [tree, k, v]):
        def expect(st, q):
            if st.facts.need(eq(st.facts.norm(q), st.facts.norm(k))):
                return (1, v, None)
            return S.sh.lookup(st, q)
        check_post(S, o, root, expect, k)

        def owner(st):
            pre = S.sh.lookup(st, k)
            ds = drops(st)
            if pre[0]:
                if len(ds) != 1 or not same(st, ds[0][1], pre[1]):
                    raise Violation("ownership", f"the replaced element must be dropped exactly once, drops: {[show(d[1]) for d in ds]}")
            elif ds:
                raise Violation("ownership", f"inserting a new key drops {[show(d[1]) for d in ds]}")
        S.judge(o.st, root, owner, "elements")


def ob_get_or_insert(P, ob, mod):
    S = SSess(P, ob, mod)
    root = f"{mod}::get_or_insert"
    tree = S.fresh()
    k = S.key("k")
    for o in S.call(S.st, root, [tree, k]):
        dv = [e[1] for e in o.st.ev if e[0] == "default"]

        def expect(st, q):
            pre = S.sh.lookup(st, q)
            if not pre[0] and st.facts.need(eq(st.facts.norm(q), st.facts.norm(k))):
                if len(dv) != 1:
                    raise Violation("ownership", f"{len(dv)} default elements made for one absent key")
                return (1, dv[0], None)
            return pre
        check_post(S, o, root, expect, k)

        def ret(st):
            pre = S.sh.lookup(st, k)
            if drops(st):
                raise Violation("ownership", "get_or_insert drops an element")
            if pre[0] and dv:
                raise Violation("ownership", "a default element is made for a key that is present")
            judge_ref(S, st, opt_ref(st, o.ret), S.sh.walk(st, tree, k, k), tree)
        S.judge(o.st, root, ret, "returned reference")


def ob_remove(P, ob, mod):
    S = SSess(P, ob, mod)
    root = f"{mod}::remove"
    tree = S.fresh()
    k = S.key("k")
    for o in S.call(S.st, root, [tree, k]):
        def expect(st, q):
            if st.facts.need(eq(st.facts.norm(q), st.facts.norm(k))):
                return (0, None, None)
            return S.sh.lookup(st, q)
        check_post(S, o, root, expect, k)

        def ret(st):
            f = st.facts
            pre = S.sh.lookup(st, k)
            if drops(st):
                raise Violation("ownership", f"remove drops {[show(d[1]) for d in drops(st)]} instead of handing the element over")
            tag = f.norm(o.ret.at(0))
            if is_t(tag):
                tag = f.need(eq(tag, 1))
            if tag == 0:
                if pre[0]:
                    raise Violation("post", "removing a present key returns nothing")
            else:
                if not pre[0]:
                    raise Violation("post", "removing an absent key returns an element")
                v = o.ret.at(8)
                if not same(st, v, pre[1]):
                    raise Violation("post", f"returns {show(v) if v is not UNDEF else v}, the key held {show(pre[1])}")
        S.judge(o.st, root, ret, "returned element")


def ob_key_values(P, ob, mod, op):
    S = SSess(P, ob, mod)
    root = f"{mod}::{op}"
    tree = S.fresh()
    n = S.st.user["n"]
    ob_ = S.st.user["objs"]
    for o in S.call(S.st, root, [tree]):
        def fn(st):
            f = st.facts
            r = o.ret
            for off, obj, what in ((0, ob_["keys"], "keys"), (16, ob_["values"], "values")):
                p, l = r.at(off), r.at(off + 8)
                if f.need(eq(f.norm(l), f.norm(lsub(n, 1)))) != 1:
                    raise Violation("post", f"{what} list has {show(l)} entries, the tree has {show(lsub(n, 1))}")
                if type(p) is not Ptr or p.obj != obj or f.norm(p.off) != 8:
                    raise Violation("post", f"{what} list does not start at the first real entry")
            no_effects(st)
        S.judge(o.st, root, fn, op)


def ob_drop(P, ob, mod):
    """dropping the tree drops every element once and frees every list"""
    S = SSess(P, ob, mod)
    root = f"{mod}::drop_tree"
    tree = S.fresh()
    st = S.st
    n = st.user["n"]
    vo = st.user["objs"]["values"]
    bufs = list(st.user["objs"].values())
    v = S.I.read_place(st, tree, S.sh.tt)
    st.mem[tree.obj].alive = False
    for o in S.call(st, root, [v]):
        def fn(s):
            f = s.facts
            first = 0 if S.sh.required else 1
            cnt = f.norm(lsub(n, first))
            seen = []
            for e in s.ev:
                if e[0] == "dropslice":
                    if e[1] != vo or f.need(eq(f.norm(e[2]), 8 * first)) != 1 or f.need(eq(f.norm(e[3]), cnt)) != 1:
                        raise Violation("ownership", f"drops {show(e[3])} elements from byte {show(e[2])}, the tree holds {show(cnt)} from byte {8 * first}")
                    seen.append("all")
                elif e[0] == "drop":
                    seen.append(e[1])
            if seen == ["all"]:
                pass
            elif "all" in seen:
                raise Violation("ownership", "elements are dropped twice")
            else:
                # a concrete number of elements
                if is_t(cnt):
                    if not f.need(eq(cnt, len(seen))):
                        raise Violation("ownership", f"{len(seen)} of {show(cnt)} elements are dropped")
                elif cnt != len(seen):
                    raise Violation("ownership", f"{len(seen)} of {cnt} elements are dropped")
                for i, x in enumerate(seen):
                    if not same(s, x, S.sh.val_at(s, first + i)):
                        raise Violation("ownership", f"drops {show(x) if x is not UNDEF else x} as element {first + i}")
            for b in bufs:
                if s.mem[b].alive:
                    raise Violation("leak", f"{s.mem[b].kind} memory {s.mem[b].info} is not freed")
        S.judge(o.st, root, fn, "drop")
