"""C03: bit blocks are sets of bit positions; bit queues hand those positions out in ascending order."""
from terms import *
from mem import *
import models
import opaque
from opaque import *
from obl import *
import opschk


class BSess(Sess):
    def __init__(self, P, ob, W, **opts):
        super().__init__(P, ob, **opts)
        self.W = W
        self.n = W // 64
        self.m = f"bits{W}"

    def words(self, tag):
        return [sym(f"{tag}{i}", M64, True) for i in range(self.n)]

    def val(self, ws):
        return ws[0] if self.n == 1 else Blob(8 * self.n, [(8 * i, 8, w) for i, w in enumerate(ws)])

    def ref(self, st, ws):
        o = st.new_obj(8 * self.n, "bit block", align=8 * self.n)
        for i, w in enumerate(ws):
            st.store(Ptr(o, 8 * i), 8, w)
        return Ptr(o, 0)

    def got(self, st, p):
        return [st.load(Ptr(p.obj, 8 * i), 8) for i in range(self.n)]

    def ret(self, v):
        return [v] if self.n == 1 else [v.at(8 * i) for i in range(self.n)]

    def idx(self, name):
        return sym(name, self.W - 1)

    def bit(self, st, ws, i):
        return word_bit(st, ws, i)

    def hi(self, st, i):
        """word number of bit i (splits)"""
        return opschk.split_small(st, bslice(st.facts.norm(i), 6, 2), self.n) if self.n > 1 else 0


def same_words(s, a, b, what):
    for i, (x, y) in enumerate(zip(a, b)):
        if x is UNDEF or s.facts.need(eq(s.facts.norm(x), s.facts.norm(y))) != 1:
            raise Violation("post", f"{what}: word {i} is {show(x)}, expected {show(s.facts.norm(y))}")


def truth(s, v):
    v = s.facts.norm(v)
    return bool(s.facts.need(eq(v, 1))) if is_t(v) else bool(v)


def ob_block(P, ob, W):
    S = BSess(P, ob, W)
    m = S.m

    def each(root, st, args, fn, what):
        for o in S.call(st, f"{m}::{root}", args):
            S.judge(o.st, f"{m}::{root}", lambda s, o=o: fn(s, o), what)

    a, b = S.words("a"), S.words("b")

    def size(s, o):
        if o.ret != W:
            raise Violation("post", f"SIZE is {show(o.ret)}, not {W}")
    each("size", State(), [], size, "SIZE")
    each("zero", State(), [], lambda s, o: same_words(s, S.ret(o.ret), [0] * S.n, "zero()"), "zero")

    st = State()
    p = S.ref(st, a)

    def iszero(s, o):
        ex = all(s.facts.need(eq(w, 0)) for w in a)
        if truth(s, o.ret) != ex:
            raise Violation("post", "is_zero() disagrees with the bits")
    each("is_zero", st, [p], iszero, "is_zero")

    st = State()
    p = S.ref(st, a)
    i = S.idx("i")

    def getbit(s, o):
        if truth(s, o.ret) != bool(s.facts.need(S.bit(s, a, i))):
            raise Violation("post", f"get_bit({show(i)}) disagrees with the bits")
        same_words(s, S.got(s, p), a, "get_bit changes the block")
    each("get_bit", st, [p, i], getbit, "get_bit")

    for root, v in (("set_true", 1), ("set_false", 0)):
        st = State()
        p = S.ref(st, a)

        def setbit(s, o, v=v, p=p):
            if truth(s, o.ret) != bool(s.facts.need(S.bit(s, a, i))):
                raise Violation("post", "set_bit does not return the previous bit")
            k = S.hi(s, i)
            lo = s.facts.norm(bslice(s.facts.norm(i), 0, 6))
            ex = list(a)
            ex[k] = setb(a[k], lo) if v else clrb(a[k], lo)
            g = S.got(s, p)
            j = S.idx("j")
            if s.facts.need(eq(s.facts.norm(j), s.facts.norm(i))):
                want = v
            else:
                want = bool(s.facts.need(S.bit(s, a, j)))
            if bool(s.facts.need(S.bit(s, g, j))) != bool(want):
                raise Violation("post", f"after set_bit::<{bool(v)}>({show(i)}) bit {show(j)} is wrong")
        each(root, st, [p, i], setbit, "set_bit")

    st = State()
    p = S.ref(st, a)

    def count(s, o):
        t = 0
        for w in a:
            t = ladd(t, pop(w))
        if s.facts.need(eq(s.facts.norm(o.ret), s.facts.norm(t))) != 1:
            raise Violation("post", f"count_ones() is {show(o.ret)}")
    each("count", st, [p], count, "count_ones")

    for root, op in (("and", "and"), ("or", "or")):
        ex = [bitop(op, x, y, 64) for x, y in zip(a, b)]
        each(root, State(), [S.val(a), S.val(b)], lambda s, o, ex=ex, root=root: same_words(s, S.ret(o.ret), ex, f"bitwise {root}"), root)
        st = State()
        p, q = S.ref(st, a), S.ref(st, b)

        def asg(s, o, ex=ex, p=p, q=q, root=root):
            same_words(s, S.got(s, p), ex, f"bitwise {root} assignment")
            same_words(s, S.got(s, q), b, f"bitwise {root} assignment changes its right side")
        each(root + "_assign", st, [p, q], asg, root + " assign")

    st = State()
    p, q = S.ref(st, a), S.ref(st, b)

    def equal(s, o):
        ex = all(s.facts.need(eq(s.facts.norm(x), s.facts.norm(y))) for x, y in zip(a, b))
        if truth(s, o.ret) != ex:
            raise Violation("post", "== disagrees with the bits")
    each("eq", st, [p, q], equal, "eq")


# ------------------------------------------------------------------ queues
def lowest(S, st, ws):
    """lowest set bit of the words: (index term, words without it) or None (splits)"""
    f = st.facts
    for k, w in enumerate(ws):
        w = f.norm(w)
        if f.need(eq(w, 0)) == 1:
            continue
        i = f.norm(tz(w)) if is_t(w) else (w & -w).bit_length() - 1
        rest = list(ws)
        rest[k] = clrb(w, i) if is_t(w) else w & (w - 1)
        return f.norm(ladd(i, 64 * k)), [0] * k + rest[k:]
    return None


def above(S, st, ws, n):
    """words restricted to bits >= n (splits on n)"""
    f = st.facts
    out = []
    for k, w in enumerate(ws):
        if f.need(ult(f.norm(n), 64 * k + 1)) == 1:        # n <= 64k: whole word stays
            out.append(w)
        elif f.need(ult(f.norm(n), 64 * (k + 1))) == 1:
            lo = f.norm(lsub(n, 64 * k))
            out.append(bitop("and", w, f.shl(M64, lo, 64) if hasattr(f, "shl") else mk("x", lo), 64))
        else:
            out.append(0)
    return out


def new_queue(S, st, ws):
    """[(state, Ptr to queue)] of into_bits_iter"""
    out = []
    root = f"{S.m}::into_iter"
    for o in S.call(st, root, [S.val(ws)]):
        t = S.P.fns[S.root(root)]["body"]["locals"][0]
        x = o.st.new_obj(S.P.size(t), "bit queue", info=t)
        S.I.write_place(o.st, Ptr(x, 0), t, o.ret)
        out.append((o.st, Ptr(x, 0)))
    return out


def opt_idx(S, s, v, root):
    return opschk.opt(opschk.decode(S.I, s, v, S.P.fns[S.root(root)]["body"]["locals"][0]))


def ob_next(P, ob, W, steps):
    """the first `steps` results of a fresh queue are the lowest set bits in order, then nothing"""
    S = BSess(P, ob, W)
    root = f"{S.m}::next"
    ws = S.words("m")
    work = [(s, q, ws) for s, q in new_queue(S, State(), ws)]
    for n in range(steps):
        nxt = []
        for st, q, rem in work:
            for o in S.call(st, root, [q]):
                def fn(s, o=o, rem=rem):
                    ex = lowest(S, s, rem)
                    got = opt_idx(S, s, o.ret, root)
                    if ex is None:
                        if got is not None:
                            raise Violation("post", f"yields {show(got[0])} although no bit is left")
                        return None
                    if got is None:
                        raise Violation("post", f"ends although bit {show(ex[0])} is left")
                    if s.facts.need(eq(s.facts.norm(got[0]), ex[0])) != 1:
                        raise Violation("post", f"yields {show(got[0])}, the lowest remaining bit is {show(ex[0])}")
                    return ex[1]
                n0 = len(ob.viol)
                for s, r in S.judge(o.st, root, fn, "next"):
                    if len(ob.viol) == n0:
                        nxt.append((s, q, r if r is not None else [0] * S.n))
        work = nxt


def taken(S, pre):
    """[(state, queue, remaining words)] of a queue of any mask after `pre` bits have been taken"""
    ws = S.words("m")
    work = [(s, q, ws) for s, q in new_queue(S, State(), ws)]
    root = f"{S.m}::next"
    for _ in range(pre):
        nxt = []
        for st, q, rem in work:
            for o in S.call(st, root, [q]):
                for s, r in models.explore(S.I, o.st, lambda s, rem=rem: lowest(S, s, rem)):
                    nxt.append((s, q, r[1] if r else [0] * S.n))
        work = nxt
    return work


def ob_trim(P, ob, W, pre, trims=1, last="next"):
    """trim_to(n) drops exactly the bits below n, also after `pre` bits have been taken and after
    earlier trims; seen through next() or current()"""
    S = BSess(P, ob, W)
    work = taken(S, pre)
    ns = [sym(f"n{i}" if i else "n", M64) for i in range(trims)]
    for n in ns:
        work = [(o.st, q, rem) for st, q, rem in work for o in S.call(st, f"{S.m}::q_trim", [q, n])]
    root = f"{S.m}::{'next' if last == 'next' else 'q_current'}"
    for st, q, rem in work:
        for o2 in S.call(st, root, [q]):
            def fn(s, o=o2, rem=rem):
                f = s.facts
                if last == "next":
                    got = opt_idx(S, s, o.ret, root)
                else:
                    got = None if f.need(eq(f.norm(o.ret), W)) else (f.norm(o.ret),)
                if S.n > 1:
                    for n in ns:
                        if f.need(ge0(f.norm(lsub(bslice(n, 6, 58), S.n)))):
                            if got is not None:
                                raise Violation("post", f"trim_to past the end keeps bit {show(got[0])}")
                            return
                        opschk.split_small(s, bslice(n, 6, 58), S.n)
                if got is not None:
                    g = f.norm(got[0])
                    for n in ns:
                        if f.need(ge0(f.norm(lsub(g, n)))) != 1:
                            raise Violation("post", f"bit {show(g)} below {show(n)} survives trim_to")
                    if not f.need(S.bit(s, rem, g)):
                        raise Violation("post", f"trim_to makes up bit {show(g)}")
                # no remaining bit lies at or above every n (and below what was yielded)
                j = S.idx("j")
                for n in ns:
                    f.assume(ge0(lsub(j, n)), 1)
                if got is not None:
                    f.assume(ult(f.norm(j), g), 1)
                if f.need(S.bit(s, rem, j)):
                    raise Violation("post", f"trim_to({show(ns[-1])}) loses bit {show(f.norm(j))}")
            S.judge(o2.st, root, fn, "trim_to")


def ob_current(P, ob, W, pre):
    S = BSess(P, ob, W)
    root = f"{S.m}::q_current"
    for st, q, rem in taken(S, pre):
        for o in S.call(st, root, [q]):
            def fn(s, o=o, rem=rem):
                ex = lowest(S, s, rem)
                want = ex[0] if ex else W
                if s.facts.need(eq(s.facts.norm(o.ret), s.facts.norm(want))) != 1:
                    raise Violation("post", f"current() is {show(o.ret)}, expected {show(want)}")
            S.judge(o.st, root, fn, "current")


def ob_const(P, ob, W):
    """empty() yields nothing; filled() yields 0, 1, 2 ..."""
    S = BSess(P, ob, W)
    for root, n in (("q_empty", 0), ("q_filled", W)):
        for o in S.call(State(), f"{S.m}::{root}", []):
            t = P.fns[S.root(f"{S.m}::{root}")]["body"]["locals"][0]
            x = o.st.new_obj(P.size(t), "bit queue", info=t)
            S.I.write_place(o.st, Ptr(x, 0), t, o.ret)
            st = o.st
            for k in range(n + 1):
                os = S.call(st, f"{S.m}::next", [Ptr(x, 0)])
                if len(os) != 1:
                    if os:
                        raise Unsupported("several outcomes on constants")
                    return
                st = os[0].st
                r = S.judge(st, f"{S.m}::{root}", lambda s: opt_idx(S, s, os[0].ret, f"{S.m}::next"), root)
                want = (k,) if k < n else None
                if not r or r[0][1] != want:
                    ob.bad("post", f"{root[2:]}() yields {r and r[0][1]}, expected {want}", [f"result of {callee(P, S.root(f'{S.m}::{root}'))}"], st.trace)
                    return


def ob_traverse(P, ob, W, root, calls, pre=0):
    """traversal hands out the set bits in ascending order, stops exactly when told to, and reports it.
    The visitor stops at the latest on call number `calls`."""
    S = BSess(P, ob, W)
    ws = S.words("m")
    if root == "traverse":
        st = State()
        starts = [(st, S.ref(st, ws), ws)]
    else:
        starts = []
        for s, q, rem in taken(S, pre):
            t = P.fns[S.root(f"{S.m}::into_iter")]["body"]["locals"][0]
            starts.append((s, S.I.read_place(s, q, t), rem))
    if root == "q_for_each":    # cannot be stopped: at most `calls` bits
        calls, cap = M64, calls
        t = 0
        for w in ws:
            t = ladd(t, pop(w))
        for st, _, _ in starts:
            st.facts.assume(ge0(st.facts.norm(lsub(cap, t))), 1)
    full = f"{S.m}::{root}"
    for st, a, ws in starts:
        st.user["bits_calls"] = calls
        for o in S.call(st, full, [a]):
            def fn(s, o=o):
                evs = [e for e in s.ev if e[0] == "bit"]
                rem = ws
                stopped = False
                for n, (_, i, cont) in enumerate(evs):
                    if stopped and root != "q_for_each":
                        raise Violation("post", "the visitor is called again after it asked to stop")
                    ex = lowest(S, s, rem)
                    if ex is None:
                        raise Violation("post", f"visits {show(i)} although no bit is left")
                    if s.facts.need(eq(s.facts.norm(i), ex[0])) != 1:
                        raise Violation("post", f"visits {show(i)}, the lowest remaining bit is {show(ex[0])}")
                    rem = ex[1]
                    stopped = not cont and root != "q_for_each"
                if not stopped and lowest(S, s, rem) is not None:
                    raise Violation("post", "ends although bits are left")
                if root != "q_for_each":
                    d = opschk.decode(S.I, s, o.ret, P.fns[S.root(full)]["body"]["locals"][0])
                    if (d[0] == "Break") != stopped:
                        raise Violation("post", f"returns {d[0]} although the visitor {'stopped it' if stopped else 'never stopped it'}")
            S.judge(o.st, full, fn, root)
