"""Obligations on the lazy operators, for all source trees honouring the tree contract."""
from terms import *
from mem import *
import itertools
import models
import opaque
from opaque import *
from obl import *


def decode(I, st, v, t):
    """python view of a typed value: enum -> (variant name, fields), struct/tuple -> fields, newtype -> inner"""
    P = I.p
    ty = P.types[t]
    if ty["kind"] == "enum":
        d = I.disc_of_blob(st, v, t) if type(v) is Blob else I.disc_val(st, v, ty)
        if is_t(d):
            d = split_small(st, d, len(ty["variants"]))
        for vi, vv in enumerate(ty["variants"]):
            if int(vv[1] if vv[1] is not None else vi) == d:
                break
        else:
            raise Violation("invalid", f"invalid discriminant {d} of {ty['name']}")
        fs = [field(I, st, v, P.field_off(t, i, vi), f[1]) for i, f in enumerate(vv[2])]
        return (vv[0], fs)
    if P.scalar(t):
        return st.facts.norm(v) if is_t(v) else v
    fs = P.fields(t)
    if fs is None:
        return v
    out = [field(I, st, v, o, ft) for o, ft in fs if P.size(ft)]
    return out[0] if len(out) == 1 else out


def field(I, st, v, off, ft):
    if type(v) is not Blob:
        return decode(I, st, v, ft)
    return decode(I, st, I.extract(st, v, off, ft), ft)


def split_small(st, d, n):
    for i in range(n):
        if st.facts.need(eq(st.facts.norm(d), i)) == 1:
            return i
    raise Infeasible()


def opt(x):
    """('None', []) / ('Some', [v]) -> None / (v,)"""
    return None if x[0] == "None" else (x[1][0],)


# ------------------------------------------------------------------ specifications
def and_(ws):
    r = ws[0]
    for w in ws[1:]:
        r = bitop("and", r, w, 64)
    return r


def or_(ws):
    r = 0
    for w in ws:
        r = bitop("or", r, w, 64)
    return r


class Spec:
    def __init__(self, op, N):
        self.op = op
        self.N = N

    def inter(self):
        return self.op in ("inter", "mi", "mif")

    def mask(self, st, path):
        """per word: the mask the operator's node at path must show"""
        W = st.user["srcs"].W
        out = []
        for w in range(W):
            ws = [node_words(st, s, path)[w] if present(st, s, path) else 0 for s in range(self.N)]
            if self.inter():
                out.append(and_(ws) if ws else 0)
            else:
                out.append(or_(ws))
        return out

    def has(self, st, path):
        ps = [present(st, s, path) for s in range(self.N)]
        return (bool(ps) and all(ps)) if self.inter() else any(ps)

    def data(self, st, path):
        """None or the value at a present path"""
        if not self.has(st, path):
            return None
        es = [elem(s, path) if present(st, s, path) else None for s in range(self.N)]
        if self.op == "inter":
            return es
        if self.op == "union":
            return [("None", []) if e is None else ("Some", [e]) for e in es]
        if self.op == "src":
            return es[0]
        if self.op == "map":
            return uf("F", (77, es[0]), M64)
        items = [e for e in es if e is not None]
        if self.op in ("mi", "mu"):
            return items
        acc = uf("INIT", (77,), M64)
        for e in items:
            acc = uf("FOLD", (78, acc, e), M64)
        return acc


def same_val(st, a, b):
    f = st.facts
    if type(a) is list and type(b) is list:
        return len(a) == len(b) and all(same_val(st, x, y) for x, y in zip(a, b))
    if type(a) is tuple and type(b) is tuple:
        return a[0] == b[0] and same_val(st, list(a[1]), list(b[1]))
    if type(a) in (list, tuple) or type(b) in (list, tuple) or type(a) is Blob or a is UNDEF:
        return False
    return f.need(eq(f.norm(a), f.norm(b))) == 1


class OSess(Sess):
    cap = None

    def __init__(self, P, ob, op, D, N, W=64, mod=None, make="make", exact=False, **opts):
        super().__init__(P, ob, **opts)
        self.D, self.N, self.op = D, N, op
        self.b = {64: 6, 128: 7, 256: 8}[W]
        self.byref = op.endswith("_r")
        self.m = mod or (f"{op}{D}" if W == 64 else f"{op[:-2]}{W}_r{D}" if self.byref else f"{op}{W}_{D}")
        self.op = op = op[:-2] if self.byref else op
        self.makefn = make
        self.exact = exact
        self.spec = Spec(op, N)
        self.multi = op in ("mi", "mu", "mif", "muf")

    def key(self, name):
        return sym(name, (1 << (self.b * self.D)) - 1)

    def path_of(self, k):
        return tuple(bslice(k, self.b * (self.D - 1 - l), self.b) for l in range(self.D))

    def rty(self, root):
        return self.P.fns[self.root(root)]["body"]["locals"][0]

    def build(self):
        """[(state, &Tree)] of the operator over N arbitrary sources"""
        st = State()
        st.user["srcs"] = Sources(self.D, self.b, cap=self.cap, exact=self.exact)
        n = max(1, self.N)
        a = st.new_obj(8 * n, "sources", info=None)
        for i in range(self.N):
            st.store(Ptr(a, 8 * i), 8, i)
        uf_ = lambda tok: tok
        if self.op == "src":
            return [(st, Ptr(a, 0))]
        if self.multi:
            args = [Blob(16, [(0, 8, Ptr(a, 0)), (8, 8, self.N)])]
            if self.op in ("mif", "muf"):
                args += [77, 78]
        else:
            args = [Ptr(a, 0) if self.byref else 0] + [77 if self.op == "map" else Ptr(a, 8) if self.byref else 1]
        out = []
        root = f"{self.m}::{self.makefn}"
        for o in self.call(st, root, args):
            t = self.rty(root)
            x = o.st.new_obj(self.P.size(t), "operator", info=t)
            self.I.write_place(o.st, Ptr(x, 0), t, o.ret)
            out.append((o.st, Ptr(x, 0)))
        return out

    def items(self, st, v, t, root, n):
        """drive an item iterator value: [(state, [items])] (at most n+1 steps)"""
        x = st.new_obj(self.P.size(t), "item iterator", info=t)
        self.I.write_place(st, Ptr(x, 0), t, v)
        work = [(st, [])]
        done = []
        hints = {}
        while work:
            s, got = work.pop()
            self.hint(s, Ptr(x, 0), root, len(got))
            if len(got) > n:
                done.append((s, got))
                continue
            for o in self.call(s, root, [Ptr(x, 0)]):
                rt = self.rty(root)
                for s2, r in models.explore(self.I, o.st, lambda q, o=o: opt(decode(self.I, q, o.ret, rt))):
                    if r is None:
                        self.hint_end(s2, root, len(got))
                        done.append((s2, got))
                    else:
                        work.append((s2, got + [r[0]]))
        return done

    def hint(self, st, ip, itroot, n):
        """size_hint of an item iterator after n items: remembered, and judged when the iteration is over"""
        root = itroot.replace("::it_", "::hint_")
        rt = self.rty(root)
        outs = self.call(st.fork(), root, [ip])
        if len(outs) != 1:
            raise Unsupported("size_hint forks")
        o = outs[0]
        (o0, t0), (o1, t1) = self.P.fields(rt)
        lo = self.I.extract(o.st, o.ret, o0, t0)
        hi = opt(decode(self.I, o.st, self.I.extract(o.st, o.ret, o1, t1), t1))
        st.user["hints"] = st.user.get("hints", ()) + ((n, lo, hi),)

    def hint_end(self, st, root, n):
        """n items came out in total"""
        def fn(s):
            f = s.facts
            for k, lo, hi in s.user["hints"]:
                if f.need(ult(n - k, f.norm(lo))) != 0:
                    raise Violation("post", f"size_hint promises at least {show(lo)} items, {n - k} follow")
                if hi is not None and f.need(ult(f.norm(hi[0]), n - k)) != 0:
                    raise Violation("post", f"size_hint promises at most {show(hi[0])} items, {n - k} follow")
        self.judge(st, root, fn, "size hint")

    def results(self, o, root, itroot):
        """[(state, None | value)] of an Option<data> outcome; item iterators are driven to the end"""
        rt = self.rty(root)
        P, I = self.P, self.I
        isopt = P.types[rt]["kind"] == "enum" and P.types[rt]["name"].startswith("core::option::Option") or P.types[rt]["name"].startswith("std::option::Option")
        if not self.multi or self.op in ("mif", "muf"):
            def fn(s):
                d = decode(I, s, o.ret, rt)
                return (opt(d) if isopt else (d,))
            return models.explore(I, o.st, fn)
        if not isopt:
            return [(s, (g,)) for s, g in self.items(o.st, o.ret, rt, itroot, self.N)]
        out = []

        def split(s):
            ty = P.types[rt]
            d = I.disc_of_blob(s, o.ret, rt) if type(o.ret) is Blob else I.disc_val(s, o.ret, ty)
            return split_small(s, d, 2) if is_t(d) else d
        for s, d in models.explore(I, o.st, split):
            if d == 0:
                out.append((s, None))
                continue
            ft = P.types[rt]["variants"][1][2][0][1]
            v = I.extract(s, o.ret, P.field_off(rt, 0, 1), ft) if type(o.ret) is Blob else o.ret
            out += [(s2, (g,)) for s2, g in self.items(s, v, ft, itroot, self.N)]
        return out


def judge_data(S, st, root, got, path, what):
    def fn(s):
        p = canon_path(s, path)
        ex = S.spec.data(s, p)
        if got is None:
            if ex is not None:
                raise Violation("post", "a present element is reported absent")
            return
        if ex is None:
            raise Violation("post", "an absent element is reported present")
        if not same_val(s, got[0], ex):
            raise Violation("post", f"returns {got[0]}, expected {ex}")
    S.judge(st, root, fn, what)


def ob_get(P, ob, op, D, N, unchecked=False, **kw):
    S = OSess(P, ob, op, D, N, **kw)
    k = S.key("k")
    root = f"{S.m}::" + ("get_unchecked" if unchecked else "get")
    for st, tree in S.build():
        if unchecked:
            starts = [s for s, h in models.explore(S.I, st, lambda s: S.spec.has(s, canon_path(s, S.path_of(k)))) if h]
        else:
            starts = [st]
        for s in starts:
            for o in S.call(s, root, [tree, k]):
                for s2, got in S.results(o, root, f"{S.m}::" + ("it_un" if unchecked else "it_get")):
                    judge_data(S, s2, root, got, S.path_of(k), "lookup")


# ------------------------------------------------------------------ cursors
def walks(D):
    """sequences of (level, index name): every way to re-select after having been elsewhere"""
    real = [f"i{l}" for l in range(D)]
    out = []
    base = [(0, None)] + [(l, real[l - 1]) for l in range(1, D)]
    out.append(base)
    for r in range(0, D):
        # been at depth t (junk from level r on), re-selected from level r
        for t in range(max(r, 1), D):
            pre = [(0, None)] + [(l, real[l - 1] if l < r else f"j{l}") for l in range(1, t + 1)]
            post = [(0, None)] * (r == 0) + [(l, real[l - 1]) for l in range(max(r, 1), D)]
            out.append(pre + post)
    return out


def mask_val(S, st, ret):
    if type(ret) is Blob:
        return [ret.at(8 * w) for w in range(st.user["srcs"].W)]
    return [ret]


def ob_cursor(P, ob, op, D, N, walk, modes, final, **kw):
    """selects along `walk` (mode per select: 'c'hecked / 'u'nchecked), then data of the last child"""
    S = OSess(P, ob, op, D, N, **kw)
    start = S.build()
    cur = []
    root = f"{S.m}::cur_new"
    for st, tree in start:
        for o in S.call(st, root, [tree]):
            t = S.rty(root)
            x = o.st.new_obj(P.size(t), "cursor", info=t)
            S.I.write_place(o.st, Ptr(x, 0), t, o.ret)
            cur.append((o.st, tree, Ptr(x, 0), ()))
    for (lvl, nm), mode in zip(walk, modes):
        root = f"{S.m}::" + ("sel_" if mode == "c" else "sel_unchecked_") + str(lvl)
        idx = 0 if lvl == 0 else sym(nm, (1 << S.b) - 1)
        nxt = []
        for st, tree, cp, path in cur:
            path2 = () if lvl == 0 else path[:lvl - 1] + (idx,)
            if mode == "u" and lvl > 0:
                # contract: the node's bit is set in the operator's parent mask
                def legal(s):
                    p = canon_path(s, path2)
                    ok = True
                    for l in range(len(p)):
                        ok = ok and bool(s.facts.need(word_bit(s, S.spec.mask(s, p[:l]), p[l])))
                    return ok
                sts = [s for s, h in models.explore(S.I, st, legal) if h]
            else:
                sts = [st]
            for s in sts:
                for o in S.call(s, root, [cp, tree, idx]):
                    def fn(q, o=o):
                        p = canon_path(q, path2)
                        ex = S.spec.mask(q, p)
                        got = mask_val(S, q, o.ret)
                        for w, (a, b) in enumerate(zip(got, ex)):
                            if a is UNDEF or q.facts.need(eq(q.facts.norm(a), q.facts.norm(b))) != 1:
                                raise Violation("post", f"node {show_path(path2)} shows mask {show(a)}, expected {show(q.facts.norm(b))}")
                    n0 = len(S.ob.viol)
                    S.judge(o.st, root, fn, "selected mask")
                    if len(S.ob.viol) == n0:
                        nxt.append((o.st, tree, cp, path2))
        cur = nxt
    if final is None:
        return
    i = sym(f"i{D - 1}", (1 << S.b) - 1)
    root = f"{S.m}::cur_data" + ("_unchecked" if final == "u" else "")
    for st, tree, cp, path in cur:
        full = path + (i,)
        if final == "u":
            sts = [s for s, h in models.explore(S.I, st, lambda s: S.spec.has(s, canon_path(s, full))) if h]
        else:
            sts = [st]
        for s in sts:
            for o in S.call(s, root, [cp, tree, i]):
                for s2, got in S.results(o, root, f"{S.m}::it_cur"):
                    judge_data(S, s2, root, got, full, "cursor data")
