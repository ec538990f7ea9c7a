"""Representation invariant of SparseTree as an abstract shape, its abstraction function, and the
check that a post-state satisfies the invariant again.

An arbitrary well-formed tree of depth D and node width W:
  level 0 is one block inside the tree; level L >= 1 is a growable array of blocks.  Block 0 of every
  such array is empty.  The block of an existing path p has mask m[p] (not empty below the root); the
  child of a set bit i is the number of the block of p/i (terminal level: the entry number), never 0;
  the child of a clear bit is 0.  Two paths have two blocks.  The other blocks of the array form the
  free list: word 0 of each is the number of the next one, everything else is zero.
  length of the array = 1 + blocks in the tree + blocks in the free list.
  Entry d in [1,n): keys[d] is a stored key, values[d] its element, coordinates[d] = (number of the
  key's terminal block, last digit of the key); keys[0] = MAX, the three lists have one length.
"""
from terms import *
import mem
from mem import *
from dense import vec_layout, divc, MAXKEY, comp, compose
from interp import State


def nid(path):
    return "/".join(str(p.id) if is_t(p) else "#" + str(p) for p in path)


class SparseShape:
    allow_empty = False     # blocks left behind by an interrupted insertion

    def __init__(self, I, root):
        self.I = I
        P = self.P = I.p
        self.m = root
        self.tt = P.types[P.fns[P.byroot[f"{root}::get"]]["body"]["locals"][1]]["to"]
        vecs = []
        for o, ft in P.fields(self.tt):
            k = P.types[ft]["kind"]
            if k == "tuple" and P.size(ft):
                self.o_levels, self.t_levels = o, ft
            elif P.name(ft).startswith("std::vec::Vec<"):
                vecs.append((o, ft, P.types[ft]["args"][0]["ty"]))
        self.v = {}
        for o, ft, et in vecs:
            n = P.name(et)
            what = "keys" if n == "usize" else "where" if n == "(usize, usize)" else "values"
            lay = vec_layout(P, ft)
            self.v[what] = tuple(o + x for x in lay) + (P.size(et), et)
        if set(self.v) != {"keys", "values", "where"}:
            raise Unsupported("SparseTree no longer holds values, keys and coordinates lists")
        self.where_off = [P.field_off(self.v["where"][4], i) for i in (0, 1)]
        self.lv = []
        for L, (o, ft) in enumerate(P.fields(self.t_levels)):
            d = {"off": self.o_levels + o}
            for o2, t2 in P.fields(ft):
                nm = P.name(t2)
                if nm.startswith("std::vec::Vec<"):
                    d["vec"] = tuple(d["off"] + o2 + x for x in vec_layout(P, t2))
                    d["bt"] = P.types[t2]["args"][0]["ty"]
                elif nm == "u64":
                    d["free"] = d["off"] + o2
                else:
                    d["bt"] = t2
                    d["blk"] = d["off"] + o2
            for o3, t3 in P.fields(d["bt"]):
                if P.types[t3]["kind"] == "array":
                    d["och"], d["iw"] = o3, P.size(P.types[t3]["elem"])
                    self.W = P.types[t3]["len"]
                else:
                    d["om"] = o3
            d["bs"] = P.size(d["bt"])
            self.lv.append(d)
        self.D = len(self.lv)
        self.bits = self.W.bit_length() - 1
        self.nw = self.W // 64
        self.required = root.endswith("d")

    # ------------------------------------------------------------ building
    def build(self, st):
        f = st.facts
        u = st.user
        u["shape"] = self
        u["kids"] = {}                  # nid -> ((digit, path), ...)
        u["paths"] = {(): 0}            # known paths
        u["blocks"] = {}                # (level, path) -> block number
        u["elems"] = {L: () for L in range(self.D)}     # level -> ((number, oid), ...)
        u["dis"] = ()
        u["gkeys"] = ()
        n = u["n"] = sym("n", min((1 << 32) - 1, 1 + self.W ** self.D))
        f.assume(ge0(lsub(n, 1)), 1)
        t = st.new_obj(self.P.size(self.tt), "tree", TreeBase(self), info=self.tt)
        W = lambda o, v: st.store(Ptr(t, o), 8, v)
        objs = {}
        for what, base in (("values", ValBase(self)), ("keys", KeyBase(self)), ("where", WhereBase(self))):
            co, po, lo, es, _ = self.v[what]
            cap = sym("cap_" + what, 1 << 40)
            f.assume(ge0(lsub(cap, n)), 1)
            objs[what] = st.new_obj(lmul(cap, es), "vec", base, 8, what)
            W(co, cap)
            W(po, Ptr(objs[what], 0))
            W(lo, n)
        u["nb"] = {}
        u["cnt"] = {}
        for L in range(1, self.D):
            d = self.lv[L]
            it = sym(f"in_tree{L}", min(self.W ** L, (1 << 31)))
            fr = sym(f"free{L}", min(self.W ** L, (1 << 31)))
            nb = ladd(ladd(it, fr), 1)
            # blocks are only ever added while the free list is empty, so at most one per path plus the empty one
            f.assume(ge0(lsub(min(self.W ** L, (1 << 31)), ladd(it, fr))), 1)
            u["nb"][L] = nb
            u["cnt"][L] = (it, fr)
            cap = sym(f"cap{L}", 1 << 40)
            f.assume(ge0(lsub(cap, nb)), 1)
            a = st.new_obj(lmul(cap, d["bs"]), "array", UNDEF_BASE, self.P.types[d["bt"]]["align"], ("array", L))
            z = st.new_obj(d["bs"], "block", ZERO_BASE, 8, ("zero", L))
            u["elems"][L] = ((0, z),)
            objs[L] = a
            co, po, lo = d["vec"]
            W(co, cap)
            W(po, Ptr(a, 0))
            W(lo, nb)
        u["objs"] = objs
        u["tree"] = t
        f.oracles = f.oracles + [self.oracle]
        u["refiners"] = u.get("refiners", ()) + (self.refiner,)
        return Ptr(t, 0)

    def words(self, path):
        p = nid(path)
        ws = []
        for w in range(self.nw):
            s = sym(f"sm[{p}]#{w}", M64, True)
            PATHS[s] = (path, w)
            ws.append(s)
        return ws

    def bit_of(self, st, words, c):
        """getb term of digit c in a mask; picks the word"""
        f = st.facts
        c = f.norm(c)
        if self.nw == 1:
            return f._getb(f.norm(words[0]), c)
        hi = f.norm(bslice(c, 6, self.bits - 6))
        for w in range(self.nw):
            if not is_t(hi):
                if hi != w:
                    continue
            elif w < self.nw - 1 and not f.need(eq(hi, w)):
                continue
            return f._getb(f.norm(words[w]), f.norm(bslice(c, 0, 6)))

    def bit(self, st, path, c):
        """is there a child c under the block of path in the initial tree"""
        f = st.facts
        r = f.need(f.norm(self.bit_of(st, self.words(path), c)))
        if not r:
            # some path is absent on every level below: counting
            for L in range(len(path) + 1, self.D):
                it, fr = st.user["cnt"][L]
                if self.W ** L < (1 << 31):
                    f.assume(ge0(f.norm(lsub(self.W ** L - 1, it))), 1)
            if self.W ** self.D < (1 << 32):
                f.assume(ge0(f.norm(lsub(self.W ** self.D, st.user["n"]))), 1)
        return r

    def child(self, st, path, c):
        """canonical path of an existing child"""
        f = st.facts
        kids = st.user["kids"].get(nid(path), ())
        c = f.norm(c)
        for j, p in kids:
            if j is c or f.need(eq(c, f.norm(j))):
                return p
        p2 = path + (c,)
        t = 0
        for w in self.words(p2):
            t = ladd(t, pop(w))
        f.assume(ge0(f.norm(lsub(t, 1))), 1)
        st.user["kids"][nid(path)] = kids + ((c, p2),)
        st.user["paths"][p2] = len(p2)
        self.number(st, p2)
        return p2

    def number(self, st, path):
        """block number of an existing path (level >= 1); its memory is materialised with it"""
        f = st.facts
        L = len(path)
        b = st.user["blocks"].get((L, path))
        if b is None:
            lim = min(self.W ** L, (1 << (8 * self.lv[L - 1]["iw"])) - 1)
            b = sym(f"blk[{nid(path)}]", lim)
            f.assume(ge0(lsub(b, 1)), 1)
            f.assume(ge0(f.norm(lsub(lsub(st.user["nb"][L], 1), b))), 1)
            for j, _ in st.user["elems"][L]:
                if is_t(j):
                    f.assume(eq(b, f.norm(j)), 0)
            st.user["blocks"][(L, path)] = b
            oid = st.new_obj(self.lv[L]["bs"], "block", BlockBase(self, L, path), 8, ("block", L, path))
            st.user["elems"][L] += ((b, oid),)
        return b

    def free(self, st, L, k):
        """number of the k-th block of the free list, or MAX"""
        f = st.facts
        it, fr = st.user["cnt"][L]
        if f.need(eq(f.norm(fr), k)):
            return M64
        f.assume(ge0(f.norm(lsub(fr, k + 1))), 1)
        b = sym(f"free{L}[{k}]", min(self.W ** L, (1 << 31)))
        if not any(j is b for j, _ in st.user["elems"][L]):
            f.assume(ge0(lsub(b, 1)), 1)
            f.assume(ge0(f.norm(lsub(lsub(st.user["nb"][L], 1), b))), 1)
            for j, _ in st.user["elems"][L]:
                if is_t(j):
                    f.assume(eq(b, f.norm(j)), 0)
            oid = st.new_obj(self.lv[L]["bs"], "block", FreeBase(self, L, k), 8, ("free", L, k))
            st.user["elems"][L] += ((b, oid),)
        return b

    # ------------------------------------------------------------ arrays of blocks
    def resolve(self, st, o, p, size):
        """address inside an array of blocks -> address inside one block"""
        f = st.facts
        L = o.info[1]
        bs = self.lv[L]["bs"]
        off = f.norm(p.off)
        if is_t(size):
            raise Unsupported("access of a run of blocks")
        if not is_t(off):
            idx, inner = off // bs, off % bs
        else:
            c, ts = lin_of(off)
            idx = f.norm(lin_mk(c // bs, {t: k // bs for t, k in ts if k % bs == 0}))
            inner = f.norm(lin_mk(c % bs, {t: k for t, k in ts if k % bs}))
        if is_t(inner) or inner + size > bs:
            for c in (ge0(inner) if is_t(inner) else 1, ge0(f.norm(lsub(bs - size, inner)))):
                if not f.need(f.norm(c) if is_t(c) else c):
                    raise Violation("out-of-bounds", f"{size} bytes at offset {show(inner)} of a level {L} block of {bs} bytes")
        cap = divc_n(st, o.size, bs)
        if not f.need(ult(idx, f.norm(cap))):
            raise Violation("out-of-bounds", f"level {L} block number {show(idx)} outside the array")
        return Ptr(self.elem(st, L, idx), inner)

    def elem(self, st, L, idx):
        f = st.facts
        els = st.user["elems"][L]
        for j, oid in els:
            if j is idx or (not is_t(idx) and not is_t(j) and j == idx):
                return oid
        for j, oid in els:
            if f.need(eq(idx, f.norm(j))):
                return oid
        if f.need(ge0(f.norm(lsub(idx, st.user["nb"].get(L, 0))))):
            oid = st.new_obj(self.lv[L]["bs"], "block", UNDEF_BASE, 8, ("fresh", L))
            st.user["elems"][L] = els + ((idx, oid),)
            return oid
        raise Unsupported(f"level {L} block of unknown number {show(idx)}")

    # ------------------------------------------------------------ entries
    def keyterm(self, st, comps):
        return st.facts.norm(compose(comps, self.D, self.bits))

    def digit(self, k, l):
        return comp(k, l, self.D, self.bits)

    def di(self, st, path, i):
        """entry number of the stored key path/i"""
        f = st.facts
        comps = path + (f.norm(i),)
        key = self.keyterm(st, comps)
        if is_t(key) and key.op == "uf" and key.a[0] == "key":
            return key.a[1][0]
        for d, k, _ in st.user["dis"]:
            if f.need(eq(f.norm(k), key)):
                return d
        for j, k in st.user["gkeys"]:
            if f.need(eq(f.norm(k), key)):
                return f.norm(j)
        lim = min(self.W ** self.D, (1 << (8 * self.lv[-1]["iw"])) - 1)
        d = sym("entry[" + nid(comps) + "]", lim)
        n = st.user["n"]
        f.assume(ge0(lsub(d, 1)), 1)
        f.assume(ge0(f.norm(lsub(lsub(n, 1), d))), 1)
        for d2, _, _ in st.user["dis"]:
            f.assume(eq(d, f.norm(d2)), 0)
        for j, _ in st.user["gkeys"]:
            f.assume(eq(d, f.norm(j)), 0)
        st.user["dis"] += ((d, key, comps),)
        return d

    def key_at(self, st, j):
        f = st.facts
        j = f.norm(j)
        if f.need(eq(j, 0)):
            return MAXKEY
        if not f.need(ult(j, f.norm(st.user["n"]))):
            return UNDEF
        for d, k, _ in st.user["dis"]:
            if f.need(eq(j, f.norm(d))):
                return f.norm(k)
        for j2, k in st.user["gkeys"]:
            if f.need(eq(j, f.norm(j2))):
                return f.norm(k)
        k = uf("key", (j,), hi=(1 << (self.bits * self.D)) - 1)
        for _, k2, _ in st.user["dis"]:
            f.assume(eq(k, f.norm(k2)), 0)
        for _, k2 in st.user["gkeys"]:
            f.assume(eq(k, f.norm(k2)), 0)
        st.user["gkeys"] += ((j, k),)
        return k

    def val_at(self, st, j):
        f = st.facts
        j = f.norm(j)
        if f.need(eq(j, 0)):
            return uf("default", (0,)) if self.required else UNDEF
        if not f.need(ult(j, f.norm(st.user["n"]))):
            return UNDEF
        return uf("val", (j,))

    def path_of(self, st, key):
        """canonical path of the terminal block of a stored key"""
        path = ()
        for l in range(self.D - 1):
            c = st.facts.norm(self.digit(key, l))
            if not self.bit(st, path, c):
                raise Infeasible()
            path = self.child(st, path, c)
        return path

    def lookup(self, st, q):
        f = st.facts
        path = ()
        for l in range(self.D):
            c = f.norm(self.digit(q, l))
            if not self.bit(st, path, c):
                return (0, None, None)
            if l < self.D - 1:
                path = self.child(st, path, c)
            else:
                d = self.di(st, path, c)
                return (1, self.val_at(st, d), d)

    def node(self, st, digits):
        """canonical path of the node at these digits, None when absent"""
        path = ()
        for c in digits:
            if not self.bit(st, path, c):
                return None
            path = self.child(st, path, c)
        return path

    def oracle(self, f, m, i):
        """the path of every stored key is present"""
        pw = PATHS.get(m)
        if pw is None:
            return None
        path, w = pw
        lvl = len(path)
        k = source_key(i)
        if k is None or lvl >= self.D:
            return None
        c = self.digit(k, lvl)
        lo = bslice(c, 0, 6) if self.nw > 1 else c
        if lo is not i:
            return None
        if self.nw > 1 and not same_now(f, w, bslice(c, 6, self.bits - 6)):
            return None
        for q, x in enumerate(path):
            if not same_now(f, f.norm(x), self.digit(k, q)):
                return None
        return 1

    def refiner(self, st):
        f = st.facts
        ext = []
        for k in [k for _, k in st.user["gkeys"]] + [k for _, k, _ in st.user["dis"]]:
            for path, lvl in st.user["paths"].items():
                same = True
                for q, c in enumerate(path):
                    e = eq(f.norm(c), f.norm(self.digit(k, q)))
                    d = f.decide(e)
                    if d is None:
                        return e
                    if d == 0:
                        same = False
                        break
                if not same:
                    continue
                c = self.digit(k, lvl)
                w = 0
                if self.nw > 1:
                    hi = f.norm(bslice(c, 6, self.bits - 6))
                    for w in range(self.nw):
                        d = f.decide(eq(hi, w)) if is_t(hi) else int(hi == w)
                        if d is None:
                            return eq(hi, w)
                        if d:
                            break
                    c = bslice(c, 0, 6)
                m = self.words(path)[w]
                gg = f._getb(f.norm(m), f.norm(c))
                if is_t(gg):
                    f.assume(gg, 1)
                elif gg == 0:
                    raise Infeasible()
                if is_t(c):
                    ext.append(mk("getb", m, c, hi=1))
        f.extra = tuple(ext)
        return None

    # ------------------------------------------------------------ walking a post-state
    def vec(self, st, tree, what):
        co, po, lo = self.v[what][:3] if what in self.v else self.lv[what]["vec"]
        return st.load(Ptr(tree.obj, co), 8), st.load(Ptr(tree.obj, po), 8), st.load(Ptr(tree.obj, lo), 8)

    def block(self, st, tree, L, idx):
        d = self.lv[L]
        if L == 0:
            return Ptr(tree.obj, d["blk"])
        cap, p, n = self.vec(st, tree, L)
        if type(p) is not Ptr:
            raise Violation("rep", f"level {L} has no block memory")
        f = st.facts
        if idx is UNDEF or type(idx) is Ptr or not f.need(ult(f.norm(idx), f.norm(n))):
            raise Violation("rep", f"level {L} block number {idx!r} is outside the level's {show(f.norm(n))} blocks")
        return self.I.padd(st, p, f.norm(lmul(idx, d["bs"])))

    def masks(self, st, b, L):
        ws = [self.I.rd(st, self.I.padd(st, b, self.lv[L]["om"] + 8 * w), 8) for w in range(self.nw)]
        if any(w is UNDEF or type(w) is Ptr for w in ws):
            raise Violation("rep", f"level {L} block with an uninitialised mask")
        return [st.facts.norm(w) for w in ws]

    def slot(self, st, b, L, c):
        d = self.lv[L]
        v = self.I.rd(st, self.I.padd(st, b, st.facts.norm(ladd(d["och"], lmul(c, d["iw"])))), d["iw"])
        if v is UNDEF or type(v) is Ptr:
            raise Violation("rep", f"level {L} block with an uninitialised child")
        return st.facts.norm(v)

    def walk(self, st, tree, q, k=None):
        """follow key q in the memory of st: (present, value, entry, block numbers)"""
        f = st.facts
        idx = 0
        nums = []
        for l in range(self.D):
            b = self.block(st, tree, l, idx)
            ms = self.masks(st, b, l)
            if l:
                if not self.allow_empty and not any(f.need(eq(m, 0)) == 0 for m in ms):
                    raise Violation("empty", f"level {l} block without children left in the tree")
                self.check_place(st, l, idx, q, k)
            nums.append(idx)
            c = f.norm(self.digit(q, l))
            s = self.slot(st, b, l, c)
            if not f.need(f.norm(self.bit_of(st, ms, c))):
                if not f.need(eq(s, 0)):
                    raise Violation("rep", f"level {l} block: child {show(s)} under a clear mask bit")
                return 0, None, None, nums
            if f.need(eq(s, 0)):
                raise Violation("rep", f"level {l} block: no child under a set mask bit")
            idx = s
        vcap, vp, vn = self.vec(st, tree, "values")
        kcap, kp, kn = self.vec(st, tree, "keys")
        d = idx
        if not f.need(ult(d, f.norm(vn))):
            raise Violation("rep", f"a present key maps to entry {show(d)} of {show(f.norm(vn))}")
        key = self.I.rd(st, self.I.padd(st, kp, f.norm(lmul(d, 8))), 8)
        if key is UNDEF or not f.need(eq(f.norm(key), f.norm(q))):
            raise Violation("map", f"key {show(q)} maps to the entry of key {show(key) if is_t(key) else key!r}")
        v = self.I.rd(st, self.I.padd(st, vp, f.norm(lmul(d, 8))), 8)
        return 1, v, d, nums

    def owner(self, st, L, idx):
        f = st.facts
        idx = f.norm(idx)
        for j, oid in st.user["elems"][L]:
            if j is idx:
                return st.mem[oid].info
        for j, oid in st.user["elems"][L]:
            if f.need(eq(idx, f.norm(j))):
                return st.mem[oid].info
        raise Unsupported("block of unknown number")

    def check_place(self, st, l, idx, q, k):
        f = st.facts
        w = self.owner(st, l, idx)
        if w[0] == "zero":
            raise Violation("rep", f"the shared empty block hangs in the tree at level {l}")
        if w[0] == "block":
            path = w[2]
        elif k is None:
            raise Violation("rep", f"an unused level {l} block hangs in the tree")
        else:
            path = tuple(self.digit(k, x) for x in range(l))
        for a, x in zip(path, range(l)):
            if not f.need(eq(f.norm(a), f.norm(self.digit(q, x)))):
                raise Violation("rep", f"one level {l} block hangs at two places of the tree")

    def check_vecs(self, st, tree):
        f = st.facts
        n = None
        bufs = set()
        for what in ("values", "keys", "where"):
            cap, p, ln = self.vec(st, tree, what)
            if n is None:
                n = ln
            elif not f.need(eq(f.norm(ln), f.norm(n))):
                raise Violation("rep", f"{show(f.norm(n))} values but {show(f.norm(ln))} {what} entries")
            if type(p) is not Ptr or not st.mem[p.obj].alive or p.obj in bufs:
                raise Violation("rep", f"{what} list is not live memory of its own")
            bufs.add(p.obj)
            if not f.need(ge0(f.norm(lsub(cap, ln)))):
                raise Violation("rep", f"{what} length exceeds its capacity")
        if not f.need(ge0(f.norm(lsub(n, 1)))):
            raise Violation("rep", "the placeholder entry is gone")
        k0 = self.I.rd(st, self.vec(st, tree, "keys")[1], 8)
        if k0 != MAXKEY:
            raise Violation("rep", f"placeholder key is {k0!r}")
        if self.required:
            v0 = self.I.rd(st, self.vec(st, tree, "values")[1], 8)
            if v0 is UNDEF:
                raise Violation("rep", "the default element is not initialised")
        return n

    def check_entry(self, st, tree, n, k):
        """every entry belongs to the key it is filed under, and knows its place"""
        f = st.facts
        j = sym("j", (1 << 32) - 1)
        f.assume(ge0(lsub(j, 1)), 1)
        f.assume(ult(j, f.norm(n)), 1)
        key = self.I.rd(st, self.I.padd(st, self.vec(st, tree, "keys")[1], f.norm(lmul(j, 8))), 8)
        if key is UNDEF:
            raise Violation("rep", "an entry's key is uninitialised")
        r = self.walk(st, tree, f.norm(key), k)
        if not r[0]:
            raise Violation("map", f"entry of key {show(key)} is not reachable through the tree")
        if not f.need(eq(f.norm(r[2]), f.norm(j))):
            raise Violation("map", f"two entries for one key {show(key)}")
        wp = self.I.padd(st, self.vec(st, tree, "where")[1], f.norm(lmul(j, self.v["where"][3])))
        b = self.I.rd(st, self.I.padd(st, wp, self.where_off[0]), 8)
        i = self.I.rd(st, self.I.padd(st, wp, self.where_off[1]), 8)
        if b is UNDEF or not f.need(eq(f.norm(b), f.norm(r[3][-1]))):
            raise Violation("rep", f"entry of key {show(key)} records block {show(b) if is_t(b) else b!r}, it hangs in block {show(r[3][-1])}")
        if i is UNDEF or not f.need(eq(f.norm(i), f.norm(self.digit(key, self.D - 1)))):
            raise Violation("rep", f"entry of key {show(key)} records child {show(i) if is_t(i) else i!r}")

    def reached(self, st, tree, L, digits, idx):
        """does the path lead to block idx of level L in the post-state"""
        f = st.facts
        b = 0
        for l in range(L):
            p = self.block(st, tree, l, b)
            c = f.norm(digits[l])
            if not f.need(f.norm(self.bit_of(st, self.masks(st, p, l), c))):
                return False
            b = self.slot(st, p, l, c)
        return f.need(eq(f.norm(b), f.norm(idx))) == 1

    def check_zero(self, st, oid, L, what, link=False):
        f = st.facts
        d = self.lv[L]
        for w in range(self.nw):
            v = st.load(Ptr(oid, d["om"] + 8 * w), 8)
            if link and w == 0:
                lv = v
                continue
            if v is UNDEF or type(v) is Ptr or not f.need(eq(f.norm(v), 0)):
                raise Violation("rep", f"{what} of level {L} has a non-empty mask")
        c = sym("zc", self.W - 1)
        v = st.load(Ptr(oid, f.norm(ladd(d["och"], lmul(c, d["iw"])))), d["iw"])
        if v is UNDEF or type(v) is Ptr or not f.need(eq(f.norm(v), 0)):
            raise Violation("rep", f"{what} of level {L} has a child left")
        return f.norm(lv) if link else None

    def check_level(self, st, tree, L, k):
        """free list and block accounting of one level"""
        f = st.facts
        d = self.lv[L]
        cap, p, n = self.vec(st, tree, L)
        if type(p) is not Ptr or not st.mem[p.obj].alive:
            raise Violation("rep", f"level {L} block array is not live memory")
        if not f.need(ge0(f.norm(lsub(cap, n)))):
            raise Violation("rep", f"level {L} block count exceeds its capacity")
        nb = st.user["nb"][L]
        grown = f.need(eq(f.norm(n), f.norm(nb))) == 0
        if grown and not f.need(eq(f.norm(n), f.norm(ladd(nb, 1)))):
            raise Violation("rep", f"level {L} goes from {show(f.norm(nb))} to {show(f.norm(n))} blocks")
        head = f.norm(st.load(Ptr(tree.obj, d["free"]), 8))
        pushed = []
        popped = None
        for _ in range(3):
            for x in range(2):
                e = self.free(st, L, x)
                if f.need(eq(head, e)):
                    popped = x
                    break
                if e == M64 and not is_t(e):
                    break
            if popped is not None:
                break
            if head is UNDEF or not f.need(ult(head, f.norm(n))):
                raise Violation("rep", f"the free list of level {L} continues at block {show(head)}")
            w = self.owner(st, L, head)
            oid = next(o for j, o in st.user["elems"][L] if st.mem[o].info == w)
            if w[0] != "block" or oid in pushed:
                raise Violation("rep", f"the free list of level {L} runs into {'the empty block' if w[0] == 'zero' else 'an unexpected block'}")
            pushed.append(oid)
            head = self.check_zero(st, oid, L, "a freed block", link=True)
        if popped is None:
            raise Violation("rep", f"the free list of level {L} is broken")
        digits = tuple(f.norm(self.digit(k, x)) for x in range(L)) if k is not None else None
        for j, oid in st.user["elems"][L]:
            w = st.mem[oid].info
            if w[0] == "zero":
                self.check_zero(st, oid, L, "the shared empty block")
            elif w[0] == "block":
                r = self.reached(st, tree, L, w[2], j)
                if r and oid in pushed:
                    raise Violation("rep", f"a level {L} block of the tree is in the free list")
                if not r and oid not in pushed:
                    raise Violation("leak", f"a level {L} block is neither in the tree nor in the free list")
            elif w[0] == "free":
                if w[2] < popped:
                    if digits is None or not self.reached(st, tree, L, digits, j):
                        raise Violation("leak", f"a level {L} block was taken off the free list and not used")
                else:
                    lk = self.check_zero(st, oid, L, "a free block", link=True)
                    if not f.need(eq(lk, self.free(st, L, w[2] + 1))):
                        raise Violation("rep", f"a free block of level {L} no longer links to the next")
            elif w[0] == "fresh":
                if not grown or f.need(eq(f.norm(j), f.norm(nb))) != 1:
                    raise Violation("rep", f"writes beyond the blocks of level {L}")
                if popped or f.need(eq(f.norm(st.user["cnt"][L][1]), 0)) != 1:
                    raise Violation("rep", f"level {L} grows although it has free blocks")
                if digits is None or not self.reached(st, tree, L, digits, j):
                    raise Violation("leak", f"a new level {L} block is not part of the tree")
        if grown and not any(st.mem[o].info[0] == "fresh" for _, o in st.user["elems"][L]):
            raise Violation("rep", f"level {L} grows by a block that is never written")

    def check_heap(self, st, tree):
        bufs = set()
        for what in list(self.v) + list(range(1, self.D)):
            q = self.vec(st, tree, what)[1]
            if type(q) is Ptr:
                bufs.add(q.obj)
        for oid, o in list(st.mem.items()):
            if o.alive and o.kind in ("heap", "vec", "array") and oid not in bufs:
                raise Violation("leak", f"a {o.kind} buffer is neither used nor freed")


PATHS = {}


def same_now(f, a, b):
    b = f.norm(b)
    return a is b or (not is_t(a) and not is_t(b) and a == b)


def source_key(i):
    """the generic stored key i is a digit (or part of a digit) of"""
    if not is_t(i):
        return None
    k = i
    if i.op == "cat" and len(i.a[0]) == 1:
        k = i.a[0][0][0]
    if k is not None and is_t(k) and k.op == "uf" and k.a[0] == "key":
        return k
    return None


def divc_n(st, t, k):
    t = st.facts.norm(t)
    if not is_t(t):
        return t // k
    c, ts = lin_of(t)
    if c % k or any(x % k for _, x in ts):
        raise Unsupported("array size is not a multiple of the block size")
    return lin_mk(c // k, {q: x // k for q, x in ts})


class TreeBase(mem.Base):
    """the part of the tree object that is not list headers: root block, free list heads"""

    def __init__(self, s):
        self.s = s

    def read(self, st, off, size):
        s = self.s
        f = st.facts
        if not is_t(off):
            for L in range(1, s.D):
                if off == s.lv[L]["free"] and size == 8:
                    return s.free(st, L, 0)
        b = s.lv[0]["blk"]
        lo = f.norm(lsub(off, b))
        if not is_t(lo):
            if 0 <= lo < s.lv[0]["bs"]:
                return BlockBase(s, 0, ()).read(st, lo, size)
            return UNDEF
        if f.need(ge0(lo)) and f.need(ge0(f.norm(lsub(s.lv[0]["bs"] - size, lo)))):
            return BlockBase(s, 0, ()).read(st, lo, size)
        return UNDEF


class BlockBase(mem.Base):
    def __init__(self, s, L, path):
        self.s, self.L, self.path = s, L, path

    def word(self, st, w):
        return self.s.words(self.path)[w]

    def kid(self, st, c):
        s = self.s
        if not s.bit(st, self.path, c):
            return 0
        if self.L == s.D - 1:
            return s.di(st, self.path, c)
        return s.number(st, s.child(st, self.path, c))

    def read(self, st, off, size):
        s, f = self.s, st.facts
        d = s.lv[self.L]
        om, och, iw = d["om"], d["och"], d["iw"]
        off = f.norm(off)
        m = f.norm(lsub(off, om))
        if not is_t(m):
            inm = 0 <= m < 8 * s.nw
        else:
            inm = f.need(ge0(m)) and f.need(ge0(f.norm(lsub(8 * s.nw - size, m))))
        if inm:
            if size % 8:
                raise Unsupported("partial mask access")
            for w in range(s.nw):
                if (not is_t(m) and m == 8 * w) or (is_t(m) and f.need(eq(m, 8 * w))):
                    v = [self.word(st, w + x) for x in range(size // 8)]
                    return v[0] if size == 8 else cat_mk([g for x in v for g in segs_of(x, 64)])
            raise Unsupported("unaligned mask access")
        b = f.norm(lsub(off, och))
        if size != iw:
            raise Unsupported("odd access to a block's children")
        c = divc(st, b, iw)
        if not f.need(ge0(c) if is_t(c) else int(c >= 0)) or not f.need(ge0(f.norm(lsub(s.W - 1, c)))):
            return UNDEF
        return self.kid(st, c)


class FreeBase(BlockBase):
    def __init__(self, s, L, k):
        self.s, self.L, self.k = s, L, k

    def word(self, st, w):
        return self.s.free(st, self.L, self.k + 1) if w == 0 else 0

    def kid(self, st, c):
        return 0


class ValBase(mem.Base):
    def __init__(self, s):
        self.s = s

    def read(self, st, off, size):
        if size != self.s.v["values"][3]:
            raise Unsupported("partial element access")
        return self.s.val_at(st, divc(st, off, size))


class KeyBase(mem.Base):
    def __init__(self, s):
        self.s = s

    def read(self, st, off, size):
        if size != 8:
            raise Unsupported("partial key access")
        return self.s.key_at(st, divc(st, off, 8))


class WhereBase(mem.Base):
    def __init__(self, s):
        self.s = s

    def read(self, st, off, size):
        s, f = self.s, st.facts
        if size != 8:
            raise Unsupported("partial coordinate access")
        off = f.norm(off)
        es = s.v["where"][3]
        if is_t(off):
            c, ts = lin_of(off)
        else:
            c, ts = off, ()
        which = s.where_off.index(c % es)
        j = divc(st, f.norm(lsub(off, c % es)), es)
        j = f.norm(j)
        if f.need(eq(j, 0)):
            return 0
        key = s.key_at(st, j)
        if key is UNDEF:
            return UNDEF
        path = s.path_of(st, key)
        if which == 1:
            return f.norm(s.digit(key, s.D - 1))
        return s.number(st, path) if s.D > 1 else 0
