"""Representation invariant of DenseTree as an abstract shape, its abstraction function, and the
check that a post-state satisfies the invariant again."""
from terms import *
import mem
from mem import *
from models import explore
from interp import State

MAXKEY = M64


def vec_layout(P, t):
    """offsets of (cap, ptr, len) inside a Vec type"""
    off, rt = P.field_by_name(t, "buf")
    o2, it = P.field_by_name(rt, "inner")
    co, ct = P.field_by_name(it, "cap")
    po, pt = P.field_by_name(it, "ptr")
    lo, _ = P.field_by_name(t, "len")
    return off + o2 + co + P.leaves(ct)[0][0], off + o2 + po + P.leaves(pt)[0][0], lo


class DenseShape:
    """Arbitrary tree of depth D satisfying the invariant:
      node: mask m, len = |m|+1, capacity >= len; child slot rank(m,i) belongs to set bit i;
            slot |m| holds the empty node of the next level (inner) or 0 (terminal);
            |m| >= 1 except in the root
      terminal child of bit i: an index d in [1,n) with keys[d] = the key spelled by the path
      keys[0] = MAX, keys and data have the same length n >= 1, every keys[j] (j>=1) is a stored key
    """

    allow_empty = False     # nodes left behind by an interrupted insertion

    def __init__(self, I, D):
        self.I = I
        self.D = D
        self.popcap = None      # at most this many children per node (bounded obligations)
        P = I.p
        self.P = P
        self.tt = next(i for i, t in enumerate(P.types) if t["name"] == f"hibit_tree::DenseTree<V, {D}>" or t["name"].endswith(f"::DenseTree<vharness::V, {D}>"))
        fs = P.types[self.tt]["variants"][0][2]
        self.f_root = self.f_data = self.f_keys = None
        for i, (n, ft) in enumerate(fs):
            nm = P.name(ft)
            off = P.field_off(self.tt, i)
            if nm.startswith("std::vec::Vec<usize"):
                self.f_keys, self.t_keys = off, ft
            elif nm.startswith("std::vec::Vec<"):
                self.f_data, self.t_data = off, ft
            elif P.size(ft) == 8:
                self.f_root, self.t_root = off, ft
        self.hdr = I.pointee(self.t_root)
        h = P.fields_named(self.hdr)
        self.o_mask = self.o_cap = self.o_len = None
        u8s = []
        for n, (o, ft) in h.items():
            if P.name(ft) == "u64":
                self.o_mask = o
            elif P.name(ft) == "u8":
                u8s.append((n, o))
            else:
                self.o_ch = o
        d = dict(u8s)
        self.o_cap = d.get("capacity", u8s[0][1])
        self.o_len = d.get("len", u8s[1][1])
        self.dv = vec_layout(P, self.t_data)
        self.kv = vec_layout(P, self.t_keys)

    # ------------------------------------------------------------ building
    def build(self, st, tag=""):
        """a symbolic tree; returns Ptr to the tree object"""
        f = st.facts
        self.cur = None
        st.user["nodes"] = {}          # oid -> (level, path terms)
        st.user["kids"] = {}           # oid -> ((idx, child),...)
        st.user["dis"] = ()            # ((d, key, path+idx), ...)
        st.user["gkeys"] = ()          # (j, uf key)
        st.user["n"] = n = sym("n" + tag, (1 << 32) - 1)
        f.assume(ge0(lsub(n, 1)), 1)
        t = st.new_obj(self.P.size(self.tt), "tree", info=self.tt)
        dcap, kcap = sym("dcap" + tag, 1 << 40), sym("kcap" + tag, 1 << 40)
        f.assume(ge0(lsub(dcap, n)), 1)
        f.assume(ge0(lsub(kcap, n)), 1)
        es = self.P.size(self.P.types[self.t_data]["args"][0]["ty"])
        do = st.new_obj(lmul(dcap, es), "vec", DataBase(self, es), 8, "data")
        ko = st.new_obj(lmul(kcap, 8), "vec", KeysBase(self), 8, "keys")
        root = self.new_node(st, 0, ())
        st.user["objs"] = (t, do, ko, root)
        W = lambda o, v: st.store(Ptr(t, o), 8, v)
        W(self.f_root, Ptr(root, 0))
        for base, (co, po, lo), o, cap in ((self.f_data, self.dv, do, dcap), (self.f_keys, self.kv, ko, kcap)):
            W(base + co, cap)
            W(base + po, Ptr(o, 0))
            W(base + lo, n)
        f.oracles = f.oracles + [self.oracle_for(st)]
        st.user["refiners"] = st.user.get("refiners", ()) + (self.refiner,)
        return Ptr(t, 0)

    def width(self, level):
        return 4 if level == self.D - 1 else 8

    def node_size(self, st, level, cap):
        f = st.facts
        w = self.width(level)
        x = f.add(f.mul(cap, w, 64), self.o_ch, 64)
        return f.bitop("and", f.add(x, 7, 64), M64 ^ 7, 64)

    def new_node(self, st, level, path):
        nid = "/".join(str(p.id) if is_t(p) else "#" + str(p) for p in path)
        m = sym(f"m[{nid}]", M64, True)
        cap = sym(f"c[{nid}]", 128)
        f = st.facts
        if level > 0:
            f.assume(ge0(lsub(pop(m), 1)), 1)
        f.assume(ge0(lsub(cap, ladd(pop(m), 1))), 1)
        if self.popcap is not None:
            f.assume(ge0(lsub(self.popcap, pop(m))), 1)
        oid = st.new_obj(None, "node", NodeBase(self, m, cap, level), 8, ("node", level, path))
        st.mem[oid].size = self.node_size(st, level, cap)
        st.user["nodes"][oid] = (level, path)
        st.user["kids"][oid] = ()
        return oid

    def mask_of(self, path):
        nid = "/".join(str(p.id) if is_t(p) else "#" + str(p) for p in path)
        return sym(f"m[{nid}]", M64, True)

    def oracle_for(self, st0):
        D = self.D
        shape = self

        def orc(f, m, i):
            # the path of every stored key is present
            if not (is_t(m) and m.op == "sym" and isinstance(m.a[0], str) and m.a[0].startswith("m[")):
                return None
            path = f_paths(m)
            if path is None:
                return None
            lvl = len(path)
            k = key_source(i, lvl, D)
            if k is None:
                return None
            for q, c in enumerate(path):
                cc = f.norm(c)
                if not eq_now(f, cc, comp(k, q, D)):
                    return None
            return 1
        return orc

    def refiner(self, st):
        """the path of every known stored key exists: relate the keys to the nodes looked at"""
        f = st.facts
        ext = []
        for k in [k for _, k in st.user["gkeys"]] + [k for _, k, _ in st.user["dis"]]:
            for oid, (lvl, path) in st.user["nodes"].items():
                same = True
                for q, c in enumerate(path):
                    e = eq(f.norm(c), f.norm(comp(k, q, self.D)))
                    d = f.decide(e)
                    if d is None:
                        return e
                    if d == 0:
                        same = False
                        break
                if same:
                    m = self.mask_of(path)
                    g = mk("getb", m, comp(k, lvl, self.D), hi=1) if is_t(comp(k, lvl, self.D)) else None
                    gg = f._getb(f.norm(m), f.norm(comp(k, lvl, self.D)))
                    if is_t(gg):
                        f.assume(gg, 1)
                    elif gg == 0:
                        raise Infeasible()
                    if g is not None:
                        ext.append(g)
        f.extra = tuple(ext)
        return None

    def learn_empty(self):
        """addresses of the shared empty nodes, from what the default tree stores"""
        self.empties = {}
        I = self.I
        st = State()
        fid = self.P.byroot[f"dense{self.D}::new"]
        I.start(st, fid, [])
        outs = I.run(st)
        outs = [o for o in outs if o.kind == "ret"]
        if len(outs) != 1:
            raise Unsupported("default tree has several outcomes")
        o = outs[0]
        self.default_out = o
        p = o.ret.at(self.f_root)
        for l in range(1, self.D):
            s = I.rd(o.st, I.padd(o.st, p, self.o_ch), 8)
            if type(s) is not Ptr or s.obj[0] != "a":
                raise Unsupported("default root does not hold the shared empty node")
            self.empties[l] = s
            p = s

    def empty_child(self, st, level):
        if level == self.D - 1:
            return 0
        p = self.empties[level + 1]
        if p.obj not in st.mem:
            self.I.alloc_ptr(st, p.obj[1], 0)
        return p

    # ------------------------------------------------------------ reading the abstract node
    def child(self, st, oid, i):
        """object of the child under set bit i of a symbolic inner node"""
        f = st.facts
        kids = st.user["kids"][oid]
        for j, c in kids:
            e = f.need(eq(f.norm(i), f.norm(j)))
            if e:
                return c
        level, path = st.user["nodes"][oid]
        p2 = path + (i,)
        register_path(self.mask_of(p2), p2)
        c = self.new_node(st, level + 1, p2)
        st.user["kids"][oid] = kids + ((i, c),)
        return c

    def keyterm(self, st, comps):
        return st.facts.norm(compose(comps, self.D))

    def di(self, st, oid, i):
        """data index stored under set bit i of a symbolic terminal node"""
        f = st.facts
        level, path = st.user["nodes"][oid]
        comps = path + (i,)
        key = self.keyterm(st, comps)
        if is_t(key) and key.op == "uf" and key.a[0] == "key":
            return key.a[1][0]
        for d, k, _ in st.user["dis"]:
            if f.need(eq(f.norm(k), key)):
                return d
        for j, k in st.user["gkeys"]:
            if f.need(eq(f.norm(k), key)):
                return f.norm(j)
        d = sym("di[" + "/".join(str(c.id) if is_t(c) else "#" + str(c) for c in comps) + "]", (1 << 32) - 1)
        n = st.user["n"]
        f.assume(ge0(lsub(d, 1)), 1)
        f.assume(ge0(f.norm(lsub(lsub(n, 1), d))), 1)
        for d2, k2, _ in st.user["dis"]:
            self.assume_ne(st, d, d2)
        for j, k2 in st.user["gkeys"]:
            self.assume_ne(st, d, j)
        st.user["dis"] = st.user["dis"] + ((d, key, comps),)
        return d

    def assume_ne(self, st, a, b):
        st.facts.assume(eq(st.facts.norm(a), st.facts.norm(b)), 0)

    def key_at(self, st, j):
        f = st.facts
        j = f.norm(j)
        if f.need(eq(j, 0)):
            return MAXKEY
        if not f.need(ult(j, f.norm(st.user["n"]))):
            return UNDEF
        for d, k, _ in st.user["dis"]:
            if f.need(eq(j, f.norm(d))):
                return f.norm(k)
        for j2, k in st.user["gkeys"]:
            if f.need(eq(j, f.norm(j2))):
                return f.norm(k)
        k = uf("key", (j,), hi=(1 << (6 * self.D)) - 1)
        for d, k2, _ in st.user["dis"]:
            f.assume(eq(k, f.norm(k2)), 0)
        for j2, k2 in st.user["gkeys"]:
            f.assume(eq(k, f.norm(k2)), 0)
        st.user["gkeys"] = st.user["gkeys"] + ((j, k),)
        return k

    def val_at(self, st, j):
        f = st.facts
        j = f.norm(j)
        if f.need(eq(j, 0)):
            return UNDEF
        if not f.need(ult(j, f.norm(st.user["n"]))):
            return UNDEF
        return uf("val", (j,))

    def lookup(self, st, q):
        """abstraction function of the initial tree: (present, value term, data index)"""
        f = st.facts
        oid = st.user["objs"][3]
        for l in range(self.D):
            c = f.norm(comp(q, l, self.D))
            m = f.norm(self.mask_of(st.user["nodes"][oid][1]))
            if not f.need(f._getb(m, c)):
                return (0, None, None)
            if l < self.D - 1:
                oid = self.child(st, oid, c)
            else:
                d = self.di(st, oid, c)
                return (1, self.val_at(st, d), d)

    # ------------------------------------------------------------ walking a post-state
    def hdr_of(self, st, I, p):
        mask = st.facts.norm(I.rd(st, I.padd(st, p, self.o_mask), 8))
        cap = st.facts.norm(I.rd(st, I.padd(st, p, self.o_cap), 1))
        ln = st.facts.norm(I.rd(st, I.padd(st, p, self.o_len), 1))
        return mask, cap, ln

    def check_node(self, st, I, p, level, isroot):
        """node-local part of the invariant; returns mask"""
        f = st.facts
        if type(p) is not Ptr:
            raise Violation("rep", f"level {level} child is not a node pointer: {p!r}")
        o = st.mem.get(p.obj)
        if o is None or not o.alive:
            raise Violation("rep", f"reachable level {level} node was freed")
        if o.kind not in ("node", "heap"):
            raise Violation("rep", f"reachable level {level} child is {o.kind} memory")
        mask, cap, ln = self.hdr_of(st, I, p)
        pc = f.expand(f._pop(mask))
        if not f.need(eq(f.norm(ln), f.norm(ladd(pc, 1)))):
            raise Violation("rep", f"level {level} node: len {show(ln)} for {show(pc)} children (must be one more)")
        if not f.need(ge0(f.norm(lsub(cap, ln)))):
            raise Violation("rep", f"level {level} node: capacity {show(cap)} below len {show(ln)}")
        if not isroot and not self.allow_empty and not f.need(ge0(f.norm(lsub(pc, 1)))):
            raise Violation("empty", f"level {level} node without children left in the tree")
        if o.size is not None:
            # the allocation is what freeing will compute from the capacity
            want = f.norm(self.node_size(st, level, cap))
            if f.need(eq(f.norm(o.size), want)) != 1:
                raise Violation("rep", f"level {level} node: allocated {show(o.size)} bytes, capacity {show(cap)} implies {show(want)}")
        # sentinel
        w = self.width(level)
        s = I.rd(st, I.padd(st, p, f.norm(ladd(self.o_ch, lmul(pc, w)))), w)
        if level == self.D - 1:
            if s is UNDEF or type(s) is Ptr or not f.need(eq(f.norm(s), 0)):
                raise Violation("rep", f"terminal node: slot after the last child is {s!r}, not 0")
        else:
            self.check_empty(st, I, s, level + 1)
        return mask, pc

    def check_empty(self, st, I, p, level):
        """p is an empty node usable at `level`: mask 0, and a chain down to the terminal level"""
        for l in range(level, self.D):
            if type(p) is not Ptr or p.obj not in st.mem or st.mem[p.obj].kind != "const":
                raise Violation("rep", f"slot after the last child does not hold the shared empty node of level {level}: {p!r}")
            m = I.rd(st, I.padd(st, p, self.o_mask), 8)
            if m != 0:
                raise Violation("rep", "empty node with a non-empty mask")
            w = self.width(l)
            s = I.rd(st, I.padd(st, p, self.o_ch), w)
            if l == self.D - 1:
                if s != 0:
                    raise Violation("rep", f"terminal empty node of level {l} maps to data index {s!r}, not 0")
            p = s

    def slot(self, st, I, p, level, mask, i):
        f = st.facts
        w = self.width(level)
        r = f.expand(f._rank(mask, f.norm(i)))
        return I.rd(st, I.padd(st, p, f.norm(ladd(self.o_ch, lmul(r, w)))), w)

    def vec(self, st, tree, base, v):
        return (st.load(Ptr(tree.obj, base + v[0]), 8), st.load(Ptr(tree.obj, base + v[1]), 8), st.load(Ptr(tree.obj, base + v[2]), 8))

    def walk(self, st, I, tree, q, check=True):
        """follow key q in the memory of st: (present, value, data index, nodes)"""
        f = st.facts
        p = st.load(Ptr(tree.obj, self.f_root), 8)
        nodes = []
        for l in range(self.D):
            mask, pc = self.check_node(st, I, p, l, l == 0)
            nodes.append(p)
            self.check_place(st, p, l, q)
            c = f.norm(comp(q, l, self.D))
            if not f.need(f._getb(mask, c)):
                return 0, None, None, nodes
            s = self.slot(st, I, p, l, mask, c)
            if l < self.D - 1:
                p = s
            else:
                if s is UNDEF or type(s) is Ptr:
                    raise Violation("rep", "terminal slot holds no data index")
                return self.entry(st, I, tree, q, s, nodes)

    def entry(self, st, I, tree, q, d, nodes):
        f = st.facts
        dcap, dp, dl = self.vec(st, tree, self.f_data, self.dv)
        kcap, kp, kl = self.vec(st, tree, self.f_keys, self.kv)
        d = f.norm(d)
        if not f.need(ge0(f.norm(lsub(d, 1)))) or not f.need(ult(d, f.norm(dl))):
            raise Violation("rep", f"terminal slot of a present key holds data index {show(d)} outside 1..{show(f.norm(dl))}")
        k = I.rd(st, I.padd(st, kp, f.norm(lmul(d, 8))), 8)
        if k is UNDEF or not f.need(eq(f.norm(k), f.norm(q))):
            raise Violation("map", f"terminal slot of key {show(q)} points at the entry of key {show(k) if is_t(k) else k!r}")
        v = I.rd(st, I.padd(st, dp, f.norm(lmul(d, 8))), 8)
        return 1, v, d, nodes

    def check_vecs(self, st, I, tree):
        f = st.facts
        dcap, dp, dl = self.vec(st, tree, self.f_data, self.dv)
        kcap, kp, kl = self.vec(st, tree, self.f_keys, self.kv)
        if not f.need(eq(f.norm(dl), f.norm(kl))):
            raise Violation("rep", f"{show(dl)} data entries but {show(kl)} keys")
        if not f.need(ge0(f.norm(lsub(dl, 1)))):
            raise Violation("rep", "the placeholder entry is gone")
        for p, cap, what in ((dp, dcap, "data"), (kp, kcap, "keys")):
            if type(p) is not Ptr or not st.mem[p.obj].alive:
                raise Violation("rep", f"{what} buffer is not live memory")
            if not f.need(ge0(f.norm(lsub(cap, dl)))):
                raise Violation("rep", f"{what} length exceeds its capacity")
        k0 = I.rd(st, kp, 8)
        if k0 is UNDEF or is_t(k0) or k0 != MAXKEY:
            if not (is_t(k0) and f.decide(ge0(lsub(k0, 1 << (6 * self.D)))) == 1):
                raise Violation("rep", f"placeholder key is {k0!r}: equal to a possible index")


    def check_place(self, st, p, level, q):
        """no node is shared between two places"""
        f = st.facts
        own = st.user["nodes"].get(p.obj)
        if own is None:
            own = st.user.setdefault("places", {}).setdefault(p.obj, (level, tuple(f.norm(comp(q, l, self.D)) for l in range(level))))
        if own[0] != level:
            raise Violation("rep", f"a level {own[0]} node hangs at level {level}")
        for l in range(level):
            if not f.need(eq(f.norm(own[1][l]), f.norm(comp(q, l, self.D)))):
                raise Violation("rep", f"one level {level} node hangs at two places of the tree")

    def check_heap(self, st, I, tree, k):
        """every node allocation that is alive hangs at its place in the tree; nothing else is left over"""
        f = st.facts
        nodes = {}
        p = st.load(Ptr(tree.obj, self.f_root), 8)
        if k is not None:
            r = self.walk(st, I, tree, k)
            for l, q in enumerate(r[3]):
                nodes[q.obj] = l
        bufs = set()
        for base, v in ((self.f_data, self.dv), (self.f_keys, self.kv)):
            q = self.vec(st, tree, base, v)[1]
            if type(q) is Ptr:
                if q.obj in bufs:
                    raise Violation("rep", "keys and data share one buffer")
                bufs.add(q.obj)
        for oid, o in list(st.mem.items()):
            if not o.alive or oid in bufs:
                continue
            if o.kind == "heap":
                if oid not in nodes:
                    raise Violation("leak", f"memory allocated by the operation ({show(o.size)} bytes) is not part of the tree")
            elif o.kind == "vec":
                raise Violation("leak", "an element buffer is neither used nor freed")
            elif o.kind == "node" and oid in st.user["nodes"]:
                level, path = st.user["nodes"][oid]
                q = p
                for l in range(level):
                    mask = f.norm(I.rd(st, I.padd(st, q, self.o_mask), 8))
                    c = f.norm(path[l])
                    if not f.need(f._getb(mask, c)):
                        raise Violation("leak", f"a level {level} node is no longer reachable but was not freed")
                    q = self.slot(st, I, q, l, mask, c)
                if type(q) is not Ptr or q.obj != oid:
                    raise Violation("leak", f"a level {level} node was replaced but not freed")

class NodeBase(mem.Base):
    def __init__(self, shape, m, cap, level):
        self.s = shape
        self.m = m
        self.capt = cap
        self.level = level

    def read(self, st, off, size):
        s = self.s
        f = st.facts
        if not is_t(off):
            if off == s.o_mask and size == 8:
                return self.m
            if off == s.o_cap and size == 1:
                return self.capt
            if off == s.o_len and size == 1:
                return ladd(pop(self.m), 1)
            if off < s.o_ch:
                return UNDEF
        w = s.width(self.level)
        if size != w:
            raise Unsupported("odd access to a node's children")
        b = f.norm(lsub(off, s.o_ch))
        if is_t(b):
            c, ts = lin_of(b)
            if c % w or any(k % w for _, k in ts):
                raise Unsupported("unaligned child access")
            p = lin_mk(c // w, {t: k // w for t, k in ts})
        else:
            if b % w:
                raise Unsupported("unaligned child access")
            p = b // w
        p = f.expand(p)
        m = f.norm(self.m)
        P = f._pop(m)
        oid = next((o for o, (l, pa) in st.user["nodes"].items() if l == self.level and s.mask_of(pa) is self.m), None)
        d = f.norm(lsub(lsub(P, 1), p))
        if not f.need(ge0(d)):
            if f.need(eq(f.norm(p), P)):
                return s.empty_child(st, self.level)
            return UNDEF
        # which set bit is the p-th
        if is_t(p) and p.op == "rank" and p.a[0] is m:
            i = p.a[1]
            g = f.need(f._getb(m, i))
            if g:
                idx = i
            else:
                idx = mk("nth", m, p, hi=63)
                f.assume(ge0(lsub(lsub(idx, i), 1)), 1)
        else:
            idx = f.norm(mk("nth", m, p, hi=63)) if is_t(m) else nth_const(m, p)
        if self.level == s.D - 1:
            return s.di(st, oid, idx)
        return Ptr(s.child(st, oid, idx), 0)


def nth_const(m, p):
    from facts import nth_c
    return nth_c(m, p)


class DataBase(mem.Base):
    def __init__(self, s, es):
        self.s = s
        self.es = es

    def read(self, st, off, size):
        if size != self.es:
            raise Unsupported("partial element access")
        return self.s.val_at(st, divc(st, off, self.es))


class KeysBase(mem.Base):
    def __init__(self, s):
        self.s = s

    def read(self, st, off, size):
        if size != 8:
            raise Unsupported("partial key access")
        return self.s.key_at(st, divc(st, off, 8))


def divc(st, off, k):
    off = st.facts.norm(off)
    if not is_t(off):
        if off % k:
            raise Unsupported("unaligned element access")
        return off // k
    c, ts = lin_of(off)
    if c % k or any(x % k for _, x in ts):
        if off.op == "cat" and off.a[0][0][1] is None and off.a[0][0][2] >= k.bit_length() - 1:
            return shr_c(off, k.bit_length() - 1, 64)
        raise Unsupported("unaligned element access")
    return lin_mk(c // k, {t: x // k for t, x in ts})


# ---------------------------------------------------------------- keys and components
_paths = {}


def register_path(m, path):
    _paths[m] = path


def f_paths(m):
    if m.a[0] == "m[]":
        return ()
    return _paths.get(m)


def comp(k, level, D, bits=6):
    return bslice(k, bits * (D - 1 - level), bits)


def compose(comps, D, bits=6):
    segs = []
    for l in range(D - 1, -1, -1):
        segs += segs_of(comps[l], bits)
    return cat_mk(segs)


def key_source(i, level, D):
    """the generic stored key whose level component is i"""
    if not is_t(i):
        return None
    k = None
    if i.op == "cat" and len(i.a[0]) == 1:
        k = i.a[0][0][0]
    elif i.op == "uf" and D == 1:
        k = i
    if k is not None and is_t(k) and k.op == "uf" and k.a[0] == "key" and comp(k, level, D) is i:
        return k
    return None


def eq_now(f, a, b):
    b = f.norm(b)
    if a is b or (not is_t(a) and not is_t(b) and a == b):
        return True
    return False
