"""C09: cursors over the concrete containers show the honest node masks and elements, whatever was selected before."""
from terms import *
from mem import *
import models
from obl import *
import opschk
from opschk import walks
import dense
import densechk
import sparsechk
from densechk import DSess, no_effects, judge_ref, opt_ref


class DenseT:
    """what a cursor over an arbitrary well-formed DenseTree must show"""

    def __init__(self, P, ob, D):
        self.S = DSess(P, ob, D)
        self.m = self.S.m
        self.bits = 6
        self.tree = self.S.fresh()
        self.st = self.S.st

    def node(self, s, path):
        sh = self.S.sh
        f = s.facts
        oid = s.user["objs"][3]
        for l, i in enumerate(path):
            if not f.need(f._getb(f.norm(sh.mask_of(s.user["nodes"][oid][1])), f.norm(i))):
                return None
            oid = sh.child(s, oid, f.norm(i))
        return oid

    def mask(self, s, path):
        oid = self.node(s, path)
        return [0] if oid is None else [self.S.sh.mask_of(s.user["nodes"][oid][1])]

    def elem(self, s, path):
        """(present, value, data index)"""
        oid = self.node(s, path[:-1])
        f = s.facts
        if oid is None:
            return (0, None, None)
        i = f.norm(path[-1])
        if not f.need(f._getb(f.norm(self.S.sh.mask_of(s.user["nodes"][oid][1])), i)):
            return (0, None, None)
        d = self.S.sh.di(s, oid, i)
        return (1, self.S.sh.val_at(s, d), d)

    def judge(self, s, got, path):
        judge_ref(self.S, s, got, self.elem(s, path), self.S.sh.f_data, self.S.sh.dv, self.tree)


class SparseT:
    """what a cursor over an arbitrary well-formed SparseTree must show"""

    def __init__(self, P, ob, mod):
        self.S = sparsechk.SSess(P, ob, mod)
        self.m = mod
        self.bits = self.S.sh.bits
        self.tree = self.S.fresh()
        self.st = self.S.st

    def node(self, s, path):
        return self.S.sh.node(s, [s.facts.norm(i) for i in path])

    def mask(self, s, path):
        p = self.node(s, path)
        return [0] * self.S.sh.nw if p is None else self.S.sh.words(p)

    def elem(self, s, path):
        sh = self.S.sh
        p = self.node(s, path[:-1])
        if p is None or not sh.bit(s, p, s.facts.norm(path[-1])):
            return (0, None, None)
        d = sh.di(s, p, path[-1])
        return (1, sh.val_at(s, d), d)

    def judge(self, s, got, path):
        sparsechk.judge_ref(self.S, s, got, self.elem(s, path), self.tree)


TARGETS = {"dense": DenseT, "sparse": SparseT}


def words(ret, n):
    return [ret.at(8 * w) for w in range(n)] if type(ret) is Blob else [ret]


def rty(P, root):
    return P.fns[P.byroot[root]]["body"]["locals"][0]


def ob_cursor(P, ob, kind, args, D, walk, modes, final):
    """selects along `walk` (per select 'c'hecked / 'u'nchecked), then the data of the last child"""
    T = TARGETS[kind](P, ob, *args)
    S, I = T.S, T.S.I
    m = T.m
    root = f"{m}::cur_new"
    cur = []
    for o in S.call(T.st, root, [T.tree]):
        t = rty(P, root)
        x = o.st.new_obj(P.size(t), "cursor", info=t)
        I.write_place(o.st, Ptr(x, 0), t, o.ret)
        cur.append((o.st, Ptr(x, 0), ()))
    W = 1 << T.bits
    for (lvl, nm), mode in zip(walk, modes):
        root = f"{m}::" + ("sel_" if mode == "c" else "sel_unchecked_") + str(lvl)
        idx = 0 if lvl == 0 else sym(nm, W - 1)
        nxt = []
        for st, cp, path in cur:
            path2 = () if lvl == 0 else path[:lvl - 1] + (idx,)
            sts = [st]
            if mode == "u" and lvl > 0:     # contract: the node exists
                sts = [s for s, h in models.explore(I, st, lambda s: T.node(s, path2) is not None) if h]
            for s in sts:
                for o in S.call(s, root, [cp, T.tree, idx]):
                    def fn(q, o=o):
                        ex = T.mask(q, path2)
                        got = words(o.ret, len(ex))
                        for a, b in zip(got, ex):
                            if a is UNDEF or type(a) is Ptr or q.facts.need(eq(q.facts.norm(a), q.facts.norm(b))) != 1:
                                raise Violation("post", f"node {opschk.show_path(path2)} shows mask {show(a) if type(a) is not Ptr else a}, expected {show(q.facts.norm(b))}")
                        no_effects(q)
                    n0 = len(ob.viol)
                    S.judge(o.st, root, fn, "selected mask")
                    if len(ob.viol) == n0:
                        nxt.append((o.st, cp, path2))
        cur = nxt
    i = sym(f"i{D - 1}", W - 1)
    root = f"{m}::cur_data" + ("_unchecked" if final == "u" else "")
    for st, cp, path in cur:
        full = path + (i,)
        sts = [st]
        if final == "u":
            sts = [s for s, h in models.explore(I, st, lambda s: T.elem(s, full)[0]) if h]
        for s in sts:
            for o in S.call(s, root, [cp, T.tree, i]):
                def fn(q, o=o):
                    p = o.ret if final == "u" else opt_ref(q, o.ret)
                    T.judge(q, p, full)
                    no_effects(q)
                S.judge(o.st, root, fn, "cursor data")
