"""C18: materializing a tree keeps exactly its contents; dropping a container frees and drops everything once."""
from terms import *
from mem import *
import models
import opaque
from opaque import *
from obl import *
import dense
from dense import comp
from densechk import DSess
import opschk


def key_path(S, q):
    return [comp(q, l, S.D) for l in range(S.D)]


def ob_mat(P, ob, D, exact, cap):
    """DenseTree from any tree with at most `cap` children per node at arbitrary positions"""
    S = DSess(P, ob, D)
    sh, I = S.sh, S.I
    root = f"dense{D}::{'mat_exact' if exact else 'mat'}"
    st = State()
    st.user["srcs"] = Sources(D, 6, cap=cap, exact=exact)
    for o in S.call(st, root, [0]):
        st = o.st
        t = st.new_obj(P.size(sh.tt), "tree", info=sh.tt)
        I.write_place(st, Ptr(t, 0), sh.tt, o.ret)
        st.user.update(nodes={}, kids={}, dis=(), gkeys=(), n=0)
        tree = Ptr(t, 0)
        post_mat(S, root, st, tree)


def post_mat(S, root, st, tree):
    sh, I = S.sh, S.I

    def generic(s):
        q = S.key("q")
        p = opschk.canon_path(s, key_path(S, q))
        got = sh.walk(s, I, tree, q)
        has = present(s, 0, p)
        if bool(got[0]) != has:
            raise Violation("post", f"key {show(s.facts.norm(q))} is {'present' if got[0] else 'absent'} in the new tree, {'present' if has else 'absent'} in the source")
        if has and (got[1] is UNDEF or s.facts.need(eq(s.facts.norm(got[1]), s.facts.norm(elem(0, p)))) != 1):
            raise Violation("post", f"key {show(s.facts.norm(q))} maps to {show(got[1])} in the new tree, to {show(elem(0, p))} in the source")
        for e in s.ev:
            if e[0] in ("drop", "dropslice"):
                raise Violation("effect", "materializing drops an element")
    S.judge(st, root, generic, "every key")

    def entries(s):
        sh.check_vecs(s, I, tree)
        f = s.facts
        n = f.norm(sh.vec(s, tree, sh.f_keys, sh.kv)[2])
        if is_t(n):
            raise Unsupported("symbolic number of entries")
        kp = sh.vec(s, tree, sh.f_keys, sh.kv)[1]
        nodes = {s.load(Ptr(tree.obj, sh.f_root), 8).obj}
        for j in range(1, n):
            key = I.rd(s, I.padd(s, kp, 8 * j), 8)
            if key is UNDEF:
                raise Violation("rep", "an entry's key is uninitialised")
            s.user["places"] = {}
            r = sh.walk(s, I, tree, f.norm(key))
            if not r[0] or f.need(eq(f.norm(r[2]), j)) != 1:
                raise Violation("map", f"entry {j} of key {show(key)} is not the one the tree holds for it")
            nodes |= {p.obj for p in r[3]}
        bufs = {sh.vec(s, tree, b, v)[1].obj for b, v in ((sh.f_data, sh.dv), (sh.f_keys, sh.kv))}
        if len(bufs) != 2:
            raise Violation("rep", "keys and data share one buffer")
        for oid, o in s.mem.items():
            if o.alive and o.kind in ("heap", "vec") and oid not in bufs and oid not in nodes:
                raise Violation("leak", f"memory allocated by the operation ({show(o.size)} bytes) is not part of the tree")
    S.judge(st, root, entries, "every entry")


def ob_drop(P, ob, D, cap):
    """dropping a tree: every element dropped once, every allocation freed"""
    S = DSess(P, ob, D)
    sh = S.sh
    root = f"dense{D}::drop_tree"
    tree = S.fresh()
    S.sh.popcap = cap
    st = S.st
    t, do, ko, rt = st.user["objs"]
    st.facts.assume(ge0(lsub(cap, pop(sh.mask_of(())))), 1)
    n = st.user["n"]
    val = S.I.read_place(st, tree, sh.tt)
    st.mem[t].alive = False         # moved into the call
    for o in S.call(st, root, [val]):
        def fn(s):
            f = s.facts
            ds = [e for e in s.ev if e[0] in ("drop", "dropslice") and not (e[0] == "dropslice" and e[1] == ko)]
            some = f.need(ge0(f.norm(lsub(n, 2))))
            if not some:
                if ds:
                    raise Violation("effect", "dropping an empty tree drops an element")
            else:
                full = [e for e in ds if e[0] == "dropslice" and e[1] == do]
                if len(ds) != 1 or len(full) != 1:
                    raise Violation("effect", f"dropping a tree drops {len(ds)} ranges of elements instead of its elements once")
                _, _, off, cnt, es, _ = full[0]
                if f.need(eq(f.norm(off), es)) != 1 or f.need(eq(f.norm(cnt), f.norm(lsub(n, 1)))) != 1:
                    raise Violation("effect", f"dropping a tree of {show(lsub(n, 1))} elements drops {show(cnt)} elements from byte {show(off)} of its storage")
            for oid, x in list(s.mem.items()):
                if x.alive and (x.kind in ("heap", "vec") or x.kind == "node"):
                    raise Violation("leak", f"dropping a tree does not free {'a node of level %d' % s.user['nodes'][oid][0] if oid in s.user['nodes'] else 'its memory'}")
            # every child of every node has been looked at
            for oid, (lvl, path) in list(s.user["nodes"].items()):
                if lvl < S.D - 1:
                    pc = f.norm(pop(sh.mask_of(path)))
                    if f.need(eq(pc, len(s.user["kids"][oid]))) != 1:
                        raise Violation("leak", f"dropping a tree frees {len(s.user['kids'][oid])} of the {show(pc)} children of a level {lvl} node")
        S.judge(o.st, root, fn, "drop")
