"""Obligations: one abstract evaluation plus its judgement, and the bookkeeping around it."""
import re
import time
from terms import *
from mem import *
import interp
import models
import opaque
from interp import State, Interp, Result


def short_fn(w):
    """the innermost frame that is code of the repository"""
    for x in reversed(w):
        if "/repo/" in x or "/verif/harness" not in x and "/root/.rustup" not in x and "src/lib.rs" not in x:
            return x
    return w[-1] if w else "?"


class Ob:
    """result of one obligation"""

    def __init__(self, name):
        self.name = name
        self.viol = []          # dicts
        self.undec = []
        self.paths = 0
        self.steps = 0
        self.fns = set()
        self.checks = 0
        self.notes = []
        self.wall = 0.0
        self.P = None

    def pack(self):
        d = {k: v for k, v in self.__dict__.items() if k != "P"}
        d["fns"] = sorted(self.fns)
        return d

    def bad(self, kind, msg, where, trace=()):
        self.viol.append({
            "ob": self.name, "kind": kind, "msg": msg, "where": where,
            "path": [("" if v else "not ") + show(c) for c, v in trace][-24:],
        })


class Sess:
    """abstract evaluations of harness roots with shared options; findings go to one Ob"""

    def __init__(self, P, ob, **opts):
        self.P = P
        self.ob = ob
        self.I = Interp(P, ext=opaque.EXT, opts=opts)
        self.I.res = Result()

    def root(self, name):
        fid = self.P.byroot.get(name)
        if fid is None:
            raise Unsupported(f"root {name} is missing from the dump")
        return fid

    def call(self, st, root, args, panics=False):
        """evaluate root from st (consumed); returns normal outcomes; failures are recorded"""
        I = self.I
        fid = self.root(root)
        ls = self.P.fns[fid]["body"]["locals"]
        st.steps = 0
        st.unwinding = False
        st.frames = []
        v0, u0 = len(I.res.viol), len(I.res.undec)
        I.start(st, fid, [(a, ls[i + 1]) for i, a in enumerate(args)])
        outs = I.run(st)
        for kind, msg, where, trace in I.res.viol[v0:]:
            if I.o["unwind"] and not msg.endswith(interp.THROWN):
                continue        # not about panics: the obligations without unwinding report it
            self.ob.bad(kind, msg, [w for w in where if "src/lib.rs" not in w] or where, trace)
        for msg, where in I.res.undec[u0:]:
            self.ob.undec.append([msg, short_fn(where), root])
        good = []
        for o in outs:
            if o.kind == "ret":
                good.append(o)
            elif o.kind == "unwound" and I.o["unwind"]:
                good.append(o)
            elif not panics:
                self.ob.bad("panic", f"{root} panics: {o.msg}", o.where or [root], o.st.trace)
            else:
                good.append(o)
        self.ob.paths = I.res.paths
        self.ob.steps = I.res.steps
        self.ob.fns |= I.res.fns
        return good

    def judge(self, st, root, fn, what=""):
        """evaluate fn(state) over all partitions; Violations become findings at `root`"""
        if interp.COST:
            return []
        ob = self.ob
        I = self.I
        fn0 = self.P.fns[self.root(root)]
        where = [f"result of {callee(self.P, self.root(root))}"]
        n = [0]

        def on_bad(s, e):
            if type(e) is Violation:
                ob.bad(e.kind, (what + ": " if what else "") + e.msg, where, s.trace)
            else:
                ob.undec.append([what + ": " + str(e), where[0], root])
        r = models.explore(I, st, fn, limit=3000, on_bad=on_bad)
        ob.checks += max(1, len(r))
        return r


_cal = {}


def callee(P, fid, depth=3):
    """first repository function reached from a root, with its location"""
    if fid in _cal:
        return _cal[fid]
    todo = [(fid, 0)]
    seen = {fid}
    res = P.fns[fid]["path"]
    while todo:
        f, d = todo.pop(0)
        fn = P.fns[f]
        if fn.get("file", "").startswith("/repo/") or "/repo/src" in fn.get("file", ""):
            res = f"{fn['path']} ({fn['file']})"
            break
        if d >= depth or not fn.get("body"):
            continue
        for g in calls_of(P, fn):
            if g not in seen:
                seen.add(g)
                todo.append((g, d + 1))
    _cal[fid] = res
    return res


def calls_of(P, fn):
    out = []
    for b in fn["body"]["blocks"]:
        t = b[1]
        if t[0] == "call" and t[1][0] == "k":
            ty = P.types[t[1][1]]
            if ty["kind"] == "fndef" and ty.get("inst") is not None:
                out.append(ty["inst"])
    return out
