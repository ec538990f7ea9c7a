"""Abstract interpreter over monomorphic MIR.

One abstract state = call stack + abstract memory (mem.py) + facts (facts.py).  Values are
value-numbered terms (terms.py).  A branch the facts do not settle partitions the state; the same
statement is then re-evaluated in both parts.  There is no solver and no concrete execution.
"""
import sys
import terms as tm
from terms import *
from facts import Facts
import mem
from mem import *

sys.setrecursionlimit(20000)


class Frame:
    __slots__ = ("uid", "fid", "body", "bb", "ip", "dst", "target", "unwind", "line", "visits", "cleanup")

    def copy(self):
        f = Frame()
        for s in Frame.__slots__:
            setattr(f, s, getattr(self, s))
        f.visits = dict(self.visits)
        return f


COST = False        # only the amount of work is judged
LOOP = "loops without a bound in "
BULK = 1 << 16      # bytes; no node or block comes near
THROWN = " (after a panic in caller code)"


class State:
    __slots__ = ("frames", "mem", "facts", "ev", "token", "uid", "next_obj", "unwinding", "steps", "trace", "user", "allocobj", "ret")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = Facts()
        self.ev = []
        self.token = object()
        self.uid = 0
        self.next_obj = 0
        self.unwinding = False
        self.steps = 0
        self.trace = ()
        self.user = {}
        self.allocobj = {}
        self.ret = None

    def refine(self):
        """an open question that could still settle this state (None: the state is saturated)"""
        for h in self.user.get("refiners", ()):
            c = h(self)
            if c is not None:
                return c
        return self.facts.refine()

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: o.clone() for k, o in self.mem.items()}
        s.facts = self.facts.copy()
        s.ev = list(self.ev)
        s.token = object()
        self.token = object()
        s.uid = self.uid
        s.next_obj = self.next_obj
        s.unwinding = self.unwinding
        s.steps = self.steps
        s.trace = self.trace
        s.user = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in self.user.items()}
        s.allocobj = dict(self.allocobj)
        s.ret = self.ret
        return s

    def become(self, o):
        for s in State.__slots__:
            setattr(self, s, getattr(o, s))

    # ------------------------------------------------ objects
    def new_obj(self, size, kind, base=UNDEF_BASE, align=8, info=None, ro=False, oid=None):
        if oid is None:
            self.next_obj += 1
            oid = self.next_obj
        self.mem[oid] = Obj(size, kind, Content({}, base, self.token), align, info, ro)
        return oid

    def load(self, p, size):
        """scalar load through Ptr p"""
        o = self.mem[p.obj]
        if o.kind == "array":
            p = self.user["shape"].resolve(self, o, p, size)
            o = self.mem[p.obj]
        off = self.facts.norm(p.off) if is_t(p.off) else p.off
        v = mem.read(self, o.c, off, size)
        if is_t(v):
            v = self.facts.norm(v)
        elif type(v) is Ptr and is_t(v.off):
            v = Ptr(v.obj, self.facts.norm(v.off))
        return v

    def store(self, p, size, v):
        o = self.mem[p.obj]
        if o.kind == "array":
            p = self.user["shape"].resolve(self, o, p, size)
            o = self.mem[p.obj]
        mem.write(self, o, self.facts.norm(p.off) if is_t(p.off) else p.off, size, v)

    def snap(self, obj):
        return mem.freeze(self, self.mem[obj])


class Outcome:
    __slots__ = ("st", "kind", "ret", "msg", "where")

    def __init__(self, st, kind, ret=None, msg="", where=None):
        self.st = st
        self.kind = kind
        self.ret = ret
        self.msg = msg
        self.where = where


class Result:
    def __init__(self):
        self.outs = []
        self.viol = []      # (kind, msg, where, trace)
        self.undec = []     # (msg, where)
        self.paths = 0
        self.steps = 0
        self.fns = set()
        self.sites = set()
        self.checks = 0

    def merge(self, o):
        self.viol += o.viol
        self.undec += o.undec
        self.paths += o.paths
        self.steps += o.steps
        self.fns |= o.fns
        self.sites |= o.sites
        self.checks += o.checks


INTW = {"u8": 8}


class Interp:
    def __init__(self, prog, models=None, ext=None, opts=None):
        import models as md
        self.p = prog
        self.models = dict(md.MODELS)
        if models:
            self.models.update(models)
        self.intrin = md.INTRINSICS
        self.ext = dict(md.EXT)
        if ext:
            self.ext.update(ext)
        self.o = {"max_visits": 300, "max_paths": 6000, "max_steps": 400000, "unwind": False, "alloc_null": False}
        if opts:
            self.o.update(opts)
        self.modcache = {}
        self.ctx = {}
        self.res = None
        self.hooks = {}

    # ------------------------------------------------------------ types
    def ty(self, t):
        return self.p.types[t]

    def is_unsized(self, t):
        ty = self.p.types[t]
        if ty["size"] is not None:
            return False
        return ty["kind"] in ("slice", "str", "dyn") or ty["kind"] in ("struct", "tuple")

    # ------------------------------------------------------------ places
    def local_ptr(self, fr, l):
        return Ptr(("l", fr.uid, l), 0)

    def place(self, st, fr, pl):
        """-> (base, meta, ty) ; base Ptr or int address"""
        l, proj = pl
        t = fr.body["locals"][l]
        base = Ptr(("l", fr.uid, l), 0)
        if not proj:
            return base, None, t
        meta = None
        variant = None
        T = self.p.types
        for e in proj:
            if e == "*":
                ty = T[t]
                wide = ty["size"] == 16
                if ty["kind"] not in ("ptr", "ref"):
                    raise Unsupported("deref of " + ty["name"])
                b = self.rd(st, base, 8)
                meta = self.rd(st, self.padd(st, base, 8), 8) if wide else None
                if b is UNDEF:
                    raise Violation("uninit", "dereference of an uninitialised pointer")
                base = b
                t = ty["to"]
                variant = None
            elif e[0] == "f":
                off = self.p.field_off(t, e[1], variant)
                base = self.padd(st, base, off)
                t = e[2]
                variant = None
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                idx = self.rd(st, Ptr(("l", fr.uid, e[1]), 0), 8)
                et = T[t]["elem"]
                base = self.padd(st, base, self.mulsz(st, idx, T[et]["size"]))
                t = et
            elif e[0] == "c":
                et = T[t]["elem"]
                if e[3]:
                    ln = meta if T[t]["kind"] == "slice" else T[t]["len"]
                    idx = st.facts.norm(lsub(ln, e[1]))
                else:
                    idx = e[1]
                base = self.padd(st, base, self.mulsz(st, idx, T[et]["size"]))
                t = et
            elif e[0] == "s":
                et = T[t]["elem"]
                base = self.padd(st, base, e[1] * T[et]["size"])
                if T[t]["kind"] == "slice":
                    meta = st.facts.norm(lsub(lsub(meta, e[1]), e[2])) if e[3] else e[2] - e[1]
                raise Unsupported("subslice")
            else:
                t = e[1]
        return base, meta, t

    def mulsz(self, st, idx, size):
        if size == 0:
            return 0
        if not is_t(idx):
            return idx * size
        return lmul(idx, size)

    def padd(self, st, p, off):
        if off == 0 and not is_t(off):
            return p
        if type(p) is Ptr:
            return Ptr(p.obj, st.facts.norm(ladd(p.off, off)) if is_t(off) or is_t(p.off) else p.off + off)
        if p is UNDEF:
            raise Violation("uninit", "arithmetic on an uninitialised pointer")
        if isinstance(p, FnV):
            raise Unsupported("fn pointer arithmetic")
        return st.facts.norm(ladd(p, off))

    # ------------------------------------------------------------ memory access with checks
    def access(self, st, p, size, wr=False):
        """validate an access of size bytes at p; returns Obj"""
        if type(p) is not Ptr:
            if size == 0:
                return None
            if p is UNDEF:
                raise Violation("uninit", "access through an uninitialised pointer")
            raise Violation("bad-pointer", f"access of {size} bytes through an invalid pointer {p!r}")
        o = st.mem.get(p.obj)
        if o is None:
            raise Violation("dangling", f"access to a dead local or freed object {p!r}")
        if size == 0 and not is_t(size):
            return o
        if not o.alive:
            raise Violation("use-after-free", f"access of freed memory {self.oname(st, p.obj)}")
        if wr and o.ro:
            raise Violation("write-const", f"write to immutable memory {self.oname(st, p.obj)}")
        osz = o.size
        if osz is not None:
            off = p.off
            if not is_t(off) and not is_t(osz) and not is_t(size):
                if off < 0 or off + size > osz:
                    raise Violation("out-of-bounds", f"{size} bytes at offset {off} of {self.oname(st, p.obj)} ({osz} bytes)")
            else:
                f = st.facts
                self.res.checks += 1
                for l in (f.norm(off), lsub(f.norm(osz), ladd(f.norm(off), f.norm(size)))):
                    c = ge0(f.norm(l))
                    d = f.decide(c)
                    if d is None:
                        raise NeedSplit(f.norm(c))
                    if d == 0:
                        raise Violation("out-of-bounds", f"{show(size)} bytes at offset {show(f.norm(off))} of {self.oname(st, p.obj)} ({show(f.norm(osz))} bytes)")
        return o

    def oname(self, st, oid):
        o = st.mem.get(oid)
        if isinstance(oid, tuple) and oid[0] == "l":
            return f"local _{oid[2]}"
        return f"{o.kind}{' ' + str(o.info) if o and o.info is not None else ''}" if o else str(oid)

    def rs(self, st, p, size):
        """an address inside an array of blocks becomes an address inside one of its blocks"""
        if type(p) is Ptr and (is_t(size) or size):
            o = st.mem.get(p.obj)
            if o is not None and o.kind == "array":
                if not o.alive:
                    raise Violation("use-after-free", f"access of freed memory {self.oname(st, p.obj)}")
                return st.user["shape"].resolve(st, o, p, st.facts.norm(size))
        return p

    def rd(self, st, p, size):
        p = self.rs(st, p, size)
        self.access(st, p, size)
        return st.load(p, size)

    def wr(self, st, p, size, v):
        p = self.rs(st, p, size)
        self.access(st, p, size, True)
        st.store(p, size, v)

    def read_place(self, st, p, t):
        """typed load"""
        ty = self.p.types[t]
        n = ty["size"]
        if n == 0:
            return Blob(0, [])
        s = self.p.scalar(t)
        if s:
            v = self.rd(st, p, s)
            return v
        if n is None:
            raise Unsupported("load of an unsized place")
        p = self.rs(st, p, n)
        o = self.access(st, p, n)
        c = o.c
        off = st.facts.norm(p.off) if is_t(p.off) else p.off
        if not is_t(off) and mem.simple(c):
            cells = []
            zero = isinstance(c.under, ZeroBase)
            cs = c.cells
            if not zero:
                for o2, (s2, v2) in cs.items():
                    if o2 < off + n and o2 + s2 > off:
                        a, b = max(o2, off), min(o2 + s2, off + n)
                        cells.append((a - off, b - a, v2 if (a, b) == (o2, o2 + s2) else mem.part_or_undef(v2, s2, a - o2, b - a)))
                return Blob(n, cells)
        if n <= 64:
            lv = self.p.leaves(t)
            if lv is not None:
                return Blob(n, [(o2, s2, st.load(Ptr(p.obj, ladd(off, o2)), s2)) for o2, s2, _ in lv])
            if n % 8 == 0:
                try:
                    return Blob(n, [(k, 8, st.load(Ptr(p.obj, ladd(off, k)), 8)) for k in range(0, n, 8)])
                except Unsupported:
                    pass
        return Blob(n, None, st.snap(p.obj), off)

    def write_place(self, st, p, t, v):
        n = self.p.types[t]["size"]
        if n == 0:
            return
        p = self.rs(st, p, n)
        o = self.access(st, p, n, True)
        self.put(st, o, st.facts.norm(p.off) if is_t(p.off) else p.off, n, v)

    def put(self, st, o, off, n, v):
        if type(v) is Blob:
            if v.cells is None:
                mem.copy_range(st, o, off, n, v.src, v.soff)
            else:
                if not is_t(off):
                    # clear first: bytes not covered become uninitialised
                    cov = sum(c[1] for c in v.cells)
                    if cov < n:
                        self.clear(st, o, off, n)
                for a, s, x in v.cells:
                    mem.write(st, o, ladd(off, a), s, x)
        else:
            mem.write(st, o, off, n, v)

    def clear(self, st, o, off, n):
        c = o.c
        if not any(q < off + n and q + s > off for q, (s, v) in c.cells.items()):
            if type(c.under) is Base:
                return
        if type(c.under) is Base:
            if c.owner is not st.token:
                c = Content(dict(c.cells), c.under, st.token)
                o.c = c
            for q in [q for q, (s, v) in c.cells.items() if q < off + n and q + s > off]:
                s, v = c.cells.pop(q)
                if q < off:
                    c.cells[q] = (off - q, mem.part_or_undef(v, s, 0, off - q))
                if q + s > off + n:
                    c.cells[off + n] = (q + s - off - n, mem.part_or_undef(v, s, off + n - q, q + s - off - n))
        else:
            mem.fill(st, o, off, n, UNDEF)

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, op):
        k = op[0]
        if k == "cp" or k == "mv":
            p, meta, t = self.place(st, fr, op[1])
            return self.read_place(st, p, t)
        if k == "k":
            return self.const(st, op[1], op[2])
        if k == "rc":
            return 0
        raise Unsupported("operand " + k)

    def op_ty(self, fr, op):
        if op[0] == "k":
            return op[1]
        if op[0] == "rc":
            return None
        l, proj = op[1]
        t = fr.body["locals"][l]
        for e in proj:
            if e == "*":
                t = self.p.types[t]["to"]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "c"):
                t = self.p.types[t]["elem"]
            elif e[0] == "o":
                t = e[1]
        return t

    def const(self, st, t, a):
        ty = self.p.types[t]
        if ty["kind"] == "fndef":
            return Blob(0, [])
        if a == "unk":
            raise Unsupported("constant " + ty["name"])
        if a is None or ty["size"] == 0:
            return Blob(0, [])
        prov = {o: al for o, al in a["prov"]}
        bs = a["bytes"]
        s = self.p.scalar(t)
        if s:
            return self.const_cell(st, bs, prov, 0, s)
        n = ty["size"]
        return Blob(n, self.const_cells(st, bs, prov, t))

    def const_cell(self, st, bs, prov, off, size):
        if off in prov and size == 8:
            add = int.from_bytes(bytes(x if x >= 0 else 0 for x in bs[off:off + 8]), "little")
            return self.alloc_ptr(st, prov[off], add)
        part_ = bs[off:off + size]
        if any(x < 0 for x in part_):
            return UNDEF
        return int.from_bytes(bytes(part_), "little")

    def const_cells(self, st, bs, prov, t=None):
        n = len(bs)
        cells = []
        lv = self.p.leaves(t) if t is not None else None
        if lv is not None:
            for o, s, _ in lv:
                v = self.const_cell(st, bs, prov, o, s)
                if v is not UNDEF:
                    cells.append((o, s, v))
            return cells
        i = 0
        while i < n:
            if i in prov:
                cells.append((i, 8, self.const_cell(st, bs, prov, i, 8)))
                i += 8
                continue
            if bs[i] < 0:
                i += 1
                continue
            s = 8 if i % 8 == 0 and i + 8 <= n and all(x >= 0 for x in bs[i:i + 8]) and not any(j in prov for j in range(i, i + 8)) else 1
            cells.append((i, s, int.from_bytes(bytes(bs[i:i + s]), "little")))
            i += s
        return cells

    def alloc_ptr(self, st, aid, off):
        a = self.p.allocs[aid]
        k = a["kind"]
        if k in ("fn",):
            return FnV(a["inst"])
        if k == "vtable":
            return Ptr(("vt", aid), 0)
        oid = ("a", aid)
        if oid not in st.mem:
            m = a.get("mem")
            if m is None:
                raise Unsupported("constant allocation " + k)
            st.new_obj(len(m["bytes"]), "const", UNDEF_BASE, m.get("align", 1), None, True, oid=oid)
            prov = {o: al for o, al in m["prov"]}
            cells = self.const_cells(st, m["bytes"], prov)
            o = st.mem[oid]
            for q, s, v in cells:
                mem.write(st, o, q, s, v)
        return Ptr(oid, off)

    # ------------------------------------------------------------ integers
    def width(self, t):
        ty = self.p.types[t]
        k = ty["kind"]
        if k == "bool":
            return 1
        return (ty["size"] or 0) * 8

    def signed(self, t):
        return self.p.types[t]["kind"] == "int"

    def chk(self, *vs):
        for v in vs:
            if v is UNDEF:
                raise Violation("uninit", "use of an uninitialised value")

    def cmp_eq(self, st, a, b):
        self.chk(a, b)
        pa, pb = type(a) is Ptr, type(b) is Ptr
        if pa and pb:
            if a.obj == b.obj:
                return eq(st.facts.norm(a.off), st.facts.norm(b.off))
            return 0
        if pa or pb:
            return 0
        if isinstance(a, FnV) or isinstance(b, FnV):
            return 1 if a == b else 0
        if type(a) is Blob or type(b) is Blob:
            if a.cells is not None and b.cells is not None:
                da = {(o, s): v for o, s, v in a.cells}
                r = []
                for o, s, v in b.cells:
                    r.append(self.cmp_eq(st, da.get((o, s), UNDEF), v))
                return band(r)
            raise Unsupported("comparison of aggregates")
        return eq(a, b)

    def binop(self, st, op, a, b, t, tb):
        """t: type of the left operand"""
        f = st.facts
        ty = self.p.types[t] if t is not None else None
        if op == "Offset":
            self.chk(a, b)
            es = self.p.types[ty["to"]]["size"]
            w = 64
            if is_t(b) or b < (1 << 63):
                n = b
                if is_t(b) and b.op == "wneg":
                    n = lmul(b.a[0], -1)
                elif is_t(b) and b.op == "wsub" and not is_t(b.a[0]):
                    n = lsub(b.a[0], b.a[1])
            else:
                n = b - (1 << 64)
            return self.padd(st, a, self.mulsz(st, n, es))
        if op == "Eq":
            return self.cmp_eq(st, a, b)
        if op == "Ne":
            return bnot(self.cmp_eq(st, a, b))
        self.chk(a, b)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if type(a) is Ptr and type(b) is Ptr:
                if a.obj != b.obj:
                    raise Unsupported("ordering of pointers into different objects")
                a, b = a.off, b.off
            elif type(a) is Ptr or type(b) is Ptr:
                raise Unsupported("pointer/integer ordering")
            if self.signed(t):
                w = self.width(t)
                a, b = self.sgn(st, a, w), self.sgn(st, b, w)
                d = {"Lt": lin_comb(lsub(b, a), 1, 1, -1), "Gt": lin_comb(lsub(a, b), 1, 1, -1), "Le": lsub(b, a), "Ge": lsub(a, b)}[op]
                return ge0(f.norm(d))
            if op == "Lt":
                return ult(a, b)
            if op == "Gt":
                return ult(b, a)
            if op == "Le":
                return bnot(ult(b, a))
            return bnot(ult(a, b))
        w = self.width(t)
        if type(a) is Blob or type(b) is Blob:
            raise Unsupported("arithmetic on aggregate " + op)
        if type(a) is Ptr or type(b) is Ptr:
            if op in ("Sub", "SubUnchecked") and type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
                return f.norm(lsub(a.off, b.off))
            if op in ("BitAnd", "Rem"):
                return self.ptr_align(st, a, b, op)
            raise Unsupported("integer arithmetic on a pointer " + op)
        if op in ("Add", "AddUnchecked"):
            return f.norm(f.add(a, b, w))
        if op in ("Sub", "SubUnchecked"):
            return f.norm(f.sub_(a, b, w))
        if op in ("Mul", "MulUnchecked"):
            return f.norm(f.mul(a, b, w))
        if op in ("BitAnd", "BitOr", "BitXor"):
            o = op[3:].lower()
            r = self.align_mask(st, o, a, b, w)
            if r is not None:
                return r
            return f.norm(f.bitop(o, a, b, w))
        if op in ("Shl", "ShlUnchecked"):
            return f.norm(f.shl(a, self.shamt(st, b, w), w))
        if op in ("Shr", "ShrUnchecked"):
            if self.signed(t):
                raise Unsupported("signed shift")
            return f.norm(f.shr(a, self.shamt(st, b, w), w))
        if op in ("Div", "Rem"):
            if not is_t(b) and b == 0:
                raise Violation("div-zero", "division by zero")
            if not is_t(a) and not is_t(b):
                if self.signed(t):
                    raise Unsupported("signed division")
                return a // b if op == "Div" else a % b
            if not is_t(b) and b & (b - 1) == 0 and not self.signed(t):
                k = b.bit_length() - 1
                if op == "Rem":
                    return f.norm(bslice(a, 0, k)) if k else 0
                if is_t(a) and a.op == "lin" and k:
                    c, ts = a.a
                    if c % b == 0 and all(x % b == 0 for _, x in ts):
                        return lin_mk(c // b, {q: x // b for q, x in ts})
                return f.norm(shr_c(a, k, w))
            hi = (a.hi if is_t(a) else a)
            if not is_t(b) and op == "Div":
                hi = hi // b
            if not is_t(b) and op == "Rem":
                hi = min(hi, b - 1)
            return uf(op, (a, b), hi=hi)
        if op == "Cmp":
            # Ordering as i8
            l = f.need(ult(a, b))
            if l:
                return 255
            return 0 if f.need(eq(a, b)) else 1
        raise Unsupported("binop " + op)

    def ptr_align(self, st, a, b, op):
        """address & (align-1) of a pointer with known object alignment"""
        if type(a) is Ptr and not is_t(b):
            m = b if op == "BitAnd" else b - 1
            if m & (m + 1) == 0 and not is_t(a.off):
                o = st.mem.get(a.obj)
                if o is not None and not is_t(o.align) and (m + 1) <= o.align:
                    return a.off & m
        raise Unsupported("pointer alignment test")

    def align_mask(self, st, o, a, b, w):
        """x & -align for a linear x: keep as a slice over x"""
        return None

    def sgn(self, st, v, w):
        """signed reading of a two's complement value as an integer form"""
        if not is_t(v):
            return v - (1 << w) if v >= (1 << (w - 1)) else v
        if v.op == "wneg":
            return lmul(v.a[0], -1)
        if v.op == "wsub":
            return lsub(v.a[0], v.a[1])
        if st.facts.rng(v)[1] < (1 << (w - 1)):
            return v
        raise Unsupported("signed value of unknown sign")

    def shamt(self, st, b, w):
        if not is_t(b):
            return b & (w - 1)
        return b

    def cast_int(self, st, v, ft, tt):
        self.chk(v)
        if type(v) in (Ptr, FnV):
            return v
        wf, wt = self.width(ft), self.width(tt)
        if type(v) is Blob:
            # enum without fields
            raise Unsupported("cast of aggregate")
        if self.signed(ft) and wt > wf:
            if not is_t(v):
                return (self.sgn(st, v, wf)) & ((1 << wt) - 1)
            if st.facts.rng(v)[1] >= (1 << (wf - 1)):
                raise Unsupported("sign extension")
            return v
        if wt >= wf or wf == 1:
            return v
        if not is_t(v):
            return v & ((1 << wt) - 1)
        f = st.facts
        v = f.norm(v)
        if not is_t(v):
            return v & ((1 << wt) - 1)
        if f.rng(v)[1] < (1 << wt) and f.rng(v)[0] >= 0:
            return v
        if f._dec_lin(lsub((1 << wt) - 1, v)) == 1:
            return v
        return f.norm(bslice(v, 0, wt))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, dt):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref" or k == "addr":
            p, meta, t = self.place(st, fr, rv[2])
            if meta is not None and self.p.types[dt]["size"] == 16:
                return Blob(16, [(0, 8, p), (8, 8, meta)])
            return p
        if k == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, self.op_ty(fr, rv[2]), self.op_ty(fr, rv[3]))
        if k == "cbin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            self.chk(a, b)
            t = self.op_ty(fr, rv[2])
            w = self.width(t)
            f = st.facts
            if self.signed(t):
                raise Unsupported("signed checked arithmetic")
            if rv[1].startswith("Mul"):
                if is_t(a) and is_t(b):
                    v = f.mul(a, b, w)
                    if is_t(v) and v.op == "wmul":
                        raise Unsupported("checked product")
                    ov = 0
                else:
                    x, y = (a, b) if not is_t(a) else (b, a)
                    ex = lmul(y, x) if is_t(y) else x * y
                    ov = bnot(ge0(f.norm(lsub((1 << w) - 1, ex))))
                    ovd = f.need(ov)
                    v, ov = (ex, 0) if not ovd else (f.mul(a, b, w), 1)
            elif rv[1].startswith("Add"):
                ex = ladd(a, b)
                ov = f.need(bnot(ge0(f.norm(lsub((1 << w) - 1, ex)))))
                v = ex if not ov else f.add(a, b, w)
            else:
                ov = f.need(ult(f.norm(a), f.norm(b)))
                v = lsub(a, b) if not ov else f.sub_(a, b, w)
            fs = self.p.fields(dt)
            return Blob(self.p.size(dt), [(fs[0][0], w // 8, f.norm(v)), (fs[1][0], 1, ov)])
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "PtrMetadata":
                t = self.op_ty(fr, rv[2])
                if self.p.types[t]["size"] == 16:
                    return a.at(8)
                return Blob(0, [])
            self.chk(a)
            t = self.op_ty(fr, rv[2])
            if rv[1] == "Not":
                if self.p.types[t]["kind"] == "bool":
                    return bnot(a)
                return st.facts.norm(bits_not(a, self.width(t)))
            if rv[1] == "Neg":
                from facts import wneg
                return wneg(a, self.width(t))
            raise Unsupported("unop " + rv[1])
        if k == "cast":
            return self.cast(st, fr, rv, dt)
        if k == "disc":
            return self.get_disc(st, fr, rv[1], dt)
        if k == "agg":
            return self.aggregate(st, fr, rv, dt)
        if k == "rep":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            et = self.p.types[dt]["elem"]
            es = self.p.size(et)
            tot = self.p.size(dt)
            if es == 0 or n == 0:
                return Blob(tot, [])
            if n > 64 and type(v) is not Blob and v == 0 and not is_t(v):
                c = Content({}, ZERO_BASE, None)
                return Blob(tot, None, c, 0)
            cells = []
            if type(v) is Blob:
                if v.cells is None:
                    raise Unsupported("repeat of a snapshot")
                for i in range(n):
                    cells += [(i * es + o, s, x) for o, s, x in v.cells]
            else:
                cells = [(i * es, es, v) for i in range(n)]
            return Blob(tot, cells)
        if k == "len":
            p, meta, t = self.place(st, fr, rv[1])
            return meta if meta is not None else self.p.types[t]["len"]
        raise Unsupported("rvalue " + k)

    def cells_of(self, v, n):
        """cells of a value of n bytes"""
        if type(v) is Blob:
            return v
        return Blob(n, [(0, n, v)])

    def cast(self, st, fr, rv, dt):
        kind = rv[1]
        a = self.operand(st, fr, rv[2])
        ft = self.op_ty(fr, rv[2])
        T = self.p.types
        if kind == "IntToInt":
            if type(a) is Blob and T[ft]["kind"] == "enum":
                d = self.disc_of_blob(st, a, ft)
                return d & ((1 << self.width(dt)) - 1)
            return self.cast_int(st, a, ft, dt)
        if kind in ("PtrToPtr", "Ptr:MutToConst", "Ptr:ArrayToPtr", "FnPtrToPtr", "PointerExposeAddress", "PointerWithExposedProvenance", "Ptr:Unsafe"):
            if type(a) is Blob and T[dt]["size"] == 8:
                return a.at(0)
            return a
        if kind in ("Transmute", "BoxDerefTransmute"):
            n = T[dt]["size"]
            s = self.p.scalar(dt)
            if type(a) is not Blob and s:
                return a
            if type(a) is Blob and s and a.cells is not None:
                if len(a.cells) == 1 and a.cells[0][0] == 0 and a.cells[0][1] == s:
                    return a.cells[0][2]
                tmp = Content({o: (z, x) for o, z, x in a.cells}, UNDEF_BASE, None)
                return mem.read(st, tmp, 0, s)
            if type(a) is Blob and s:
                return mem.read(st, a.src, a.soff, s)
            if type(a) is Blob:
                return a
            return Blob(n, [(0, n, a)])
        if kind == "Ptr:Unsize":
            if type(a) is Blob:
                # struct containing a pointer (NonNull etc.)
                if a.n == 8 and T[dt]["size"] == 16:
                    ptr = a.at(0)
                else:
                    return a
            else:
                ptr = a
            src = self.pointee(ft)
            dst = self.pointee(dt)
            if T[src]["kind"] == "array" and T[dst]["kind"] == "slice":
                return Blob(16, [(0, 8, ptr), (8, 8, T[src]["len"])])
            return Blob(16, [(0, 8, ptr), (8, 8, ("vt", src))])
        if kind.startswith("Ptr:Reify") or kind.startswith("Ptr:Closure"):
            i = T[ft].get("inst")
            if i is None:
                raise Unsupported("reify")
            return FnV(i)
        raise Unsupported("cast " + kind)

    def pointee(self, t):
        ty = self.p.types[t]
        if "to" in ty:
            return ty["to"]
        if ty["kind"] == "pat":
            return self.pointee(ty["base"])
        for _, ft in self.p.fields(t) or []:
            if self.p.size(ft):
                return self.pointee(ft)
        raise Unsupported("pointee")

    def aggregate(self, st, fr, rv, dt):
        kk = rv[1]
        ops = [self.operand(st, fr, o) for o in rv[2]]
        T = self.p.types
        ty = T[dt]
        if kk[0] == "rawptr":
            if ty["size"] == 8:
                return ops[0]
            return Blob(16, [(0, 8, ops[0]), (8, 8, ops[1])])
        n = ty["size"]
        if n == 0:
            return Blob(0, [])
        variant = kk[1] if kk[0] == "adt" else None
        cells = []
        if kk[0] == "array":
            es = T[ty["elem"]]["size"]
            offs = [(i * es, ty["elem"]) for i in range(len(ops))]
        elif kk[0] == "adt" and len(kk) > 2 and kk[2] is not None:
            i = kk[2]
            offs = [(0, T[dt]["variants"][0][2][i][1])]
        elif ty["kind"] == "enum":
            offs = [(self.p.field_off(dt, i, variant), ty["variants"][variant][2][i][1]) for i in range(len(ops))]
        else:
            offs = [(self.p.field_off(dt, i), self.p.field_ty(dt, i)) for i in range(len(ops))]
        snaps = []
        for (o, ft), v in zip(offs, ops):
            fs = T[ft]["size"]
            if fs == 0:
                continue
            if type(v) is Blob:
                if v.cells is None:
                    snaps.append((o, fs, v))
                else:
                    cells += [(o + a, s, x) for a, s, x in v.cells]
            else:
                cells.append((o, fs, v))
        if ty["kind"] == "enum":
            tg = self.tag_cell(dt, variant)
            if tg:
                cells = [c for c in cells if not (c[0] < tg[0] + tg[1] and c[0] + c[1] > tg[0])] if False else cells
                cells.append(tg)
        if snaps:
            o = Obj(n, "tmp", Content({}, UNDEF_BASE, st.token))
            for off, fs, v in snaps:
                mem.copy_range(st, o, off, fs, v.src, v.soff)
            for a, s, x in cells:
                mem.write(st, o, a, s, x)
            return Blob(n, None, mem.freeze(st, o), 0)
        s = self.p.scalar(dt)
        if s:
            return cells[0][2] if cells else UNDEF
        return Blob(n, cells)

    def tag_cell(self, t, variant):
        ty = self.p.types[t]
        if ty.get("layout") != "multi":
            return None
        toff, tsz, tptr = ty["tag"]
        if ty["enc"] == "direct":
            return (toff, tsz, int(ty["variants"][variant][1]) & ((1 << (tsz * 8)) - 1))
        un, ns, ne, start = ty["enc"]
        if variant == un:
            return None
        return (toff, tsz, (start + variant - ns) & ((1 << (tsz * 8)) - 1))

    def disc_val(self, st, tag, ty):
        """variant discriminant value from the tag"""
        tsz = ty["tag"][1]
        if ty["enc"] == "direct":
            return tag
        un, ns, ne, start = ty["enc"]
        dv = lambda v: int(ty["variants"][v][1]) if ty["variants"][v][1] is not None else v
        if type(tag) in (Ptr, FnV):
            return dv(un)
        self.chk(tag)
        M = 1 << (8 * tsz)
        for v in range(ns, ne + 1):
            val = (start + v - ns) % M
            if st.facts.need(eq(tag, val)):
                return dv(v)
        return dv(un)

    def disc_of_blob(self, st, b, t):
        ty = self.p.types[t]
        if ty.get("layout") != "multi":
            vi = ty.get("vindex", 0)
            return int(ty["variants"][vi][1])
        toff, tsz, _ = ty["tag"]
        if b.cells is None:
            tag = mem.read(st, b.src, ladd(b.soff, toff), tsz)
        else:
            tag = mem.read(st, Content({o: (s, v) for o, s, v in b.cells}, UNDEF_BASE, None), toff, tsz)
        return self.disc_val(st, tag, ty)

    def get_disc(self, st, fr, pl, dt):
        p, meta, t = self.place(st, fr, pl)
        ty = self.p.types[t]
        if ty["kind"] != "enum":
            return 0
        if ty.get("layout") != "multi":
            vi = ty.get("vindex", 0)
            d = ty["variants"][vi][1] if vi < len(ty["variants"]) else 0
            return int(d)
        toff, tsz, _ = ty["tag"]
        tag = self.rd(st, self.padd(st, p, toff), tsz)
        self.chk(tag)
        return self.disc_val(st, tag, ty)

    # ------------------------------------------------------------ execution
    def where(self, st):
        out = []
        for fr in st.frames:
            f = self.p.fns[fr.fid]
            out.append(f"{f['path']} ({f['file']}:{fr.line})")
        return out

    def push(self, st, fid, args, dst, target, unwind):
        f = self.p.fns[fid]
        body = f["body"]
        fr = Frame()
        st.uid += 1
        fr.uid = st.uid
        fr.fid = fid
        fr.body = body
        fr.bb = 0
        fr.ip = 0
        fr.dst = dst
        fr.target = target
        fr.unwind = unwind
        fr.visits = {}
        fr.line = f["line"]
        fr.cleanup = False
        L = body["locals"]
        T = self.p.types
        for i, t in enumerate(L):
            st.mem[("l", fr.uid, i)] = Obj(T[t]["size"], "local", Content({}, UNDEF_BASE, st.token), T[t]["align"] or 1)
        argc = body["argc"]
        if len(args) != argc:
            if f["closure"] or len(args) < argc:
                # untuple the last argument
                *rest, (tv, tt) = args
                flds = self.p.fields(tt)
                args = list(rest)
                for off, ft in flds:
                    args.append((self.extract(st, tv, off, ft), ft))
            if len(args) != argc:
                raise Unsupported(f"argument mismatch calling {f['path']}")
        elif f["closure"] and argc == len(args) and args and self.p.types[args[-1][1]]["kind"] == "tuple" and body["spread"] is None:
            tt = args[-1][1]
            lt = L[argc]
            if T[lt]["name"] != T[tt]["name"]:
                flds = self.p.fields(tt)
                if len(flds) == 1:
                    args = args[:-1] + [(self.extract(st, args[-1][0], flds[0][0], flds[0][1]), flds[0][1])]
        for i, (v, t) in enumerate(args):
            lt = L[i + 1]
            n = T[lt]["size"]
            if n:
                self.put(st, st.mem[("l", fr.uid, i + 1)], 0, n, v)
        st.frames.append(fr)
        self.res.fns.add(fid)

    def extract(self, st, v, off, ft):
        n = self.p.size(ft)
        if n == 0:
            return Blob(0, [])
        if type(v) is not Blob:
            return v
        s = self.p.scalar(ft)
        if v.cells is not None:
            if s:
                for o, z, x in v.cells:
                    if o == off and z == s:
                        return x
                return mem.read(st, Content({o: (z, x) for o, z, x in v.cells}, UNDEF_BASE, None), off, s)
            return Blob(n, [(o - off, z, x) for o, z, x in v.cells if off <= o < off + n])
        if s:
            return mem.read(st, v.src, ladd(v.soff, off), s)
        return Blob(n, None, v.src, ladd(v.soff, off))

    def pop_frame(self, st):
        fr = st.frames.pop()
        for i in range(len(fr.body["locals"])):
            st.mem.pop(("l", fr.uid, i), None)
        return fr

    def goto(self, fr, bb):
        fr.bb = bb
        fr.ip = 0
        v = fr.visits.get(bb, 0) + 1
        fr.visits[bb] = v
        if v > self.o["max_visits"]:
            raise Violation("cost", LOOP + self.p.fns[fr.fid]["path"])

    def step(self, st):
        """one statement or terminator; returns Outcome or None"""
        fr = st.frames[-1]
        blk = fr.body["blocks"][fr.bb]
        stmts = blk[0]
        if fr.ip < len(stmts):
            s = stmts[fr.ip]
            k = s[0]
            if k == "=":
                pl, rv = s[1], s[2]
                # destination type
                if not pl[1]:
                    dp = None
                    dt = fr.body["locals"][pl[0]]
                    v = self.rvalue(st, fr, rv, dt)
                    n = self.p.types[dt]["size"]
                    if n:
                        self.put(st, st.mem[("l", fr.uid, pl[0])], 0, n, v)
                else:
                    dt = self.op_ty(fr, ("cp", pl))
                    v = self.rvalue(st, fr, rv, dt)
                    dp, _, dt = self.place(st, fr, pl)
                    self.write_place(st, dp, dt, v)
            elif k == "live" or k == "dead":
                o = st.mem.get(("l", fr.uid, s[1]))
                if o is not None:
                    o.c = Content({}, UNDEF_BASE, st.token)
            elif k == "assume":
                v = self.operand(st, fr, s[1])
                if v is not UNDEF and s[1][0] != "rc":
                    if not st.facts.need(v):
                        raise Violation("assume", "a condition the code assumes to hold does not")
            elif k == "sd":
                p, meta, t = self.place(st, fr, s[1])
                tg = self.tag_cell(t, s[2])
                if tg:
                    self.wr(st, self.padd(st, p, tg[0]), tg[1], tg[2])
            elif k == "cno":
                a = self.operand(st, fr, s[1])
                b = self.operand(st, fr, s[2])
                n = self.operand(st, fr, s[3])
                t = self.p.types[self.op_ty(fr, s[1])]["to"]
                self.memcopy(st, b, a, self.mulsz(st, n, self.p.size(t)), False)
            else:
                raise Unsupported("statement " + k)
            fr.ip += 1
            return None
        return self.term(st, fr, blk)

    def bulk(self, st, n, what):
        """work in proportion to a number without a bound"""
        if is_t(n) and st.facts.rng(n)[1] > BULK:
            self.res.viol.append(("cost", f"{what} {show(n)} bytes", self.where(st), st.trace))

    def memcopy(self, st, dst, src, n, overlap_ok):
        f = st.facts
        n = f.norm(n)
        self.bulk(st, n, "moves")
        if not is_t(n) and n == 0:
            return
        src, dst = self.rs(st, src, n), self.rs(st, dst, n)
        so = self.access(st, src, n)
        do = self.access(st, dst, n, True)
        if so is None or do is None:
            return
        if is_t(n) and f.decide(eq(n, 0)) == 1:
            return
        snap = st.snap(src.obj)
        mem.copy_range(st, do, f.norm(dst.off), n, snap, f.norm(src.off))

    def switch_val(self, st, fr, v, t):
        return v

    def term(self, st, fr, blk):
        t = blk[1]
        k = t[0]
        if k == "goto":
            self.goto(fr, t[1])
            return None
        if k == "switch":
            v = self.operand(st, fr, t[1])
            self.chk(v)
            if type(v) in (Ptr, FnV):
                raise Unsupported("switch on a pointer")
            f = st.facts
            v = f.norm(v)
            for val, bb in t[2]:
                val = int(val)
                if not is_t(v):
                    if v == val:
                        self.goto(fr, bb)
                        return None
                    continue
                if f.need(eq(v, val)):
                    self.goto(fr, bb)
                    return None
            self.goto(fr, t[3])
            return None
        if k == "ret":
            rt = fr.body["locals"][0]
            v = self.read_place(st, Ptr(("l", fr.uid, 0), 0), rt) if self.p.types[rt]["size"] else Blob(0, [])
            if len(st.frames) == 1:
                return Outcome(st, "ret", v)
            self.pop_frame(st)
            caller = st.frames[-1]
            if fr.dst is not None:
                p, dt = fr.dst
                self.write_place(st, p, dt, v)
            self.goto(caller, fr.target)
            return None
        if k == "call":
            return self.call(st, fr, t)
        if k == "drop":
            p, meta, ty = self.place(st, fr, t[1])
            if t[3] is None:
                self.goto(fr, t[4])
                return None
            arg = p if meta is None else Blob(16, [(0, 8, p), (8, 8, meta)])
            fid = t[3]
            fr.line = blk[2]
            return self.invoke(st, fr, fid, [(arg, None)], None, t[4], t[5])
        if k == "assert":
            c = self.operand(st, fr, t[1])
            self.chk(c)
            ok = st.facts.need(c if t[2] else bnot(c))
            fr.line = t[6]
            if ok:
                self.goto(fr, t[4])
                return None
            return self.panic(st, fr, t[5], "assert " + str(t[3][0]))
        if k == "unreachable":
            fr.line = blk[2]
            raise Violation("unreachable", "reaches code declared unreachable")
        if k == "resume":
            return self.unwind(st)
        if k == "abort":
            return Outcome(st, "abort", where=self.where(st))
        raise Unsupported("terminator " + k)

    def panic(self, st, fr, unwind, msg):
        """a panic raised in the current frame at a site with the given unwind action"""
        if not self.o["unwind"]:
            return Outcome(st, "panic", msg=msg, where=self.where(st))
        st.ev.append(("panic", msg))
        return self.unwind_to(st, unwind)

    def unwind_to(self, st, action):
        st.unwinding = True
        fr = st.frames[-1]
        if isinstance(action, int):
            fr.cleanup = True
            self.goto(fr, action)
            return None
        if action == "cont":
            return self.unwind(st)
        if action == "term":
            return Outcome(st, "abort", msg="panic while unwinding", where=self.where(st))
        return Outcome(st, "abort", msg="unwind into unreachable", where=self.where(st))

    def unwind(self, st):
        while True:
            fr = self.pop_frame(st)
            if not st.frames:
                return Outcome(st, "unwound")
            a = fr.unwind
            if isinstance(a, int):
                self.goto(st.frames[-1], a)
                return None
            if a == "term" or a == "unreach":
                return Outcome(st, "abort", msg="panic while unwinding", where=self.where(st))

    def call(self, st, fr, t):
        _, func, args, dst, target, unwind, line = t
        fr.line = line
        if func[0] == "k":
            fid = self.p.types[func[1]].get("inst")
            if fid is None:
                raise Unsupported("unresolved callee " + self.p.types[func[1]]["name"])
        else:
            fv = self.operand(st, fr, func)
            if not isinstance(fv, FnV):
                raise Unsupported("indirect call")
            fid = fv.fn
        avs = [(self.operand(st, fr, a), self.op_ty(fr, a)) for a in args]
        d = None
        dp, _, dt = self.place(st, fr, dst)
        d = (dp, dt)
        return self.invoke(st, fr, fid, avs, d, target, unwind)

    def model_for(self, fid):
        m = self.modcache.get(fid, 0)
        if m == 0:
            f = self.p.fns[fid]
            m = self.models.get(f["path"])
            if m is None and f.get("trait_item"):
                m = None
            if m is None and f["foreign"]:
                m = self.ext.get(f["path"].rsplit("::", 1)[-1])
            if m is None and f["kind"] == "intrinsic" and not f["body"]:
                m = self.intrin.get(f["path"].rsplit("::", 1)[-1])
            if m is None and f["kind"] == "llvm":
                m = self.intrin.get(f["path"].rsplit("::", 1)[-1])
            self.modcache[fid] = m
        return m

    def invoke(self, st, fr, fid, args, dst, target, unwind):
        f = self.p.fns[fid]
        m = self.model_for(fid)
        if m is None and f["kind"] == "shim" and f["path"].endswith("drop_glue") and args and type(args[0][0]) is Blob:
            m = self.models.get("<slice drop>")
        if m is not None:
            bk = st.fork()
            try:
                c = Call(self, st, fr, f, args, dst, target, unwind)
                r = m(c)
            except NeedSplit:
                st.become(bk)
                raise
            if r is NotImplemented:
                st.become(bk)
                fr = st.frames[-1]
            elif isinstance(r, Outcome):
                return r
            elif r == "handled":
                return None
            else:
                self.finish(st, c.fr, r, dst, target)
                return None
        if f["body"] is None:
            if target is None:
                nm = f["path"]
                return self.panic(st, fr, unwind, nm)
            raise Unsupported("no body: " + f["path"])
        if target is None and self.diverges(f):
            return self.panic(st, fr, unwind, f["path"])
        if len(st.frames) > 120:
            raise Unsupported("call depth")
        self.push(st, fid, args, dst, target, unwind)
        return None

    def diverges(self, f):
        return f["crate"] in ("core", "alloc", "std") and ("panic" in f["path"] or "fail" in f["path"] or "handle_error" in f["path"] or "handle_alloc_error" in f["path"])

    def finish(self, st, fr, v, dst, target):
        if dst is not None and v is not None:
            p, dt = dst
            self.write_place(st, p, dt, v)
        if target is None:
            raise Unsupported("model of a diverging function returned")
        self.goto(st.frames[-1], target)

    # ------------------------------------------------------------ driver
    def start(self, st, fid, args):
        """args: [(value, type)]"""
        if self.res is None:
            self.res = Result()
        self.push(st, fid, args, None, None, "cont")

    def run(self, st0, on_out=None):
        """explore all partitions from a started state; returns list of Outcomes"""
        work = [st0]
        outs = []
        res = self.res
        npaths = 0
        while work:
            if COST:
                # a bound on the work is all that is asked: follow the longest loop first
                if res.viol and any(v[0] == "cost" for v in res.viol):
                    break
                work.sort(key=lambda s: max((v for fr in s.frames for v in fr.visits.values()), default=0))
            st = work.pop()
            while True:
                try:
                    r = self.step(st)
                    st.steps += 1
                    res.steps += 1
                    if st.steps > self.o["max_steps"]:
                        raise Unsupported("step budget")
                    if r is not None:
                        npaths += 1
                        outs.append(r)
                        break
                except Infeasible:
                    break
                except (NeedSplit, Violation, Unsupported) as e:
                    if type(e) is NeedSplit:
                        c = st.facts.norm(e.cond)
                        if not is_t(c):
                            # normalisation settled it meanwhile: retry
                            st.user["_retry"] = st.user.get("_retry", 0) + 1
                            if st.user["_retry"] > 50:
                                res.undec.append(("split on a settled condition " + show(e.cond), self.where(st)))
                                break
                            st.facts._dirty()
                            continue
                    else:
                        # saturate the order of the bit positions involved before judging the state
                        try:
                            c = None if COST and type(e) is Violation and e.msg.startswith(LOOP) else st.refine()
                        except Infeasible:
                            break
                        if c is None:
                            npaths += 1
                            if type(e) is Violation and e.kind == "cost":
                                res.undec.append((str(e), self.where(st)))
                            if type(e) is Violation:
                                res.viol.append((e.kind, e.msg + (THROWN if any(x[0] == "throw" for x in st.ev) else ""), self.where(st), st.trace))
                            else:
                                res.undec.append((str(e), self.where(st)))
                            break
                    if len(work) + npaths > self.o["max_paths"]:
                        res.undec.append(("path budget", self.where(st)))
                        break
                    st2 = st.fork()
                    ok1 = ok2 = True
                    try:
                        st2.facts.assume(c, 0)
                        st2.trace = st2.trace + ((c, 0),)
                    except Infeasible:
                        ok2 = False
                    except NeedSplit:
                        ok2 = True
                    try:
                        st.facts.assume(c, 1)
                        st.trace = st.trace + ((c, 1),)
                    except Infeasible:
                        ok1 = False
                    if ok2:
                        work.append(st2)
                    if not ok1:
                        break
        res.paths += npaths
        return outs


class Call:
    """context of a modelled call"""
    __slots__ = ("I", "st", "fr", "f", "args", "dst", "target", "unwind")

    def __init__(self, I, st, fr, f, args, dst, target, unwind):
        self.I = I
        self.st = st
        self.fr = fr
        self.f = f
        self.args = args
        self.dst = dst
        self.target = target
        self.unwind = unwind

    def a(self, i):
        v = self.args[i][0]
        # a one-field wrapper (NonNull, Alignment, ...) is its field
        while type(v) is Blob and v.src is None and len(v.cells) == 1 and v.cells[0][0] == 0 and v.cells[0][1] == v.n:
            v = v.cells[0][2]
        return v

    def tyarg(self, i):
        """i-th generic type argument"""
        ts = [x["ty"] for x in self.f["args"] if x and "ty" in x]
        return ts[i]

    def maythrow(self, tag):
        """fork an unwinding continuation of a call into opaque code; True on the unwinding side"""
        I, st = self.I, self.st
        if not I.o["unwind"] or st.unwinding:
            return False
        key = ("throw", tag, len(st.ev))
        b = sym(f"panics@{tag}#{len(st.ev)}", 1)
        return st.facts.need(b) == 1
