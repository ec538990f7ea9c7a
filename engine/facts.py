"""Path facts of one abstract state: equalities (substitution), linear inequalities, literals."""
import terms as tm
from terms import *


class Facts:
    __slots__ = ("sub", "lins", "lits", "cache", "ncache", "oracles", "bnd", "nl", "busy", "extra", "sl")

    def __init__(self):
        self.sub = {}
        self.lins = []
        self.lits = {}
        self.bnd = {}
        self.cache = {}
        self.ncache = {}
        self.oracles = []
        self.nl = None
        self.busy = set()
        self.extra = ()
        self.sl = {}

    def copy(self):
        f = Facts()
        f.sub = dict(self.sub)
        f.lins = list(self.lins)
        f.lits = dict(self.lits)
        f.bnd = dict(self.bnd)
        f.oracles = self.oracles
        f.cache = dict(self.cache)
        f.ncache = dict(self.ncache)
        f.nl = self.nl
        f.busy = set()
        f.extra = self.extra
        f.sl = self.sl
        return f

    # ------------------------------------------------------------ normalisation
    def norm(self, x):
        if not is_t(x):
            return x
        r = self.ncache.get(x)
        if r is not None:
            return r
        r = self._norm(x)
        self.ncache[x] = r
        return r

    def _norm(self, x):
        s = self.sub.get(x)
        if s is not None:
            return self.norm(s)
        op = x.op
        if op == "sym":
            return cat_mk(self.slice_norm(x, 0, nbits(x))) if x in self.sl else x
        if op == "lin":
            c, ts = x.a
            r = c
            for t, k in ts:
                r = lin_comb(r, 1, self.norm(t), k)
        elif op == "uf":
            r = uf(x.a[0], tuple(self.norm(y) for y in x.a[1]), x.a[2], x.a[3])
            if r in self.sl and r not in self.sub:
                r = cat_mk(self.slice_norm(r, 0, nbits(r)))
        elif op == "cat":
            out = []
            for s, lo, n in x.a[0]:
                if lo is None:
                    out.append((s, lo, n))
                elif s.op == "sym" and s not in self.sub:
                    out.extend(self.slice_norm(s, lo, n) if s in self.sl else [(s, lo, n)])
                else:
                    y = s
                    if s.op == "uf":
                        y = uf(s.a[0], tuple(self.norm(z) for z in s.a[1]), s.a[2], s.a[3])
                        if y not in self.sub:
                            out.extend(self.slice_norm(y, lo, n) if y in self.sl else [(y, lo, n)])
                            continue
                    y = self.norm(y)
                    if y is s:
                        out.append((s, lo, n))
                    else:
                        z = bslice(y, lo, n)
                        out.extend(segs_of(z, n))
            r = cat_mk(out)
        elif op in ("and", "or", "xor"):
            xs = [self.norm(y) for y in x.a[0]]
            w = x.hi.bit_length() if op != "and" else max(nbits(y) for y in x.a[0])
            r = xs[0]
            for y in xs[1:]:
                r = bitop(op, r, y, w)
        elif op == "bits_not":
            r = bits_not(self.norm(x.a[0]), x.a[1])
        elif op == "bit":
            i = self.norm(x.a[0])
            r = (1 << i) if not is_t(i) else mk("bit", i, hi=x.hi)
        elif op == "lowm":
            i = self.norm(x.a[0])
            r = ((1 << i) - 1) if not is_t(i) else mk("lowm", i, hi=x.hi, mask=True)
        elif op == "bitif":
            g = self.norm(x.a[0])
            i = self.norm(x.a[1])
            if not is_t(g):
                r = 0 if not g else ((1 << i) if not is_t(i) else mk("bit", i, hi=x.hi))
            else:
                r = mk("bitif", g, i, hi=x.hi)
        elif op == "setb":
            r = setb(self.norm(x.a[0]), self.norm(x.a[1]), x.hi.bit_length())
        elif op == "clrb":
            r = clrb(self.norm(x.a[0]), self.norm(x.a[1]), max(nbits(x), 64))
        elif op == "low":
            r = low_of(self.norm(x.a[0]), self.norm(x.a[1]))
        elif op == "drop":
            m, k = self.norm(x.a[0]), self.norm(x.a[1])
            if not is_t(m) or k == 0:
                r = drop_c(m, k)
            else:
                r = mk("drop", m, k, hi=x.hi, mask=True)
        elif op == "nth":
            m, k = self.norm(x.a[0]), self.norm(x.a[1])
            if not is_t(m):
                r = nth_c(m, k)
            else:
                r = mk("nth", m, k, hi=x.hi)
        elif op == "getb":
            r = self._getb(self.norm(x.a[0]), self.norm(x.a[1]))
        elif op == "pop":
            r = self._pop(self.norm(x.a[0]))
        elif op == "rank":
            r = self._rank(self.norm(x.a[0]), self.norm(x.a[1]))
        elif op == "bnot":
            r = bnot(self.norm(x.a[0]))
        elif op == "band":
            r = band([self.norm(y) for y in x.a[0]])
        elif op == "ge0":
            r = ge0(self.norm(x.a[0]))
        elif op == "eq0":
            r = self._eq0(x.a[0])
        elif op == "wadd":
            r = self.add(self.norm(x.a[0]), self.norm(x.a[1]), x.a[2])
        elif op == "wsub":
            r = self.sub_(self.norm(x.a[0]), self.norm(x.a[1]), x.a[2])
        elif op == "wneg":
            y = self.norm(x.a[0])
            r = wneg(y, x.a[1])
        elif op == "prod":
            r = self.mul(self.norm(x.a[0]), self.norm(x.a[1]), 64)
        elif op in ("shlv", "shrv"):
            r = (self.shl if op == "shlv" else self.shr)(self.norm(x.a[0]), self.norm(x.a[1]), x.a[2])
        elif op == "lz":
            y = self.norm(x.a[0])
            r = mk("lz", y, x.a[1], hi=x.hi) if is_t(y) else x.a[1] - y.bit_length()
        else:
            r = x
        if is_t(r) and r is not x:
            s = self.sub.get(r)
            if s is not None:
                return self.norm(s)
        if is_t(r) and r.hi == 1 and r.op not in ("sym",):
            v = self.lits.get(r)
            if v is not None:
                return v
        return r

    def slice_norm(self, s, lo, n):
        """segments of bits lo..lo+n of s, with the slices whose value is known replaced"""
        out = []
        pos = lo
        end = lo + n
        for a, k, t in self.sl[s]:
            b = min(a + k, end)
            if b <= pos or a >= end:
                continue
            if a > pos:
                out.append((s, pos, a - pos))
                pos = a
            v = self.sub.get(t)
            z = bslice(self.norm(v), pos - a, b - pos)
            out.extend(segs_of(z, b - pos))
            pos = b
        if pos < end:
            out.append((s, pos, end - pos))
        return out

    def resl(self):
        """index the known slices by their source"""
        d = {}
        for t in self.sub:
            if t.op == "cat" and len(t.a[0]) == 1:
                s, lo, n = t.a[0][0]
                if is_t(s) and s.op in ("sym", "uf"):
                    d.setdefault(s, []).append((lo, n, t))
        for l in d.values():
            l.sort(key=lambda e: (e[0], e[1]))
        self.sl = d

    def _eq0(self, l):
        y = self.norm(l)
        if is_t(y) and y.op == "lin":
            # x - c with x a cat: compare segment-wise
            c, ts = y.a
            if len(ts) == 1 and abs(ts[0][1]) == 1 and ts[0][0].op == "cat":
                v = -c if ts[0][1] == 1 else c
                if v < 0:
                    return 0
                return eq(ts[0][0], v)
            if c and len(ts) == 2 and ts[0][1] == -ts[1][1] and abs(ts[0][1]) == 1 and "cat" in (ts[0][0].op, ts[1][0].op):
                # t + c = u where c only fills zero bits of t: segment-wise
                (t, k), (u, _) = ts
                if (c > 0) != (k > 0):
                    t, u = u, t
                tc = lin_mk(abs(c), {t: 1})
                if tc.op == "cat" and u.op in ("cat", "sym", "uf"):
                    return eq(tc, u)
            if c == 0 and len(ts) == 2 and ts[0][1] == -ts[1][1] and abs(ts[0][1]) == 1 and "cat" in (ts[0][0].op, ts[1][0].op):
                a, b = ts[0][0], ts[1][0]
                o = b if a.op == "cat" else a
                if o.op in ("cat", "sym", "uf"):
                    return eq(a, b)
        return eq0(y)

    def _getb(self, m, i):
        g = getb(m, i)
        if is_t(g) and g.op == "getb":
            m, i = g.a
            v = self.lits.get(g)
            if v is not None:
                return v
            if not is_t(m) and m:
                n = bin(m).count("1")
                few, val = (m, 1) if n <= 8 else (m ^ M64, 0)
                if min(n, 64 - n) <= 8 and all(self.decide(eq(i, b)) == 0 for b in range(64) if few >> b & 1):
                    return 1 - val
            if is_t(m) and m.op in ("setb", "clrb"):
                e = self.decide(eq(i, m.a[1]))
                if e == 1:
                    return 1 if m.op == "setb" else 0
                if e == 0:
                    return self._getb(m.a[0], i)
            if is_t(m) and m.op == "low":
                e = self.decide(ult(i, m.a[1]))
                if e == 1:
                    return self._getb(m.a[0], i)
                if e == 0:
                    return 0
            if is_t(m) and m.op == "drop" and is_t(i) and i.op == "nth" and i.a[0] is m.a[0]:
                e = self.decide(ge0(lsub(i.a[1], m.a[1])))
                if e is not None:
                    return e
            if is_t(m) and m.op == "drop":
                return self.norm(band([getb(m.a[0], i), ge0(self.norm(lsub(rank(m.a[0], i), m.a[1])))]))
            if is_t(m) and m.mask:
                p = self.norm(mk("pop", m, hi=nbits(m))) if m.op in ("sym", "uf", "and", "or") else None
                if p is not None and not is_t(p) and p == 0:
                    return 0
            for o in self.oracles:
                r = o(self, m, i)
                if r is not None:
                    return r
        return g

    def _pop(self, m):
        if not is_t(m):
            return pop(m)
        if m.op in ("setb", "clrb"):
            g = self._getb(m.a[0], m.a[1])
            p = self._pop(m.a[0])
            if m.op == "setb":
                return ladd(p, lsub(1, g))
            return lsub(p, g)
        if m.op == "low":
            return self._rank(m.a[0], m.a[1])
        p = pop(m)
        if is_t(p):
            s = self.sub.get(p)
            if s is not None:
                return self.norm(s)
        return p

    def _rank(self, m, i):
        r = rank(m, i)
        if not (is_t(r) and r.op == "rank"):
            return r
        s = self.sub.get(r)
        if s is not None:
            return self.norm(s)
        m, i = r.a
        if is_t(m):
            if m.op in ("setb", "clrb"):
                j = m.a[1]
                if j is i:
                    return self._rank(m.a[0], i)
                c = ult(j, i)
                d = self.decide(c)
                if d is None:
                    return r
                base = self._rank(m.a[0], i)
                if d == 0:
                    return base
                g = self._getb(m.a[0], j)
                return ladd(base, lsub(1, g)) if m.op == "setb" else lsub(base, g)
            if m.op in ("sym", "uf", "and", "or"):
                p = pop(m)
                while is_t(p) and p in self.sub:
                    p = self.sub[p]
                if not is_t(p) and p == 0:
                    return 0
        return r

    def expand(self, x):
        """norm, partitioning the state where a count depends on an undecided bit order"""
        x = self.norm(x)
        if is_t(x):
            for t, _ in lin_of(x)[1]:
                if t.op == "rank" and is_t(t.a[0]) and t.a[0].op in ("setb", "clrb"):
                    raise NeedSplit(ult(t.a[0].a[1], t.a[1]))
        return x

    # ------------------------------------------------------------ intervals and decisions
    def rng(self, x):
        """interval using single-atom facts"""
        c, ts = lin_of(x)
        lo = hi = c
        for t, k in ts:
            a, b = self.arng(t)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    def arng(self, t):
        a, b = 0, t.hi
        v = self.bnd.get(t)
        if v:
            a = max(a, v[0])
            b = min(b, v[1])
        if t.op == "cat":
            lo = hi = 0
            pos = 0
            for s, l, n in t.a[0]:
                if l is None:
                    lo += s << pos
                    hi += s << pos
                elif l == 0 and n >= nbits(s):
                    p, q = self.arng(s)
                    lo += p << pos
                    hi += q << pos
                else:
                    p, q = self.rng(s)
                    if 0 <= p and q < 1 << (l + n):
                        lo += (p >> l) << pos
                        hi += (q >> l) << pos
                    else:
                        hi += ((1 << n) - 1) << pos
                pos += n
            a = max(a, lo)
            b = min(b, hi)
        elif t.op == "rank":
            p = self.bnd.get(mk("pop", t.a[0], hi=nbits(t.a[0]))) if is_t(t.a[0]) and t.a[0].op != "cat" else None
            if p:
                b = min(b, p[1])
        return a, b

    def axioms(self, l):
        """linear facts implied by the meaning of the counting atoms in l"""
        out = []
        ats = [t for t, _ in lin_of(l)[1]]
        ranks = [t for t in ats if t.op == "rank"]
        ms = set(t.a[0] for t in ats if t.op in ("rank", "pop"))
        if ms:
            ranks += [t for t in self.sub if t.op == "rank" and t.a[0] in ms]
        for r in ranks:
            m, i = r.a
            p = self._pop(m)
            g = self._getb(m, i)
            out.append(lsub(lsub(p, r), g if not is_t(g) else 0))
            out.append(lsub(i, r))
        for a in range(len(ranks)):
            for b in range(a + 1, len(ranks)):
                ra, rb = ranks[a], ranks[b]
                if ra.a[0] is not rb.a[0]:
                    continue
                i, j = ra.a[1], rb.a[1]
                d = self._dec_lin(lin_comb(lsub(j, i), 1, 1, -1), 1)
                if d == 1:
                    g = self._getb(ra.a[0], i)
                    out.append(lsub(lsub(rb, ra), g if not is_t(g) else 0))
                elif d == 0:
                    d2 = self._dec_lin(lin_comb(lsub(i, j), 1, 1, -1), 1)
                    if d2 == 1:
                        g = self._getb(ra.a[0], j)
                        out.append(lsub(lsub(ra, rb), g if not is_t(g) else 0))
                    else:
                        out.append(lsub(ra, rb))
        for t in ats:
            if t.op == "cat" and len(t.a[0]) == 2:
                # x rounded down to a multiple of 2^k
                z, (x, lo, n) = t.a[0]
                if z[1] is None and z[0] == 0 and lo is not None and lo == z[2] and lo + n >= nbits(x):
                    out.append(lsub(x, t))
                    out.append(ladd(lsub(t, x), (1 << lo) - 1))
        nths = [t for t in ats if t.op == "nth"]
        for a in range(len(nths)):
            for b in range(a + 1, len(nths)):
                x, y = nths[a], nths[b]
                if x.a[0] is y.a[0]:
                    d = lsub(y.a[1], x.a[1])
                    if not is_t(d):
                        out.append(lsub(lsub(y, x), d) if d > 0 else lsub(lsub(x, y), -d))
        return [self.norm(o) for o in out]

    def _lb(self, l):
        return self.rng(l)[0]

    def _dec_lin(self, l, depth=3):
        """1 if l >= 0 is implied, 0 if l < 0 is implied, else None"""
        lo, hi = self.rng(l)
        if lo >= 0:
            return 1
        if hi < 0:
            return 0
        if depth <= 0 or not is_t(l):
            return None
        if l in self.busy:
            return None
        self.busy.add(l)
        try:
            facts = self.nlins() + [f for f in self.axioms(l) if is_t(f)]
            for target, res in ((l, 1), (lin_comb(l, -1, 1, -1), 0)):
                if self._implied(target, facts, depth):
                    return res
        finally:
            self.busy.discard(l)
        return None

    def nlins(self):
        """the linear facts in normal form; each is normalised with the help of the ones before it"""
        if self.nl is None:
            self.nl = nl = []
            for f in self.lins:
                n = self.norm(f)
                if is_t(n):
                    nl.append(n)
            self.cache = {}
            self.ncache = {}
            if any(has_op(n, "rank") for n in nl):
                for k, n in enumerate(nl):
                    nl[k] = self.norm(n)
                self.nl[:] = [n for n in nl if is_t(n)]
                self.cache = {}
                self.ncache = {}
        return self.nl

    def _implied(self, l, facts, depth):
        if self._lb(l) >= 0:
            return True
        if depth <= 0:
            return False
        ats = {t: k for t, k in lin_of(l)[1]}
        for f in facts:
            # eliminate an atom of l that has the same sign in f
            done = set()
            for t, k in lin_of(f)[1]:
                q = ats.get(t)
                if q is None or (q > 0) != (k > 0):
                    continue
                if q % k:
                    continue
                m = q // k
                if m in done:
                    continue
                done.add(m)
                r = lin_comb(l, 1, f, -m)
                if self._lb(r) >= 0:
                    return True
                if depth > 1 and len(lin_of(r)[1]) <= len(ats) + 1:
                    if self._implied(r, facts, depth - 1):
                        return True
        return False

    def decide(self, b):
        """1 / 0 / None"""
        if not is_t(b):
            return 1 if b else 0
        r = self.cache.get(b)
        if r is not None:
            return r
        r = self._decide(b)
        if r is not None:
            self.cache[b] = r
        return r

    def _decide(self, b):
        b = self.norm(b)
        if not is_t(b):
            return 1 if b else 0
        v = self.lits.get(b)
        if v is not None:
            return v
        op = b.op
        if op == "bnot":
            r = self.decide(b.a[0])
            return None if r is None else 1 - r
        if op == "band":
            allk = True
            for x in b.a[0]:
                r = self.decide(x)
                if r == 0:
                    return 0
                if r is None:
                    allk = False
            return 1 if allk else None
        if op == "ge0":
            return self._dec_lin(b.a[0])
        if op == "eq0":
            l = b.a[0]
            lo, hi = self.rng(l)
            if lo > 0 or hi < 0:
                return 0
            if self._dec_lin(lin_comb(l, 1, 1, -1)) == 1:
                return 0
            if self._dec_lin(lin_comb(l, -1, 1, -1)) == 1:
                return 0
            # cat vs cat / value-wise facts were handled by norm
            d = self._dec_lin(l)
            if d == 1 and self._dec_lin(lmul(l, -1)) == 1:
                return 1
            return None
        if op == "sym" or op == "uf":
            lo, hi = self.arng(b)
            if lo == hi:
                return lo
        return None

    def need(self, b):
        """decide or partition"""
        r = self.decide(b)
        if r is None:
            b = self.norm(b)
            if is_t(b) and b.op == "band":
                for x in b.a[0]:
                    if self.decide(x) is None:
                        return self.need(x)
            if is_t(b) and b.op == "bnot":
                return 1 - self.need(b.a[0])
            if is_t(b) and b.op in ("ge0", "eq0"):
                self.expand(b.a[0])
            if is_t(b) and b.op == "getb" and is_t(b.a[0]) and b.a[0].op in ("setb", "clrb"):
                c = self.norm(eq(b.a[1], b.a[0].a[1]))
                if is_t(c):
                    return self.need(c) and self.need(b) or self.need(b)
            raise NeedSplit(b)
        return r

    # ------------------------------------------------------------ assumptions
    def _dirty(self):
        self.resl()
        self.cache = {}
        self.ncache = {}
        self.nl = None

    def assume(self, b, v):
        b0 = b
        b = self.norm(b)
        if not is_t(b):
            if (1 if b else 0) != v:
                raise Infeasible()
            return
        if b.op == "bnot":
            return self.assume(b.a[0], 1 - v)
        if b.op == "band" and v == 1:
            for x in b.a[0]:
                self.assume(x, 1)
            return
        d = self.decide(b)
        if d is not None:
            if d != v:
                raise Infeasible()
            return
        self.lits[b] = v
        if b.op == "ge0":
            l = b.a[0] if v else lin_comb(b.a[0], -1, 1, -1)
            self._add_lin(l)
        elif b.op == "eq0":
            if v:
                self._add_eq(b.a[0])
            else:
                l = b.a[0]
                if self._dec_lin(l) == 1:
                    self._add_lin(lin_comb(l, 1, 1, -1))
                elif self._dec_lin(lmul(l, -1)) == 1:
                    self._add_lin(lin_comb(l, -1, 1, -1))
        elif b.op == "getb":
            m = b.a[0]
            if v == 1 and is_t(m):
                self._add_lin(lsub(lsub(self._pop(m), self._rank(m, b.a[1])), 1))
        elif b.op == "sym" or b.op == "cat":
            self.sub[b] = v
        self._dirty()

    def _add_lin(self, l):
        l = self.norm(l)
        if not is_t(l):
            if l < 0:
                raise Infeasible()
            return
        c, ts = lin_of(l)
        if len(ts) == 1:
            t, k = ts[0]
            lo, hi = self.arng(t)
            if k > 0:
                lo = max(lo, -(c // k))   # k*t >= -c -> t >= ceil(-c/k)
            else:
                hi = min(hi, c // (-k))
            if lo > hi:
                raise Infeasible()
            # disequalities at the boundary
            ch = True
            while ch:
                ch = False
                if self.lits.get(eq0(lsub(t, lo))) == 0 and lo <= hi:
                    lo += 1
                    ch = True
                if self.lits.get(eq0(lsub(t, hi))) == 0 and lo <= hi:
                    hi -= 1
                    ch = True
            if lo > hi:
                raise Infeasible()
            self.bnd[t] = (lo, hi)
            if lo == hi:
                self.sub[t] = lo
            self._dirty()
            return
        if self._dec_lin(l) == 0:
            raise Infeasible()
        self.lins.append(l)
        self._dirty()
        # strengthen with a disequality
        if self.lits.get(eq0(l)) == 0:
            self.lins[-1] = lin_comb(l, 1, 1, -1)
        elif self._dec_lin(lmul(l, -1)) == 1:
            self._add_eq(l)

    def _add_eq(self, l):
        """l == 0"""
        e = self._eq0(l)
        if not is_t(e):
            if not e:
                raise Infeasible()
            return
        if e.op == "eq0":
            l = e.a[0]
        elif e.op == "band":        # slice by slice
            return self._restate(e)
        elif e.op in ("bnot", "sym", "cat", "getb"):
            return self.assume(e, 1)
        c, ts = lin_of(l)
        best = None
        for t, k in ts:
            if abs(k) != 1:
                continue
            # prefer substituting plain symbols, then the newest atom
            pr = (0 if t.op == "sym" else 2 if t.op == "nth" else 1, -t.id)
            if t.op in ("sym", "uf", "pop", "rank", "nth", "cat", "wsub", "wadd", "prod", "getb"):
                if best is None or pr < best[0]:
                    best = (pr, t, k)
        if best is None:
            self.lins.append(l)
            self.lins.append(lmul(l, -1))
            return
        _, t, k = best
        rest = lin_comb(l, -k, t, 1)      # t = -k*(l - k t) = t - k*l
        if occurs(t, rest):
            # choose another atom
            for t2, k2 in ts:
                if abs(k2) == 1 and t2 is not t:
                    r2 = lin_comb(l, -k2, t2, 1)
                    if not occurs(t2, r2):
                        t, rest = t2, r2
                        break
            else:
                self.lins.append(l)
                self.lins.append(lmul(l, -1))
                return
        lo, hi = self.rng(rest)
        a, b = self.arng(t)
        if hi < a or lo > b:
            raise Infeasible()
        # equations that mention t are stated again in terms of its value
        old = [(x, y) for x, y in self.sub.items() if occurs(t, x) or occurs(t, y)]
        for x, _ in old:
            del self.sub[x]
        self.sub[t] = rest
        self._dirty()
        for x, y in old:
            e = eq(self.norm(x), self.norm(y))
            if not is_t(e):
                if not e:
                    raise Infeasible()
            else:
                self._restate(e)
        # keep bounds of the eliminated atom
        if is_t(rest):
            rest = self.norm(rest)
            lo, hi = self.rng(rest)
            if lo < a:
                self._add_lin(lsub(rest, a))
            if hi > b:
                self._add_lin(lsub(b, rest))
        if t.op == "nth":       # its value is still that set bit
            m, k = self.norm(t.a[0]), self.norm(t.a[1])
            for e in (getb(m, self.norm(rest)), eq(self.norm(rank(m, self.norm(rest))), k)):
                e = self.norm(e)
                if is_t(e):
                    self.assume(e, 1)
                elif not e:
                    raise Infeasible()
        self._recheck()

    def _restate(self, e):
        """assert an equation even where a recorded literal already implies it"""
        if e.op == "band":
            for x in e.a[0]:
                x = self.norm(x)
                if is_t(x):
                    self._restate(x)
                elif not x:
                    raise Infeasible()
        elif e.op == "eq0":
            l = self.norm(e.a[0])
            if not is_t(l):
                if l != 0:
                    raise Infeasible()
                return
            self.lits[eq0(l)] = 1
            self._add_eq(l)
        else:
            self.assume(e, 1)

    def _recheck(self):
        for lit, v in list(self.lits.items()):
            r = self.norm2(lit)
            if not is_t(r):
                if r != v:
                    raise Infeasible()
                continue
            if r is not lit and self.lits.get(r, v) != v:
                raise Infeasible()
            if r is not lit and r not in self.lits:
                self.lits[r] = v
        for f in self.lins:
            if self.rng(self.norm(f))[1] < 0:
                raise Infeasible()

    def norm2(self, lit):
        """norm of a literal's arguments (not using the literal itself)"""
        sv = self.lits.pop(lit)
        try:
            self.ncache.pop(lit, None)
            r = self._norm(lit)
        finally:
            self.lits[lit] = sv
            self.ncache.pop(lit, None)
        return r

    # ------------------------------------------------------------ saturation of bit positions
    def positions(self):
        """bit positions talked about, per mask: {mask: [position terms]}"""
        out = {}
        seen = set()

        def add(m, i):
            m0 = m
            while is_t(m) and m.op in ("setb", "clrb", "low", "drop"):
                if m.op in ("setb", "clrb"):
                    add(m.a[0], m.a[1])
                m = m.a[0]
            if not is_t(m) or m.op not in ("sym", "uf"):
                return
            i = self.norm(i)
            l = out.setdefault(m, [])
            if i not in l:
                l.append(i)

        def visit(x):
            st = [x]
            while st:
                y = st.pop()
                if isinstance(y, tuple):
                    st.extend(y)
                    continue
                if not is_t(y) or y.id in seen:
                    continue
                seen.add(y.id)
                if y.op in ("getb", "rank", "setb", "clrb"):
                    add(y.a[0], y.a[1])
                elif y.op == "nth":
                    add(y.a[0], y)
                st.extend(y.a)
        for x in list(self.lits) + list(self.lins) + list(self.sub) + list(self.sub.values()):
            visit(x)
        for x in self.extra:
            visit(x)
        return out

    def refine(self):
        """raise Infeasible if the facts contradict each other; else an undecided order question
        between two bit positions of one mask, or None when all are settled"""
        self.consistent()
        q = []
        for m, ps in self.positions().items():
            on = [p for p in ps]
            for a in range(len(on)):
                for b in range(a + 1, len(on)):
                    i, j = on[a], on[b]
                    e = self.decide(eq(i, j))
                    if e == 1:
                        continue
                    u = self.decide(ult(i, j))
                    if u is None:
                        v = self.decide(ult(j, i))
                        if v == 1:
                            continue
                        return eq(i, j) if e is None else ult(i, j)
                    if u == 0 and e is None:
                        return eq(i, j)
        return None

    def consistent(self):
        self._recheck()
        # a solved-for term whose own meaning has become known since
        for x, y in list(self.sub.items()):
            if x.op not in ("rank", "pop", "getb", "nth", "wadd", "wsub"):
                continue
            del self.sub[x]
            self._dirty()
            r = self.norm(x)
            if r is x:
                self.sub[x] = y
                self._dirty()
                continue
            e = eq(r, self.norm(y))
            if not is_t(e):
                if not e:
                    raise Infeasible()
            else:
                self.assume(e, 1)
            return self.consistent()
        for m, ps in self.positions().items():
            m = self.norm(m)
            if not is_t(m):
                continue
            p = self._pop(m)
            hi = self.rng(p)[1]
            if hi < 8:
                on = []
                for i in ps:
                    if self._getb(m, i) != 1:
                        continue
                    if all(self.decide(eq(i, j)) == 0 for j in on):
                        on.append(i)
                if len(on) > hi:
                    raise Infeasible()
                if len(on) == hi:
                    for i in ps:
                        if self._getb(m, i) == 1 and i not in on:
                            u = [j for j in on if self.decide(eq(i, j)) != 0]
                            if not u:
                                raise Infeasible()
                            if len(u) == 1 and self.decide(eq(i, u[0])) is None:
                                self.assume(eq(i, u[0]), 1)
                                return self.consistent()
        for m, ps in self.positions().items():
            if ps:
                l = 0
                for k, i in enumerate(ps):
                    if is_t(i):
                        l = lin_comb(l, 1, mk("rank", m, i, hi=min(nbits(m), i.hi)), 1 + k)
                ax = self.axioms(l)
                fs = self.nlins() + [a for a in ax if is_t(a)]
                for a in ax:
                    if not is_t(a):
                        if a < 0:
                            raise Infeasible()
                    elif self._implied(lin_comb(a, -1, 1, -1), fs, 3):
                        raise Infeasible()
        for l in list(self.nlins()):
            if self._dec_lin(lin_comb(l, -1, 1, -1)) == 1 and self._implied(lin_comb(l, -1, 1, -1), [f for f in self.nlins() if f is not l] + [f for f in self.axioms(l) if is_t(f)], 3):
                raise Infeasible()
        # a disequality makes an inequality strict
        for lit, v in list(self.lits.items()):
            if v == 0 and lit.op == "eq0":
                l = self.norm(lit.a[0])
                if not is_t(l):
                    continue
                for l in (l, lmul(l, -1)):
                    if self._dec_lin(l) == 1 and self._dec_lin(lin_comb(l, 1, 1, -1)) is None:
                        self._add_lin(lin_comb(l, 1, 1, -1))
                        return self.consistent()
        # values that differ although all their slices agree
        for lit, v in list(self.lits.items()):
            if v == 0 and lit.op == "eq0":
                c, ts = lin_of(self.norm(lit.a[0]))
                if c == 0 and len(ts) == 2 and ts[0][1] == -ts[1][1]:
                    a, b = ts[0][0], ts[1][0]
                    if a.op in ("sym", "uf") and b.op in ("sym", "uf") and self.slices_agree(a, b):
                        raise Infeasible()

    def slices_agree(self, a, b):
        w = max(nbits(a), nbits(b))
        cuts = {0, w}
        for t in self.sub:
            if t.op == "cat" and len(t.a[0]) == 1 and t.a[0][0][0] in (a, b):
                cuts.add(t.a[0][0][1])
                cuts.add(min(w, t.a[0][0][1] + t.a[0][0][2]))
        cs = sorted(cuts)
        if len(cs) <= 2:
            return False
        for lo, hi in zip(cs, cs[1:]):
            if self.norm(bslice(a, lo, hi - lo)) is not self.norm(bslice(b, lo, hi - lo)):
                return False
        return True

    # ------------------------------------------------------------ arithmetic at width w
    def add(self, a, b, w):
        M = 1 << w
        if not is_t(a) and not is_t(b):
            return (a + b) & (M - 1)
        if a == 0 and not is_t(a):
            return b
        if b == 0 and not is_t(b):
            return a
        r = disjoint_or(a, b, w)
        if r is not None:
            return r
        # a + (2^w - c)  ==  a - c
        for x, y in ((a, b), (b, a)):
            if not is_t(y) and y >= M // 2:
                return self.sub_(x, M - y, w)
        s = ladd(a, b)
        lo, hi = self.rng(s)
        if 0 <= lo and hi < M:
            return s
        d = self._dec_lin(lsub(M - 1, self.norm(s)))
        if d == 1:
            return s
        return mk("wadd", *sorted((a, b), key=lambda t: t.id if is_t(t) else -1), w, hi=M - 1)

    def sub_(self, a, b, w):
        M = 1 << w
        if not is_t(a) and not is_t(b):
            return (a - b) & (M - 1)
        if b == 0 and not is_t(b):
            return a
        if a is b:
            return 0
        if is_t(a) and a.op == "bit" and b == 1:
            return mk("lowm", a.a[0], hi=(1 << a.a[0].hi) - 1, mask=True)
        if a == 0 and not is_t(a):
            return wneg(b, w)
        if is_t(a) and (a.op == "wadd") and a.a[2] == w:
            # (x + y) - y
            x, y = a.a[0], a.a[1]
            if y is b or (not is_t(y) and not is_t(b) and y == b):
                return x
            if x is b or (not is_t(x) and not is_t(b) and x == b):
                return y
        s = lsub(a, b)
        if not is_t(s):
            return s & (M - 1)
        n = self.norm(s)
        lo, hi = self.rng(n)
        if lo >= 0 and hi < M:
            return s
        if self._dec_lin(n) == 1:
            return s
        return mk("wsub", a, b, w, hi=M - 1)

    def mul(self, a, b, w):
        M = 1 << w
        if not is_t(a) and not is_t(b):
            return (a * b) & (M - 1)
        if is_t(a):
            a, b = b, a
        if not is_t(a):
            if a == 0:
                return 0
            if a == 1:
                return b
            if a & (a - 1) == 0 and b.op in ("cat",):
                return shl_c(b, a.bit_length() - 1, w)
            s = lmul(b, a)
            lo, hi = self.rng(s)
            if 0 <= lo and hi < M:
                return s
            n = self.norm(s)
            if self._dec_lin(lsub(M - 1, n)) == 1:
                return s
            return mk("wmul", b, a, w, hi=M - 1)
        for x, y in ((a, b), (b, a)):
            if x.hi <= 1:
                return y if self.need(x) else 0
        x, y = sorted((a, b), key=lambda t: t.id)
        hi = self.rng(x)[1] * self.rng(y)[1]
        if hi < M:
            return mk("prod", x, y, hi=hi)
        return mk("wmul", x, y, w, hi=M - 1)

    def shl(self, a, n, w):
        n = self.norm(n)
        if not is_t(n):
            return shl_c(a, n & (w - 1), w)
        if not is_t(a):
            if a == 0:
                return 0
            if n.hi < w or self._dec_lin(lsub(w - 1, n)) == 1:
                if a == 1:
                    return mk("bit", n, hi=(1 << (w - 1)))
                if a == (1 << w) - 1:
                    return bits_not(mk("lowm", n, hi=(1 << w) // 2 - 1, mask=True), w)
        return mk("shlv", a, n, w, hi=(1 << w) - 1)

    def shr(self, a, n, w):
        n = self.norm(n)
        if not is_t(n):
            return shr_c(a, n & (w - 1), w)
        return mk("shrv", a, n, w, hi=(a.hi if is_t(a) else a))

    def bitop(self, op, a, b, w):
        # (m >> i) & 1
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if is_t(x) and x.op == "shrv" and y == 1 and not is_t(y):
                    return self.norm(getb(x.a[0], x.a[1]))
        if op == "xor":
            # toggling a bit that is known
            for x, y in ((a, b), (b, a)):
                if is_t(y) and y.op == "bit":
                    g = self.need(getb(x, y.a[0]))
                    return clrb(x, y.a[0], w) if g else setb(x, y.a[0], w)
                if is_t(y) and y.op == "bitif":
                    if self.need(y.a[0]):
                        return self.bitop(op, x, mk("bit", y.a[1], hi=y.hi), w)
                    return x
        for x, y in ((a, b), (b, a)):
            # x op (flag << i)
            if is_t(y) and y.op == "shlv" and is_t(y.a[0]) and y.a[0].hi <= 1 and not is_t(x) is None:
                if self.need(y.a[0]):
                    y2 = self.shl(1, y.a[1], w)
                else:
                    y2 = 0
                return self.bitop(op, x, y2, w)
            if is_t(y) and y.op == "bitif" and op in ("or",):
                if self.need(y.a[0]):
                    return self.bitop(op, x, mk("bit", y.a[1], hi=y.hi), w)
                return x
        if op == "and":
            for x, y in ((a, b), (b, a)):
                # x & (MAX << n): the bits from n on
                if is_t(y) and y.op == "bits_not" and is_t(y.a[0]) and y.a[0].op == "lowm" and is_t(x) and x.op in ("sym", "uf", "drop", "and", "or", "setb", "clrb"):
                    n = y.a[0].a[0]
                    if x.op == "drop":
                        m, k = x.a
                        r = self.norm(mk("rank", m, n, hi=min(nbits(m), n.hi)))
                        if not self.need(ge0(lsub(r, k))):
                            return x
                        return self.norm(drop_c(m, r))
                    return self.norm(drop_c(x, self._rank(x, n)))
        return bitop(op, a, b, w)


def wneg(x, w):
    if not is_t(x):
        return (-x) & ((1 << w) - 1)
    if x.hi == 1 and False:
        pass
    return mk("wneg", x, w, hi=(1 << w) - 1)


def drop_c(m, k):
    if not is_t(m) and not is_t(k):
        for _ in range(k):
            m &= m - 1
        return m
    if not is_t(k) and k == 0:
        return m
    return mk("drop", m, k, hi=M64, mask=True)


def nth_c(m, k):
    if not is_t(k):
        for _ in range(k):
            m &= m - 1
        if m == 0:
            raise Infeasible()
        return (m & -m).bit_length() - 1
    return mk("nth", m, k, hi=max(m.bit_length() - 1, 0))


def has_op(x, op):
    return any(t.op == op for t, _ in lin_of(x)[1])


def occurs(t, x):
    if not is_t(x):
        return False
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if y is t:
            return True
        if is_t(y):
            if y.id in seen:
                continue
            seen.add(y.id)
            st.extend(y.a)
        elif isinstance(y, tuple):
            st.extend(y)
    return False


def disjoint_or(a, b, w):
    """a + b when no bit position can be set in both"""
    for x in (a, b):
        if is_t(x) and x.op == "lin":
            return None
    if not ((is_t(a) and a.op == "cat") or (is_t(b) and b.op == "cat")):
        # only shifted slices (or constants above/below a narrow value) qualify
        if not (is_t(a) ^ is_t(b)):
            return None
        t, c = (a, b) if is_t(a) else (b, a)
        # keep small increments linear
        return None
    pairs = seg_split_const(align(segs_of(a, w), segs_of(b, w)))
    out = []
    for s, t in pairs:
        if cbit(s) == 0:
            out.append(t)
        elif cbit(t) == 0:
            out.append(s)
        else:
            return None
    return cat_mk(out)
