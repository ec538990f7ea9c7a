"""Abstract value domain.

Integers are value-numbered terms in a canonical form:
  * python int            known constant
  * sym / uf              unknown input / result of an opaque (user) function, with an interval
  * lin                   linear combination of atoms over the integers (no wrap-around)
  * cat                   concatenation of bit slices (bit-provenance domain)
  * mask terms            setb / clrb / low / drop / and / or / not over bit masks with unknown
                          bit positions, with pop / rank / getb / nth as their observers
Two source expressions computing the same function of the inputs through shifts, masks, linear
arithmetic or bit set/clear/count reach the same term.  Nothing here enumerates inputs and no
solver is involved: facts are intervals, (in)equalities between linear forms and literals, and a
question the facts do not settle raises NeedSplit, on which the interpreter partitions the state.
"""
M64 = (1 << 64) - 1


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


_tab = {}
_ctr = [0]


class T:
    __slots__ = ("op", "a", "id", "hi", "mask")

    def __repr__(self):
        return show(self)


def mk(op, *a, hi=None, mask=False):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _ctr[0] += 1
        t.id = _ctr[0]
        t.hi = M64 if hi is None else hi
        t.mask = mask
        _tab[k] = t
    return t


def sym(name, hi=M64, mask=False):
    """An unknown with values 0..hi; mask=True marks it a bit set of hi.bit_length() bits."""
    return mk("sym", name, hi, mask, hi=hi, mask=mask)


def uf(name, args, hi=M64, mask=False):
    return mk("uf", name, args, hi, mask, hi=hi, mask=mask)


def is_t(x):
    return type(x) is T


def show(x, d=0):
    if not is_t(x):
        if isinstance(x, tuple):
            return "(" + ",".join(show(y, d + 1) for y in x) + ")"
        return str(x)
    if x.op == "sym":
        return x.a[0]
    if x.op == "lin":
        c, ts = x.a
        s = "+".join((f"{k}*" if k != 1 else "") + show(t, d + 1) for t, k in ts)
        return s + (f"+{c}" if c else "")
    if x.op == "uf":
        return f"{x.a[0]}{show(x.a[1], d + 1)}"
    return f"{x.op}(" + ",".join(show(y, d + 1) for y in x.a) + ")"


# ---------------------------------------------------------------- linear forms
# (const, {atom: coef}) as tuple (c, ((atom, coef), ...)) sorted by id
def lin_of(x):
    if not is_t(x):
        return (x, ())
    if x.op == "lin":
        return x.a
    if x.op == "cat":
        r = _catlin.get(x)
        if r is None:
            # constant bits of a concatenation are a constant summand
            c = pos = 0
            segs = []
            for s, lo, n in x.a[0]:
                if lo is None and s:
                    c += s << pos
                    segs.append((0, None, n))
                else:
                    segs.append((s, lo, n))
                pos += n
            if c:
                k, ts = lin_of(cat_mk(segs))
                r = (k + c, ts)
            else:
                r = (0, ((x, 1),))
            _catlin[x] = r
        return r
    return (0, ((x, 1),))


_catlin = {}


def maybe_bits(x):
    """superset of the bits that can be set"""
    if x.op == "cat":
        r = pos = 0
        for s, lo, n in x.a[0]:
            if lo is not None:
                r |= ((1 << n) - 1) << pos
            else:
                r |= s << pos
            pos += n
        return r
    return (1 << x.hi.bit_length()) - 1


def cat_const(t, c):
    """t + c where no bit of c can be set in t, as a concatenation"""
    w = max(t.hi.bit_length(), c.bit_length())
    out = []
    pos = 0
    for s, lo, n in segs_of(t, w):
        v = (c >> pos) & ((1 << n) - 1)
        if lo is None:
            out.append((s | v, None, n))
        else:
            out.append((s, lo, n))
        pos += n
    return cat_mk(out)


def lin_mk(c, d):
    """dict -> canonical value (int, atom or lin term)"""
    items = [(t, k) for t, k in d.items() if k]
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    if len(items) == 1 and items[0][1] == 1 and 0 < c <= M64 and not maybe_bits(items[0][0]) & c and items[0][0].op != "lin":
        return cat_const(items[0][0], c)
    items.sort(key=lambda p: p[0].id)
    return mk("lin", c, tuple(items))


def lin_comb(a, ka, b, kb):
    ca, ta = lin_of(a)
    cb, tb = lin_of(b)
    d = {}
    for t, k in ta:
        d[t] = d.get(t, 0) + k * ka
    for t, k in tb:
        d[t] = d.get(t, 0) + k * kb
    return lin_mk(ca * ka + cb * kb, d)


def ladd(a, b):
    return lin_comb(a, 1, b, 1)


def lsub(a, b):
    return lin_comb(a, 1, b, -1)


def lmul(a, k):
    return lin_comb(a, k, 0, 0)


# ---------------------------------------------------------------- bit slices
def nbits(x):
    return (x.bit_length() if not is_t(x) else x.hi.bit_length())


def segs_of(x, w):
    """LSB-first list of (src|int, lo, n); src None for constants: (int value, None, n)"""
    if not is_t(x):
        return [(x & ((1 << w) - 1), None, w)]
    if x.op == "cat":
        out = []
        tot = 0
        for s in x.a[0]:
            if tot >= w:
                break
            src, lo, n = s
            n2 = min(n, w - tot)
            if lo is None:
                out.append((src & ((1 << n2) - 1), None, n2))
            else:
                out.append((src, lo, n2))
            tot += n2
        if tot < w:
            out.append((0, None, w - tot))
        return out
    n = min(nbits(x), w)
    if n == 0:
        return [(0, None, w)]
    out = [(x, 0, n)]
    if n < w:
        out.append((0, None, w - n))
    return out


def _segn(segs):
    return sum(s[2] for s in segs)


def cat_mk(segs):
    # merge neighbours
    out = []
    for src, lo, n in segs:
        if n == 0:
            continue
        if lo is not None and is_t(src) and src.op == "bnot" and False:
            pass
        if out:
            ps, pl, pn = out[-1]
            if lo is None and pl is None:
                out[-1] = (ps | (src << pn), None, pn + n)
                continue
            if lo is not None and pl is not None and ps is src and pl + pn == lo:
                out[-1] = (ps, pl, pn + n)
                continue
        out.append((src, lo, n))
    # drop leading zero bits at the top
    while out and out[-1][1] is None:
        v, _, n = out[-1]
        if v == 0:
            out.pop()
        else:
            out[-1] = (v, None, v.bit_length())
            break
    if not out:
        return 0
    if len(out) == 1:
        src, lo, n = out[0]
        if lo is None:
            return src
        if lo == 0 and n >= nbits(src):
            return src
    # trim a top segment that extends beyond its source
    src, lo, n = out[-1]
    if lo is not None:
        keep = max(0, min(n, nbits(src) - lo))
        if keep < n:
            out[-1] = (src, lo, keep)
            return cat_mk(out)
    hi = 0
    pos = 0
    for src, lo, n in out:
        if lo is None:
            hi += src << pos
        else:
            h = (1 << n) - 1
            if lo + n >= nbits(src):
                h = min(h, src.hi >> lo)
            hi += h << pos
        pos += n
    return mk("cat", tuple(out), hi=hi)


def slice_segs(segs, lo, n):
    out = []
    pos = 0
    for src, sl, k in segs:
        a = max(pos, lo)
        b = min(pos + k, lo + n)
        if a < b:
            if sl is None:
                out.append(((src >> (a - pos)) & ((1 << (b - a)) - 1), None, b - a))
            else:
                out.append((src, sl + (a - pos), b - a))
        pos += k
    got = _segn(out)
    if got < n:
        out.append((0, None, n - got))
    return out


def bslice(x, lo, n):
    """bits lo..lo+n of x"""
    if not is_t(x):
        return (x >> lo) & ((1 << n) - 1)
    if lo == 0 and x.hi < (1 << n):
        return x
    if x.hi < (1 << lo):
        return 0
    if x.op in ("and", "or", "xor"):
        # slices distribute over bitwise operators
        parts = [bslice(y, lo, n) for y in x.a[0]]
        return bitop_many(x.op, parts, n)
    if x.op == "bits_not":
        w = x.a[1]
        if lo + n <= w:
            return bits_not(bslice(x.a[0], lo, n), n)
    return cat_mk(slice_segs(segs_of(x, lo + n), lo, n))


def shl_c(x, k, w):
    if not is_t(x):
        return (x << k) & ((1 << w) - 1)
    if k == 0:
        return x
    if k >= w:
        return 0
    if x.op in ("getb", "bnot", "eq0", "ge0"):
        pass
    s = [(0, None, k)] + slice_segs(segs_of(x, w), 0, w - k)
    return cat_mk(s)


def shr_c(x, k, w):
    if not is_t(x):
        return x >> k
    if k == 0:
        return x
    return bslice(x, k, w - k)


def align(sa, sb):
    """split two segment lists at common boundaries"""
    ra, rb = list(sa), list(sb)
    out = []
    ia = ib = 0
    oa = ob = 0
    while ia < len(ra) and ib < len(rb):
        na = ra[ia][2] - oa
        nb = rb[ib][2] - ob
        n = min(na, nb)
        out.append((sub_seg(ra[ia], oa, n), sub_seg(rb[ib], ob, n)))
        oa += n
        ob += n
        if oa == ra[ia][2]:
            ia += 1
            oa = 0
        if ob == rb[ib][2]:
            ib += 1
            ob = 0
    return out


def sub_seg(s, off, n):
    src, lo, k = s
    if lo is None:
        return ((src >> off) & ((1 << n) - 1), None, n)
    return (src, lo + off, n)


def runs(v, n):
    """split constant of n bits into runs of equal bits: [(bit, len)]"""
    out = []
    i = 0
    while i < n:
        b = (v >> i) & 1
        j = i
        while j < n and ((v >> j) & 1) == b:
            j += 1
        out.append((b, j - i))
        i = j
    return out


def seg_split_const(pairs):
    """refine so that constant parts are runs of equal bits"""
    out = []
    for s, t in pairs:
        n = s[2]
        cuts = [n]
        for q in (s, t):
            if q[1] is None:
                p = 0
                for _, l in runs(q[0], n):
                    p += l
                    cuts.append(p)
        pos = 0
        for c in sorted(set(cuts)):
            if c > pos:
                out.append((sub_seg(s, pos, c - pos), sub_seg(t, pos, c - pos)))
                pos = c
    return out


def cbit(seg):
    """0/1 if the segment is a constant run, else None"""
    src, lo, n = seg
    if lo is not None:
        return None
    if src == 0:
        return 0
    if src == (1 << n) - 1:
        return 1
    return None


def seg_term(seg):
    return cat_mk([seg])


def bitop_many(op, xs, w):
    r = xs[0]
    for y in xs[1:]:
        r = bitop(op, r, y, w)
    return r


def bits_not(x, w):
    m = (1 << w) - 1
    if not is_t(x):
        return x ^ m
    if x.op == "bits_not" and x.a[1] == w:
        return x.a[0]
    if x.op == "bnot" and w == 1:
        return x.a[0]
    if w == 1 and x.hi <= 1:
        return bnot(x)
    if x.op == "cat":
        out = []
        for s in segs_of(x, w):
            if s[1] is None:
                out.append((s[0] ^ ((1 << s[2]) - 1), None, s[2]))
            else:
                t = bits_not(seg_term(s), s[2])
                if is_t(t):
                    out.append((t, 0, s[2]))
                else:
                    out.append((t, None, s[2]))
        return cat_mk(out)
    return mk("bits_not", x, w, hi=m, mask=True)


def is_singlebit(x):
    """x == 1 << i  -> i"""
    if is_t(x):
        if x.op == "bit":
            return x.a[0]
        return None
    if x and x & (x - 1) == 0:
        return x.bit_length() - 1
    return None


def low_of(m, i):
    """m restricted to bits below i"""
    if not is_t(i):
        return bslice(m, 0, i) if i > 0 else 0
    if not is_t(m):
        if m == 0:
            return 0
        if m == M64:
            return mk("lowm", i, hi=M64 >> 1 if i.hi < 64 else M64, mask=True)
    if is_t(m) and m.op == "low" and m.a[1] is i:
        return m
    return mk("low", m, i, hi=m.hi if is_t(m) else m, mask=True)


def setb(m, i, w=64):
    if not is_t(i):
        return bitop_raw("or", m, 1 << i, w)
    if is_t(m) and m.op in ("setb",) and m.a[1] is i:
        return m
    if is_t(m) and m.op == "clrb" and m.a[1] is i:
        return setb(m.a[0], i, w)
    return mk("setb", m, i, hi=(1 << w) - 1, mask=True)


def clrb(m, i, w=64):
    if not is_t(m) and m == 0:
        return 0
    if not is_t(i):
        return bitop_raw("and", m, ((1 << w) - 1) ^ (1 << i), w)
    if is_t(m) and m.op == "clrb" and m.a[1] is i:
        return m
    if is_t(m) and m.op == "setb" and m.a[1] is i:
        return clrb(m.a[0], i, w)
    if is_t(i) and i.op == "nth":
        mm, k = i.a
        if mm is m and k == 0:
            return mk("drop", m, 1, hi=m.hi, mask=True)
        if is_t(m) and m.op == "drop" and m.a[0] is mm and m.a[1] == k:
            return mk("drop", mm, ladd(k, 1), hi=m.hi, mask=True)
    return mk("clrb", m, i, hi=m.hi if is_t(m) else m, mask=True)


def tz(m):
    """lowest set bit of a non-zero mask"""
    if is_t(m) and m.op == "drop":
        return mk("nth", m.a[0], m.a[1], hi=nbits(m) - 1)
    return mk("nth", m, 0, hi=max(nbits(m) - 1, 0))


def lowbit_of(a, b):
    """a & -a"""
    if is_t(b) and b.op == "wneg" and b.a[0] is a:
        return True
    return False


def bitop_raw(op, a, b, w):
    m = (1 << w) - 1
    if not is_t(a) and not is_t(b):
        return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
    pairs = seg_split_const(align(segs_of(a, w), segs_of(b, w)))
    out = []
    simple = True
    opaque = 0
    for s, t in pairs:
        cs, ct = cbit(s), cbit(t)
        n = s[2]
        if s[1] is None and t[1] is None:
            v = {"and": s[0] & t[0], "or": s[0] | t[0], "xor": s[0] ^ t[0]}[op]
            out.append((v, None, n))
            continue
        if cs is not None and ct is None:
            s, t, cs, ct = t, s, ct, cs
        if ct is not None:
            if op == "and":
                out.append(s if ct else (0, None, n))
                continue
            if op == "or":
                out.append(((1 << n) - 1, None, n) if ct else s)
                continue
            if op == "xor":
                if ct == 0:
                    out.append(s)
                else:
                    v = bits_not(seg_term(s), n)
                    out.append((v, 0, n) if is_t(v) else (v, None, n))
                continue
        if s == t:
            out.append((0, None, n) if op == "xor" else s)
            continue
        # genuinely combined
        x, y = seg_term(s), seg_term(t)
        opaque += 1
        v = comb(op, x, y, n)
        out.append((v, 0, n) if is_t(v) else (v, None, n))
    return cat_mk(out)


def comb(op, x, y, w):
    """combine two non-constant w-bit values bitwise"""
    if is_t(x) and is_t(y):
        nx = x.op == "bits_not" and x.a[0] is y or (x.op == "bnot" and x.a[0] is y)
        ny = y.op == "bits_not" and y.a[0] is x or (y.op == "bnot" and y.a[0] is x)
        if nx or ny:
            return 0 if op == "and" else (1 << w) - 1
    if w == 1 and op == "and":
        return band([x, y])
    if w == 1 and op == "or":
        return bnot(band([bnot(x), bnot(y)]))
    xs = []
    for z in (x, y):
        if z.op == op:
            xs.extend(z.a[0])
        else:
            xs.append(z)
    if op in ("and", "or"):
        xs = sorted(set(xs), key=lambda t: t.id)
        if op == "and":
            for z in xs:
                if z.op == "bits_not" and z.a[0] in xs:
                    return 0
    else:
        d = {}
        for z in xs:
            d[z] = d.get(z, 0) ^ 1
        xs = sorted([z for z in d if d[z]], key=lambda t: t.id)
        if not xs:
            return 0
    if len(xs) == 1:
        return xs[0]
    hi = (1 << w) - 1
    if op == "and":
        hi = min(z.hi for z in xs)
        hi = (1 << hi.bit_length()) - 1 if hi else 0
    return mk(op, tuple(xs), hi=hi, mask=True)


def bitop(op, a, b, w):
    """and/or/xor with the mask idioms recognised"""
    if is_t(a) or is_t(b):
        for x, y in ((a, b), (b, a)):
            if not is_t(y):
                continue
            if op == "and":
                if y.op == "bit":
                    # x & (1<<i)
                    g = getb(x, y.a[0])
                    if not is_t(g):
                        return y if g else 0
                    return mk("bitif", g, y.a[0], hi=y.hi)
                if y.op == "bits_not" and is_t(y.a[0]) and y.a[0].op == "bit":
                    return clrb(x, y.a[0].a[0], w)
                if y.op == "lowm":
                    return low_of(x, y.a[0])
                if y.op == "wneg" and y.a[0] is x:
                    return mk("bit", tz(x), hi=y.hi)
                if y.op == "wsub" and y.a[0] is x and y.a[1] == 1:
                    return clrb(x, tz(x), w)
            elif op == "or":
                if y.op == "bit":
                    return setb(x, y.a[0], w)
            elif op == "xor":
                if y.op == "bit":
                    g = getb(x, y.a[0])
                    if is_t(g) and is_t(y.a[0]) and y.a[0].op == "nth":
                        g = known_getb(x, y.a[0], g)
                    if not is_t(g):
                        return clrb(x, y.a[0], w) if g else setb(x, y.a[0], w)
                    raise NeedSplit(g)
    return bitop_raw(op, a, b, w)


def known_getb(m, i, g):
    if is_t(i) and i.op == "nth":
        mm, k = i.a
        if mm is m:
            return 1
        if is_t(m) and m.op == "drop" and m.a[0] is mm and m.a[1] == k:
            return 1
    return g


def getb(m, i):
    """bit i of m (0/1)"""
    if not is_t(i):
        return bslice(m, i, 1)
    if not is_t(m):
        if m == 0:
            return 0
        n = m.bit_length()
        if m == (1 << n) - 1 and i.hi < n:
            return 1
    if is_t(m):
        if i.op == "nth":
            g = known_getb(m, i, None)
            if g is not None:
                return g
        if m.op == "and":
            return band([getb(x, i) for x in m.a[0]])
        if m.op == "or":
            return bnot(band([bnot(getb(x, i)) for x in m.a[0]]))
        if m.op == "bits_not":
            return bnot(getb(m.a[0], i))
        if m.op == "setb" and m.a[1] is i:
            return 1
        if m.op == "clrb" and m.a[1] is i:
            return 0
        if m.op == "low" and m.a[1] is i:
            return 0
    return mk("getb", m, i, hi=1)


# ---------------------------------------------------------------- booleans
def bnot(b):
    if not is_t(b):
        return 1 - b
    if b.op == "bnot":
        return b.a[0]
    if b.op == "ge0":
        l = b.a[0]
        return ge0(lin_comb(l, -1, 1, -1))
    return mk("bnot", b, hi=1)


def band(xs):
    out = []
    for x in xs:
        if not is_t(x):
            if x == 0:
                return 0
            continue
        if x.op == "band":
            out.extend(x.a[0])
        else:
            out.append(x)
    s = sorted(set(out), key=lambda t: t.id)
    for x in s:
        if x.op == "bnot" and x.a[0] in s:
            return 0
    if not s:
        return 1
    if len(s) == 1:
        return s[0]
    return mk("band", tuple(s), hi=1)


def ge0(l):
    if not is_t(l):
        return 1 if l >= 0 else 0
    c, ts = lin_of(l)
    # normalise by gcd
    from math import gcd
    g = 0
    for _, k in ts:
        g = gcd(g, abs(k))
    if g > 1:
        l = lin_mk(c // g, {t: k // g for t, k in ts})
    lo, hi = rng0(l)
    if lo >= 0:
        return 1
    if hi < 0:
        return 0
    return mk("ge0", l, hi=1)


def rng0(l):
    """interval without facts"""
    c, ts = lin_of(l)
    lo = hi = c
    for t, k in ts:
        if k > 0:
            hi += k * t.hi
        else:
            lo += k * t.hi
    return lo, hi


def eq0(l):
    if not is_t(l):
        return 1 if l == 0 else 0
    c, ts = lin_of(l)
    from math import gcd
    g = 0
    for _, k in ts:
        g = gcd(g, abs(k))
    if g > 1:
        if c % g:
            return 0
        c //= g
        ts = tuple((t, k // g) for t, k in ts)
    if ts[0][1] < 0:
        c = -c
        ts = tuple((t, -k) for t, k in ts)
    lo = hi = c
    for t, k in ts:
        if k > 0:
            hi += k * t.hi
        else:
            lo += k * t.hi
    if lo > 0 or hi < 0:
        return 0
    if c == 0 and len(ts) == 1:
        t = ts[0][0]
        if t.hi == 1:
            return bnot(t)
        if t.op == "bitif":
            return bnot(t.a[0])
        if t.op == "bit":
            return 0
        if t.op == "lowm":
            return eq0(t.a[0])
        if t.op == "setb":
            return 0
        if t.mask:
            return eq0(pop(t))
        if t.op == "cat":
            # every slice is zero
            lits = []
            for s in t.a[0]:
                if s[1] is None:
                    if s[0]:
                        return 0
                else:
                    lits.append(eq0(seg_term(s)) if len(t.a[0]) > 1 else None)
            if None not in lits:
                return band(lits)
    if len(ts) == 1 and ts[0][1] == 1 and c == -1 and ts[0][0].hi == 1:
        return ts[0][0]
    return mk("eq0", lin_mk(c, dict(ts)), hi=1)


def eq(a, b):
    """a == b for two values of the same width"""
    if a is b:
        return 1
    if not is_t(a) and not is_t(b):
        return 1 if a == b else 0
    ca = is_t(a) and a.op == "cat"
    cb = is_t(b) and b.op == "cat"
    if ca or cb:
        w = max(nbits(a), nbits(b))
        o = b if ca else a
        if (ca and cb) or not is_t(o) or o.op in ("sym", "uf"):
            lits = []
            for s, t in align(segs_of(a, w), segs_of(b, w)):
                if s == t:
                    continue
                x, y = seg_term(s), seg_term(t)
                if (is_t(x) and x.op == "cat") or (is_t(y) and y.op == "cat"):
                    e = eq0(lsub(x, y))
                else:
                    e = eq(x, y)
                if e == 0 and not is_t(e):
                    return 0
                lits.append(e)
            return band(lits)
    if is_t(a) and is_t(b) and a.hi == 1 and b.hi == 1:
        # booleans
        if a.op == "bnot" and b.op == "bnot":
            return eq(a.a[0], b.a[0])
    return eq0(lsub(a, b))


def ult(a, b):
    """a < b"""
    if not is_t(a) and not is_t(b):
        return 1 if a < b else 0
    return ge0(lin_comb(lsub(b, a), 1, 1, -1))


# ---------------------------------------------------------------- counting
def pop(m):
    if not is_t(m):
        return bin(m).count("1")
    if m.hi == 1:
        return m
    if m.op == "bit":
        return 1
    if m.op == "lowm":
        return m.a[0]
    if m.op == "low":
        return rank(m.a[0], m.a[1])
    if m.op == "drop":
        return lsub(pop(m.a[0]), m.a[1])
    if m.op == "cat":
        r = 0
        for s in m.a[0]:
            r = ladd(r, pop(seg_term(s)) if len(m.a[0]) > 1 or s[1] is None else mk("pop", m, hi=nbits(m)))
        return r
    return mk("pop", m, hi=nbits(m))


def rank(m, i):
    """number of set bits of m below i"""
    if not is_t(i):
        return pop(low_of(m, i)) if i > 0 else 0
    if not is_t(m):
        if m == 0:
            return 0
    if is_t(i) and i.op == "nth":
        mm, k = i.a
        if mm is m:
            return k
    return mk("rank", m, i, hi=min(nbits(m), i.hi))
