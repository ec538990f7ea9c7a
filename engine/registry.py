"""Which obligations decide which property."""
import itertools
import opschk

OBS = []


def ob(name, mod, fn, args, props, tier="quick", cost=1.0, **kw):
    OBS.append(dict(name=name, mod=mod, fn=fn, args=tuple(args), props=list(props), tier=tier, cost=cost, kw=kw))


def modes(walk, D):
    """checked/unchecked choices along a walk: free on the final descent, uniform before it"""
    names = [n for _, n in walk]
    last = 0
    for i, n in enumerate(names):
        if n is not None and n.startswith("j"):
            last = i + 1
    pre, post = walk[:last], walk[last:]
    out = []
    for a in (["c", "u"] if pre else [""]):
        for b in itertools.product("cu", repeat=len(post)):
            out.append(a * len(pre) + "".join(b))
    return out


def load():
    if OBS:
        return OBS
    # ---------------------------------------------------------------- DenseTree
    for D in (1, 2, 3, 4):
        t = "quick" if D <= 3 else "thorough"
        q = "quick"
        ob(f"dense{D}.new", "densechk", "ob_new", (D,), ["C06", "C10"])
        ob(f"dense{D}.get", "densechk", "ob_get", (D, "get"), ["C08", "C10"], q)
        ob(f"dense{D}.get_unchecked", "densechk", "ob_get", (D, "get_unchecked"), ["C08", "C10"], q)
        ob(f"dense{D}.key_values", "densechk", "ob_key_values", (D, "key_values"), ["C08", "C10"], q)
        ob(f"dense{D}.key_values_mut", "densechk", "ob_key_values", (D, "key_values_mut"), ["C08", "C10"], q)
        ob(f"dense{D}.insert", "densechk", "ob_insert", (D,), ["C06", "C10", "C12", "C19"], q, cost=2.0 * D)
        ob(f"dense{D}.get_or_insert", "densechk", "ob_get_or_insert", (D,), ["C06", "C10", "C12", "C19"], q, cost=2.0 * D)
        ob(f"dense{D}.remove", "densechk", "ob_remove", (D,), ["C07", "C10", "C12", "C19"], q, cost=4.0 * D)
        for op in ("get", "insert", "get_or_insert", "remove"):
            ob(f"dense{D}.{op}.out_of_range", "gatechk", "ob_dense", (D, op), ["C01"])
    for D in (1, 2, 3, 4):
        for wi, w in enumerate(opschk.walks(D)):
            for m in modes(w, D):
                for fin in "cu":
                    ob(f"dense{D}.cursor{wi}.{m}.{fin}", "curchk", "ob_cursor", ("dense", (D,), D, w, m, fin), ["C09", "C10"], "quick" if D < 4 else "thorough", cost=0.02 * D * D)
    F = -0xFFFFFFFFFFFFFFFF     # all 64 children
    for D, caps in ((1, [(5,), (F,)]), (2, [(3, 2), (1, F)]), (3, [(2, 2, 2)]), (4, [(1, 2, 2, 1), (2, 1, 1, 2)])):
        for cap in caps:
            for ex in (True, False):
                ob(f"dense{D}.materialize.{'exact' if ex else 'inexact'}.{caps.index(cap)}", "matchk", "ob_mat", (D, ex, cap), ["C18", "C10", "C12", "C19"], cost=3)
    ob("dense2.materialize.exact.full", "matchk", "ob_mat", (2, True, (F, 1)), ["C18", "C10", "C12", "C19"])
    for D, cap in ((1, 6), (2, 4), (3, 3), (4, 2)):
        ob(f"dense{D}.drop", "matchk", "ob_drop", (D, cap), ["C10", "C12"])
    # ---------------------------------------------------------------- SparseTree
    SP = {"sparse64_1": (6, 1), "sparse64_1d": (6, 1), "sparse64_2": (6, 2), "sparse64_2d": (6, 2), "sparse64_3": (6, 3), "sparse64_4": (6, 4),
          "sparse128_1": (7, 1), "sparse128_2": (7, 2), "sparse256_1": (8, 1), "sparse256_2": (8, 2), "sparse256_2d": (8, 2)}
    for m, (b, D) in SP.items():
        big = D > 3 or b > 6 and D > 1
        c = (1 << (b - 6)) ** 2 * D * D
        ob(f"{m}.new", "sparsechk", "ob_new", (m,), ["C04", "C10"])
        gets = ["get", "get_unchecked", "get_mut"] + (["get_or_default"] if m.endswith("d") else ["get_mut_unchecked"])
        for op in gets:
            if op == "get_or_default" and not m.endswith("d"):
                continue
            ob(f"{m}.{op}", "sparsechk", "ob_get", (m, op), ["C08", "C10"])
        for op in ("key_values", "key_values_mut"):
            ob(f"{m}.{op}", "sparsechk", "ob_key_values", (m, op), ["C08", "C10"])
        t = "thorough" if big and m != "sparse128_2" else "quick"
        ob(f"{m}.insert", "sparsechk", "ob_insert", (m,), ["C04", "C10", "C12", "C19"], t, cost=2.0 * c)
        ob(f"{m}.get_or_insert", "sparsechk", "ob_get_or_insert", (m,), ["C04", "C10", "C12", "C19"], t, cost=2.0 * c)
        ob(f"{m}.remove", "sparsechk", "ob_remove", (m,), ["C05", "C10", "C12", "C19"], "thorough" if big else "quick", cost=4.0 * c)
        ob(f"{m}.drop", "sparsechk", "ob_drop", (m,), ["C10", "C12"])
        for op in ["get", "get_mut", "insert", "get_or_insert", "remove"] + (["get_or_default"] if m.endswith("d") else []):
            ob(f"{m}.{op}.out_of_range", "gatechk", "ob_sparse", (m, op), ["C01"])
        for wi, w in enumerate(opschk.walks(D)):
            for md in modes(w, D):
                for fin in "cu":
                    ob(f"{m}.cursor{wi}.{md}.{fin}", "curchk", "ob_cursor", ("sparse", (m,), D, w, md, fin), ["C09", "C10"], "quick" if D < 4 and b < 8 else "thorough", cost=0.1 * c)
    # ---------------------------------------------------------------- panics in caller code, refused allocations
    for D in (1, 2, 3, 4):
        t = "quick" if D < 4 else "thorough"
        ob(f"dense{D}.insert.panic", "panicchk", "ob_insert", ("dense", D), ["C11"], t)
        ob(f"dense{D}.get_or_insert.panic", "panicchk", "ob_get_or_insert", ("dense", D), ["C11"], t, cost=2)
        ob(f"dense{D}.drop.panic", "panicchk", "ob_drop", ("dense", D, {1: 6, 2: 4, 3: 2, 4: 2}[D]), ["C11"], t)
        for ex in (True, False):
            ob(f"dense{D}.materialize.{'exact' if ex else 'inexact'}.panic", "panicchk", "ob_mat", (D, ex, {1: 3, 2: 2, 3: 2, 4: 1}[D]), ["C11"], t, cost=2)
        for op in ("new", "insert", "get_or_insert", "mat", "mat_exact"):
            if D < 4:
                ob(f"dense{D}.{op}.refused", "panicchk", "ob_alloc", (D, op), ["C10"])
    for m, (b, D) in SP.items():
        t = "thorough" if b > 6 and D > 1 or D > 3 else "quick"
        ob(f"{m}.insert.panic", "panicchk", "ob_insert", ("sparse", m), ["C11"], t, cost=2)
        ob(f"{m}.get_or_insert.panic", "panicchk", "ob_get_or_insert", ("sparse", m), ["C11"], t, cost=3)
        ob(f"{m}.drop.panic", "panicchk", "ob_drop", ("sparse", m), ["C11"], t)
        if m.endswith("d"):
            ob(f"{m}.new.panic", "panicchk", "ob_new", (m,), ["C11"])
    # ---------------------------------------------------------------- key range
    for W, ds in ((64, 9), (128, 8), (256, 8)):
        for D in range(1, ds + 1):
            ob(f"keys{W}x{D}.range", "gatechk", "ob_index", (W, D), ["C01"])
            ob(f"keys{W}x{D}.digits", "gatechk", "ob_digits", (W, D), ["C01"])
    for op, n in (("inter", 2), ("union", 2), ("map", 1), ("mi", 2), ("mu", 2), ("mif", 2), ("muf", 2)):
        for D in (1, 2, 3):
            ob(f"{op}{D}x{n}.out_of_range", "gatechk", "ob_op", (op, D, n), ["C01"])
    # ---------------------------------------------------------------- bit blocks and queues
    for W in (64, 128, 256):
        ob(f"bits{W}.block", "bitschk", "ob_block", (W,), ["C03"])
        ob(f"bits{W}.next", "bitschk", "ob_next", (W, 3), ["C03"])
        ob(f"bits{W}.const", "bitschk", "ob_const", (W,), ["C03"])
        for pre in (0, 1, 2):
            ob(f"bits{W}.current.{pre}", "bitschk", "ob_current", (W, pre), ["C03"])
            for trims in (1, 2):
                for last in ("next", "current"):
                    if pre + trims < 4:
                        ob(f"bits{W}.trim.{pre}.{trims}.{last}", "bitschk", "ob_trim", (W, pre, trims, last), ["C03"])
        for root in ("traverse", "q_traverse", "q_for_each"):
            for pre in (0,) if root == "traverse" else (0, 1, 2):
                ob(f"bits{W}.{root}.{pre}", "bitschk", "ob_traverse", (W, root, 4 if pre == 0 else 3, pre), ["C03"])
    # ---------------------------------------------------------------- iteration
    for W, ds in ((64, 9), (128, 8), (256, 8)):
        for D in range(1, ds + 1):
            caps = [1]
            if D <= {64: 3, 128: 2, 256: 2}[W]:
                caps = [2]
            if D == 1:
                caps = [4]
            if W == 64 and D == 2:
                caps = [3]
            for cap in caps:
                tier = "thorough" if W == 256 and D > 5 else "quick"
                ob(f"iter{W}x{D}.upto{cap}", "iterchk", "ob_src", (W, D, cap), ["C02"], tier, cost={64: 1, 128: 2, 256: 8}[W] * D)
    ob("iter64x4.upto2", "iterchk", "ob_src", (64, 4, 2), ["C02"], "thorough", cost=30)
    ob("iter128x3.upto2", "iterchk", "ob_src", (128, 3, 2), ["C02"], "thorough", cost=30)
    # ---------------------------------------------------------------- operators
    PROP = {"inter": "C13", "union": "C14", "mi": "C15", "mu": "C16", "map": "C17", "mif": "C17", "muf": "C17"}
    for op, p in PROP.items():
        ns = {"inter": (2,), "union": (2,), "map": (1,)}.get(op, (0, 1, 2, 3))
        for D in (1, 2, 3):
            for n in ns:
                tier = "quick" if n <= 2 or D == 1 else "thorough"
                for un in (False, True):
                    if un and n == 0:
                        continue
                    ob(f"{op}{D}x{n}.get{'_unchecked' if un else ''}", "opschk", "ob_get", (op, D, n, un), [p], "quick")
                for wi, w in enumerate(opschk.walks(D)):
                    for m in modes(w, D):
                        for fin in "cu":
                            tr = tier
                            if n == 2 and op in ("mu", "muf") and D == 3 and len(w) > 4:
                                tr = "thorough"
                            ob(f"{op}{D}x{n}.cursor{wi}.{m}.{fin}", "opschk", "ob_cursor", (op, D, n, w, m, fin), [p], tr, cost=0.05 * D * D * max(1, n))
    for op, p in (("inter_r", "C13"), ("union_r", "C14"), ("map_r", "C17")):
        n = 1 if op == "map_r" else 2
        for D in (1, 2, 3):
            for un in (False, True):
                ob(f"{op}{D}.get{'_unchecked' if un else ''}", "opschk", "ob_get", (op, D, n, un), [p])
            for wi, w in enumerate(opschk.walks(D)):
                for m in modes(w, D):
                    for fin in "cu":
                        ob(f"{op}{D}.cursor{wi}.{m}.{fin}", "opschk", "ob_cursor", (op, D, n, w, m, fin), [p], cost=0.05 * D * D)
    for op in ("map", "mif", "muf"):
        for D in (1, 2, 3):
            ob(f"{op}{D}.method.get", "opschk", "ob_get", (op, D, 1 if op == "map" else 2), ["C17"], make="make_method")
    for W, D in ((128, 1), (128, 2), (256, 2)):
        for op, p in list(PROP.items()) + [("inter_r", "C13"), ("union_r", "C14"), ("map_r", "C17")]:
            multi = op[0] == "m" and op[:3] != "map"
            n = 1 if op[:3] == "map" else 2
            for un in (False, True):
                ob(f"{op}{W}x{D}.get{'_unchecked' if un else ''}", "opschk", "ob_get", (op, D, n, un), [p], W=W)
            for wi, w in enumerate(opschk.walks(D)):
                for m in modes(w, D):
                    for fin in "cu":
                        if W == 256 and multi and wi:
                            continue
                        t = "thorough" if multi and (wi or W == 256) or W == 256 and wi else "quick"
                        ob(f"{op}{W}x{D}.cursor{wi}.{m}.{fin}", "opschk", "ob_cursor", (op, D, n, w, m, fin), [p], t, cost=(W // 64) ** 2 * len(w), W=W)
    # ---------------------------------------------------------------- the deep configurations
    DEEP = [(f"dense{D}", "dense", 6, D) for D in range(5, 10)] + [(f"sparse{1 << b}_{D}", "sparse", b, D) for b, r in ((6, range(5, 9)), (7, range(3, 9)), (8, range(3, 9))) for D in r]
    for m, kind, b, D in DEEP:
        a = (D,) if kind == "dense" else (m,)
        chk = kind + "chk"
        leaves = (1 << (b - 6)) ** D        # cases a walk distinguishes
        t = "quick" if leaves <= 1024 else "thorough"
        ins, rem = ("C06", "C07") if kind == "dense" else ("C04", "C05")
        ob(f"{m}.new", chk, "ob_new", a, [ins, "C10"])
        if kind == "dense" or leaves <= 4096:
            ob(f"{m}.get", chk, "ob_get", a + ("get",), ["C08", "C10"], t, cost=leaves / 50)
            if leaves <= 64:
                ob(f"{m}.get_unchecked", chk, "ob_get", a + ("get_unchecked",), ["C08", "C10"], t, cost=leaves / 50)
            for md in ("c" * D, "u" * D):
                for fin in "cu":
                    ob(f"{m}.cursor0.{md}.{fin}", "curchk", "ob_cursor", (kind, a, D, opschk.walks(D)[0], md, fin), ["C09", "C10"], t, cost=leaves / 50)
        for op in ("get", "insert", "remove"):
            ob(f"{m}.{op}.out_of_range", "gatechk", "ob_" + kind, (D if kind == "dense" else m, op), ["C01"])
        if kind == "dense":
            ob(f"{m}.drop", "matchk", "ob_drop", (D, 1), ["C10", "C12"])
        else:
            ob(f"{m}.drop", "sparsechk", "ob_drop", (m,), ["C10", "C12"])
        ob(f"{m}.first", "firstchk", "ob_first", (m, b, D, b == 6 or leaves < 10), [ins, rem, "C10"], "quick" if leaves <= 256 else "thorough", cost=leaves / 10)
    ob("dense5.insert", "densechk", "ob_insert", (5,), ["C06", "C10", "C12", "C19"], "thorough", cost=20)
    ob("dense5.remove", "densechk", "ob_remove", (5,), ["C07", "C10", "C12", "C19"], "thorough", cost=40)
    for m, (b, D) in SP.items():
        ob(f"{m}.first", "firstchk", "ob_first", (m, b, D, True), ["C04", "C05", "C10"], cost=4 ** (b - 6))
    for D in (1, 2, 3, 4):
        ob(f"dense{D}.first", "firstchk", "ob_first", (f"dense{D}", 6, D, True), ["C06", "C07", "C10"])
    # ---------------------------------------------------------------- exact hierarchies
    TF = {"t": True, "f": False}
    for op, cases in (("union", ("tt", "tf", "ft", "ff")), ("inter", ("tt",)), ("map", ("t", "f")), ("mi", ("t",)), ("mu", ("t", "f")), ("mif", ("t",)), ("muf", ("t", "f"))):
        for c in cases:
            for D in (2, 3):
                ns = {"union": (2,), "inter": (2,), "map": (1,)}.get(op, (2, 3) if op[:2] == "mu" else (2,))
                for n in ns:
                    exact = tuple(TF[x] for x in c) if len(c) == n else TF[c]
                    for mode in "cu":
                        ob(f"{op}{D}x{n}.{c}.exact.{mode}", "exactchk", "ob_op", (f"x_{op}_{c}{D}", op, D, n, exact, mode), ["C19"])
    for D in (2, 3):
        for mode in "cu":
            ob(f"dense{D}.exact.{mode}", "exactchk", "ob_container", ("dense", (D,), D, mode), ["C19"])
    for m in ("sparse64_2", "sparse64_2d", "sparse64_3", "sparse128_2", "sparse256_2"):
        for mode in "cu":
            ob(f"{m}.exact.{mode}", "exactchk", "ob_container", ("sparse", (m,), SP[m][1], mode), ["C19"])
    # ---------------------------------------------------------------- compile-time helpers
    for to in range(10):
        for rev in (False, True):
            ob(f"const.to{to}.{'rev' if rev else 'fwd'}", "constchk", "ob_loops", (to, rev), ["C23"])
        ob(f"const.int{to}", "constchk", "ob_int", (to,), ["C23"])
    for n in (1, 2, 5, 9):
        ob(f"const.split{n}", "constchk", "ob_split", (n,), ["C23"])
    ob("const.cond", "constchk", "ob_cond", (), ["C23"])
    # ---------------------------------------------------------------- decided by the compiler
    for i in range(4):
        ob(f"witness.{i}", "witchk", "ob_witness", ("", i, 4), ["C21"])
    ob("api", "witchk", "ob_api", ("",), ["C21"])
    ob("witness.may_dangle", "witchk", "ob_witness", ("may_dangle", 0, 1), ["C21"])
    ST, NI = "stable-x86_64-unknown-linux-gnu", "nightly-x86_64-unknown-linux-gnu"
    STD = "-Zbuild-std=std,panic_abort"
    for n, tc, args, flags in (("default", ST, (), ""), ("no_simd", ST, ("--no-default-features",), ""), ("may_dangle", NI, ("--features", "may_dangle"), ""),
                               ("no_simd_may_dangle", NI, ("--no-default-features", "--features", "may_dangle"), ""), ("cpu_extensions", ST, (), "-Ctarget-feature=+bmi1,+bmi2,+popcnt,+avx2"),
                               ("docs", NI, (), "--cfg docsrs"), ("aarch64", NI, (STD, "--target", "aarch64-unknown-linux-gnu"), ""),
                               ("powerpc64_no_simd", NI, ("--no-default-features", STD, "--target", "powerpc64-unknown-linux-gnu"), ""), ("riscv64", NI, (STD, "--target", "riscv64gc-unknown-linux-gnu"), ""),
                               ("i686", NI, (STD, "--target", "i686-unknown-linux-gnu"), "")):
        ob(f"build.{n}", "witchk", "ob_build", (tc, args, flags), ["C22"], cost=9 if STD in args else 1)
    for o in OBS:       # bounded work: lookups, mutations and cursor steps of the containers
        if o["mod"] in ("densechk", "sparsechk", "curchk") and o["fn"] in ("ob_get", "ob_key_values", "ob_insert", "ob_get_or_insert", "ob_remove", "ob_cursor"):
            if o["fn"] != "ob_cursor" or ".cursor0." in o["name"]:
                o["props"].append("C20")
    return OBS
