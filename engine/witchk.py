"""C21, C22: decided by the compiler's type, borrow and drop checks on /repo's current source."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from obl import *

REPO = "/repo"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
SKIP = {"target", ".git"}


class Build:
    """a scratch copy of the repository, checked with cargo"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vwit.", dir=os.environ.get("TMPDIR", "/tmp"))
        self.src = os.path.join(self.dir, "repo")
        shutil.copytree(REPO, self.src, ignore=lambda d, ns: [n for n in ns if n in SKIP and d == REPO], symlinks=True)
        lock = os.path.join(self.src, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "Cargo.lock"), lock)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def env(self, tc, flags=""):
        e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=tc, CARGO_TERM_COLOR="never")
        e.pop("CARGO_TARGET_DIR", None)
        e.pop("RUSTFLAGS", None)
        if flags:
            e["RUSTFLAGS"] = flags
        return e

    def check(self, tc, args, flags=""):
        r = subprocess.run(["cargo", "check", "--lib", "--offline", "--target-dir", os.path.join(self.dir, "t"), "--message-format=json", *args],
                           cwd=self.src, env=self.env(tc, flags), capture_output=True, text=True)
        errs, meta = [], None
        self.deps = set()
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                errs.append((m.get("package_id", ""), m["message"]))
            if m.get("reason") == "compiler-artifact":
                self.deps |= {os.path.dirname(f) for f in m["filenames"]}
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "hibit_tree":
                meta = next((f for f in m["filenames"] if f.endswith(".rmeta")), meta)
        return r.returncode, errs, meta, r.stderr


def at(m):
    s = next((x for x in m["spans"] if x.get("is_primary")), None)
    f = (s or {}).get("file_name", "?")
    return f"/repo/{f}" if not f.startswith("/") else f


def ob_build(P, ob, tc, args, flags):
    """the crate type-checks in one configuration"""
    with Build() as b:
        rc, errs, meta, err = b.check(tc, list(args), flags)
        ob.checks += 1
        if rc == 0:
            if meta is None:
                ob.undec.append(["no artifact was reported", "", ob.name])
            ob.fns.add("crate hibit_tree")
            return
        own = [m for p, m in errs if "hibit_tree" in p]
        if not own:             # a dependency or the tool failed, not the crate
            ob.undec.append(["cargo: " + err[-300:], "", ob.name])
            return
        for m in own[:5]:
            if m["message"].startswith("aborting due"):
                continue
            code = (m.get("code") or {}).get("code", "")
            ob.bad("build", f"does not build with {' '.join(args) or 'default features'} {flags} ({tc.split('-')[0]}): {code} {m['message']}", [at(m)])


def compile_(b, lib, path, bad, tc):
    cmd = ["rustc", "--edition=2021", "--crate-type=lib", "--emit=metadata", "--error-format=json", "--extern", f"hibit_tree={lib}", *[x for d in sorted(b.deps) for x in ("-L", "dependency=" + d)],
           "-o", os.path.join(b.dir, "w.rmeta." + os.path.basename(path) + str(int(bad))), path] + (["--cfg", "bad"] if bad else [])
    r = subprocess.run(cmd, env=b.env(tc), capture_output=True, text=True, cwd=b.dir)
    errs = []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") == "error" and not m["message"].startswith("aborting due"):
            errs.append(((m.get("code") or {}).get("code") or ("lifetime" if "lifetime" in m["message"] else "?"), m["message"]))
    return r.returncode, errs


def ob_witness(P, ob, feat, part, parts):
    """each bad program fails with its error, each twin compiles"""
    import witnesses
    ws = [w for w in witnesses.W if w[4] == feat][part::parts]
    with Build() as b:
        rc, errs, lib, err = b.check(NIGHTLY, ["--features", feat] if feat else [])
        if rc or lib is None:
            own = [m for p, m in errs if "hibit_tree" in p]
            if own:
                ob.bad("build", f"does not build: {own[0]['message']}", [at(own[0])])
            else:
                ob.undec.append(["cargo: " + err[-300:], "", ob.name])
            return
        for name, item, code, body, _ in ws:
            path = os.path.join(b.dir, name + ".rs")
            with open(path, "w") as f:
                f.write(witnesses.PRE + body + "\n")
            rc, errs = compile_(b, lib, path, False, NIGHTLY)
            ob.checks += 1
            ob.fns.add(item)
            where = ["/repo/" + item if item.startswith("src/") else item]
            if rc:
                ob.bad("accepts", f"witness {name}: a correct program is rejected: {errs[:2]}", where)
                continue
            rc, errs = compile_(b, lib, path, True, NIGHTLY)
            ob.checks += 1
            want = code.split("|")
            if rc == 0:
                ob.bad("rejects", f"witness {name}: a program that must be rejected ({code}) compiles: {body.strip()}", where)
            elif not any(c in want for c, _ in errs):
                ob.undec.append([f"witness {name} fails with {[c for c, _ in errs]} instead of {code}", where[0], ob.name])


# ------------------------------------------------------------------ the public surface, from the compiler's own description of it
SEALED = {"Index": "validated keys", "DenseTree": "the tree's lists", "SparseTree": "the tree's lists", "Iter": "the iteration's state",
          "Cursor": "the cursor's nodes", "PrimitiveBitQueue": "the queue's bits", "ArrayBitQueue": "the queue's bits"}


def kinds(t, k):
    """does a type expression contain a node of kind k satisfying the callable"""
    if isinstance(t, dict):
        return k(t) or any(kinds(v, k) for v in t.values())
    if isinstance(t, list):
        return any(kinds(v, k) for v in t)
    return False


def is_mut_ref(t):
    return bool(isinstance(t.get("borrowed_ref"), dict) and t["borrowed_ref"]["is_mutable"])


def names_path(t, names):
    rp = t.get("resolved_path")
    return isinstance(rp, dict) and rp["path"].split("::")[-1] in names


def lifetimes(t, out):
    if isinstance(t, dict):
        for k, v in t.items():
            if k == "lifetime" and isinstance(v, str):
                out.add(v)
            elif k in ("higher_rank", "hrtb"):
                pass
            else:
                lifetimes(v, out)
    elif isinstance(t, list):
        for v in t:
            lifetimes(v, out)
    return out


def fn_ptr_free(t):
    """the type without function pointers and bounds, whose references are not handed over"""
    if isinstance(t, dict):
        return {k: fn_ptr_free(v) for k, v in t.items() if k not in ("function_pointer", "impl_trait", "dyn_trait", "bounds")}
    if isinstance(t, list):
        return [fn_ptr_free(v) for v in t]
    return t


def ob_api(P, ob, feat):
    """rules over every public function, implementation and field of the crate"""
    with Build() as b:
        r = subprocess.run(["cargo", "rustdoc", "--lib", "--offline", "--target-dir", os.path.join(b.dir, "t"), *(["--features", feat] if feat else []),
                            "--", "-Zunstable-options", "--output-format", "json"], cwd=b.src, env=b.env(NIGHTLY), capture_output=True, text=True)
        path = os.path.join(b.dir, "t", "doc", "hibit_tree.json")
        if not os.path.exists(path):
            own = re.findall(r"^error(?:\[E\d+\])?: .*(?:\n.*){0,2}src/.*", r.stderr, re.M)
            if own and "could not compile `hibit_tree`" in r.stderr or "could not document `hibit_tree`" in r.stderr:
                ob.bad("build", "the crate's documentation does not build: " + (own or [r.stderr[-200:]])[0][:300], ["crate hibit_tree"])
            else:
                ob.undec.append(["cargo rustdoc: " + r.stderr[-300:], "", ob.name])
            return
        d = json.load(open(path))
    ix = d["index"]
    owner = {}          # function -> (impl or trait item)
    for i in ix.values():
        k = next(iter(i["inner"]))
        if k in ("impl", "trait"):
            for f in i["inner"][k]["items"]:
                owner.setdefault(str(f), i)
    seen = 0
    for fid, i in sorted(ix.items(), key=lambda x: (x[1].get("span") or {}).get("begin") or []):
        if i["crate_id"] != 0 or not i.get("span") or i["span"]["filename"].startswith("/"):
            continue
        k = next(iter(i["inner"]))
        x = i["inner"][k]
        file = "/repo/" + os.path.relpath(i["span"]["filename"], b.src) if i["span"]["filename"].startswith(b.src) else "/repo/" + i["span"]["filename"]
        own = owner.get(fid)
        oin = own["inner"].get("impl") if own else None
        selfty = ""
        if oin:
            rp = oin["for"].get("resolved_path") if isinstance(oin["for"], dict) else None
            selfty = rp["path"].split("::")[-1] if rp else ""
        tr = (oin or {}).get("trait")
        name = (selfty + "::" if selfty else "") + (i["name"] or "")
        where = [f"{name} ({file})"]
        if k == "function":
            seen += 1
            ob.fns.add(f"{name} ({file})")
            ob.checks += 1
            if x["header"]["is_unsafe"]:
                continue
            out, ins = fn_ptr_free(x["sig"]["output"]), [t for _, t in x["sig"]["inputs"]]
            if out is None:
                out = {}
            # a reference to change through comes from something that may be changed
            self_sub = oin["for"] if oin else {}
            if kinds(out, is_mut_ref) and not kinds(ins, is_mut_ref) and not (kinds(ins, lambda t: t.get("generic") == "Self") and kinds(self_sub, is_mut_ref)):
                ob.bad("api", "hands out a reference to change through without being given one", where)
            # what is handed out does not outlive everything it was taken from
            own_lts = {p["name"] for p in x["generics"]["params"] if "lifetime" in p["kind"]}
            free = (lifetimes(out, set()) & own_lts) - lifetimes(ins, set()) - lifetimes(x["generics"]["params"], set())
            if free or (kinds(out, lambda t: isinstance(t.get("borrowed_ref"), dict) and t["borrowed_ref"]["lifetime"] == "'static" and "generic" in json.dumps(t))):
                ob.bad("api", "hands out a reference that outlives what it was taken from", where)
            if "unchecked" in (i["name"] or "") or re.search(r"^\s*#+ *Safety", i["docs"] or "", re.M):
                ob.bad("api", "an operation with a safety contract is callable from safe code", where)
            # validated keys
            makes = kinds(out, lambda t: names_path(t, {"Index"})) or (selfty == "Index" and kinds(out, lambda t: t.get("generic") == "Self"))
            if makes:
                a = json.dumps((tr or {}).get("args") or {})
                if not (tr and (tr["path"] == "Clone" or tr["path"] == "From" and '"primitive": "usize"' in a) and selfty == "Index"):
                    ob.bad("api", "safe code can obtain a validated key other than by validating a number or copying one", where)
        elif k == "impl" and x.get("trait"):
            tp = x["trait"]["path"].split("::")[-1]
            rp = x["for"].get("resolved_path") if isinstance(x["for"], dict) else None
            st = rp["path"].split("::")[-1] if rp else "?"
            ob.checks += 1
            if tp in ("Send", "Sync") and not x["is_synthetic"]:
                bounds = json.dumps(x["generics"])
                for p in x["generics"]["params"]:
                    if "type" in p["kind"] and '"Send"' not in json.dumps(p["kind"]) and '"Sync"' not in json.dumps(p["kind"]) \
                       and not any(p["name"] in json.dumps(w) and ("Send" in json.dumps(w) or "Sync" in json.dumps(w)) for w in x["generics"]["where_predicates"]):
                        ob.bad("api", f"claims {tp} for {st} whatever its {p['name']} is", [f"impl {tp} for {st} ({file})"])
            if st in ("DenseTree", "SparseTree") and any("automatically_derived" in json.dumps(t) for t in i["attrs"]):
                ob.bad("api", "a derived implementation reads the element list's uninitialised placeholder and takes node pointers for values", [f"impl {tp} for {st} ({file})"])
        elif k == "struct" and i["name"] in SEALED:
            ob.checks += 1
            kd = x["kind"]
            vis = []
            if isinstance(kd, dict) and "plain" in kd:
                vis = [ix[str(f)] for f in kd["plain"]["fields"] if str(f) in ix and ix[str(f)]["visibility"] == "public"]
            elif isinstance(kd, dict) and "tuple" in kd:
                vis = [ix[str(f)] for f in kd["tuple"] if f is not None and str(f) in ix and ix[str(f)]["visibility"] == "public"]
            for f in vis:
                ob.bad("api", f"{SEALED[i['name']]} can be changed from outside: field {f['name']} is public", where)
    if seen < 50:
        ob.undec.append([f"only {seen} public functions were described", "", ob.name])
