#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--mir FILE]

Extracts the monomorphised MIR of /repo's current working tree (through /verif/harness), evaluates
every obligation registered for PROPERTY on it, writes evidence/PROPERTY.json, and exits 1 with a
VIOLATION line when an obligation is refuted by a construct known-findings.json does not list."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import tempfile
import shutil
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))


class Late(BaseException):
    pass


def alarm(*_):
    raise Late()


P = None
LIMIT = 300


def work(o):
    import obl
    from terms import Unsupported
    r = obl.Ob(o["name"])
    t = time.time()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(o.get("limit", LIMIT))
    try:
        fn = getattr(importlib.import_module(o["mod"]), o["fn"])
        fn(P, r, *o["args"], **o["kw"])
    except Late:
        r.undec.append([f"time limit {LIMIT} s", "", o["name"]])
    except Unsupported as e:
        r.undec.append([str(e), "", o["name"]])
    except RecursionError:
        r.undec.append(["recursion limit", "", o["name"]])
    except Exception:
        r.undec.append(["analyser error: " + traceback.format_exc(limit=-3)[-400:], "", o["name"]])
    finally:
        signal.alarm(0)
    r.wall = time.time() - t
    return r.pack()


def dump(mir):
    if mir:
        return mir, None
    base = tempfile.mkdtemp(prefix="vmir.", dir=os.environ.get("TMPDIR", "/tmp"))
    out = os.path.join(base, "out")
    r = subprocess.run([os.path.join(HERE, "run_dump.sh"), out], capture_output=True, text=True)
    if r.returncode:
        shutil.rmtree(base, ignore_errors=True)
        return None, (r.stdout + r.stderr)[-3000:]
    return os.path.join(out, "mir.json"), base


def construct(v):
    """the innermost frame in the repository"""
    for w in reversed(v["where"]):
        if "/repo/" in w:
            return w
    return v["where"][-1] if v["where"] else ""


def vkey(v):
    """identity of a finding: obligation, kind, function (no line numbers)"""
    w = construct(v)
    import re
    return f"{v['ob']}|{v['kind']}|{re.sub(r':[0-9]+', '', w)}"


# kinds of findings of a shared obligation that do not bear on the property
FUNC = {"post", "map", "order", "value", "result", "gate", "panic"}
OWN = {"ownership", "double-drop", "leak"}
ONLY = {"C19": {"exact", "empty"}, "C20": {"cost"}}
OTHER = {
    "C10": FUNC | {"ownership", "double-drop", "effect"},
    "C12": FUNC | {"rep", "empty", "effect"},
    **{p: OWN for p in ("C04", "C05", "C06", "C07", "C18")},
}


def main():
    global P, LIMIT
    prop = sys.argv[1]
    a = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = mir = None
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--only":
            only = a.pop(0)
        elif x == "--mir":
            mir = a.pop(0)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    import registry
    obs = [o for o in registry.load() if prop in o["props"] and (tier == "thorough" or o["tier"] == "quick")]
    if only:
        obs = [o for o in obs if only in o["name"]]
    if not obs:
        print("no obligation registered for", prop)
        return 2
    known = json.load(open(os.path.join(HERE, "known-findings.json")))
    source = all(o["mod"] == "witchk" for o in obs)     # decided by the compiler, no MIR needed
    path, base = (mir or "", None) if source else dump(mir)
    if path is None:
        rep = os.path.join(evd, f"{prop}.violation-1.txt")
        open(rep, "w").write("the analysed instances of the public surface no longer build against /repo:\n" + base)
        print(base)
        evidence(evd, prop, tier, seed, t0, [], 1, [], "harness did not build")
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    try:
        if not source:
            import prog
            P = prog.Prog(path)
    finally:
        if base:
            shutil.rmtree(base, ignore_errors=True)
    import interp
    interp.COST = prop == "C20"
    LIMIT = (150 if prop == "C20" else 280) if tier == "quick" else 3000
    obs.sort(key=lambda o: -o["cost"])
    res = []
    budget = float(os.environ.get("VERIF_BUDGET", "700" if tier == "quick" else "100000"))
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(work, obs, chunksize=1)
        for _ in obs:
            left = budget - (time.time() - t0)
            try:
                res.append(it.next(timeout=max(left, 0.1)))
            except mp.TimeoutError:
                break
        pool.terminate()
    done = {r["name"] for r in res}
    for o in obs:
        if o["name"] not in done:
            res.append(dict(name=o["name"], viol=[], undec=[["time budget of the check", "", o["name"]]], paths=0, steps=0, fns=[], checks=0, wall=0.0, notes=[]))
    res.sort(key=lambda r: r["name"])
    kn = [k for k in known["findings"] if k["property"] == prop]
    new, old = {}, {}
    for r in res:
        r["viol"] = [v for v in r["viol"] if v["kind"] not in OTHER.get(prop, ()) and (v["kind"] != "cost" or prop == "C20") and (prop not in ONLY or v["kind"] in ONLY[prop])]
        for v in r["viol"]:
            k = vkey(v)
            m = next((x for x in kn if any(k.startswith(y.rstrip("*")) if y.endswith("*") else k == y for y in x["keys"])), None)
            if m is None:
                new.setdefault(k, v)
            else:
                old.setdefault(m["id"], m)
    for m in old.values():
        print(f"KNOWN-FINDING: property={prop} {m['what']}")
    nund = sum(1 for r in res if r["undec"])
    und = [{"obligation": r["name"], "reason": r["undec"][0][0], "at": r["undec"][0][1]} for r in res if r["undec"]]
    for u in und[:10]:
        print("UNDECIDED", u["obligation"], u["reason"][:200], u["at"][:100])
    evidence(evd, prop, tier, seed, t0, res, len(new), und, None, sorted(old))
    # one finding per construct: group by kind and function
    groups = {}
    for k, v in new.items():
        groups.setdefault(k.split("|", 1)[1], []).append(v)
    n = 0
    for g, vs in sorted(groups.items()):
        n += 1
        rep = os.path.join(evd, f"{prop}.violation-{n}.txt")
        with open(rep, "w") as f:
            for v in vs[:20]:
                f.write(f"obligation: {v['ob']}\nrule: {v['kind']}\nconstruct: {construct(v)}\nwhat: {v['msg']}\n")
                f.write("call path:\n  " + "\n  ".join(v["where"]) + "\n")
                f.write("abstract path (branch facts):\n  " + "\n  ".join(v["path"]) + "\n\n")
        v = vs[0]
        print(f"{v['ob']}: [{v['kind']}] {v['msg'][:300]}\n    at {construct(v)}")
        print(f"VIOLATION property={prop} replay={rep}")
    print(f"{prop} {tier}: {len(res)} obligations, {len(res) - nund} decided, {sum(r['paths'] for r in res)} abstract paths, "
          f"{sum(r['checks'] for r in res)} checks, {len(set(f for r in res for f in r['fns']))} functions, {time.time() - t0:.1f} s")
    return 1 if new else 0


def evidence(evd, prop, tier, seed, t0, res, nviol, und, note, old=()):
    repo = sorted({P.fns[f]["path"] + " (" + P.fns[f].get("file", "") + ")" for r in res for f in r["fns"]
                   if "/repo/" in P.fns[f].get("file", "")}) if P else sorted({f for r in res for f in r["fns"]})
    cov = {
        "explanation": note or (None if P else "rustc's type, borrow and drop checks on the current source: every program with the violation must be rejected with the stated error, its twin without it must compile") or "abstract interpretation of the monomorphised MIR of the instances below, every path, arbitrary operands satisfying the stated invariant",
        "obligations": len(res),
        "discharged": sum(1 for r in res if not r["undec"] and not r["viol"]),
        "undecided": len(und),
        "undecided_list": und[:60],
        "abstract_paths": sum(r["paths"] for r in res),
        "abstract_steps": sum(r["steps"] for r in res),
        "judged_partitions": sum(r["checks"] for r in res),
        "functions_of_the_repository": len(repo),
        "functions": repo,
        "obligation_names": [r["name"] for r in res][:400],
        "known_findings_seen": list(old),
    }
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
               "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": nviol},
              open(os.path.join(evd, f"{prop}.json"), "w"), indent=1)


ASSUME = [
    "rustc's MIR (nightly, -Zmir-opt-level=0) is the semantics analysed; std routines listed in DESIGN.md are modelled, all others are analysed as code",
    "element types, closures and source trees are opaque; a source tree honours the documented HibitTree/HibitTreeCursor contract",
]

if __name__ == "__main__":
    sys.exit(main())
