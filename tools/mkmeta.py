"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing the table)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    PR.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    assert len(title) <= 80, title
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        PR[-1]["_c"] = dict(property=id, quick_cmd=f"python3 check.py {id}", thorough_cmd=f"python3 check.py {id} --tier thorough",
                            technique=technique, level="other", level_note=note)


exec(open(os.path.join(H, "tools", "props.py")).read())
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PR:
        f.write(json.dumps({k: v for k, v in p.items() if k != "_c"}) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[p["_c"] for p in PR if "_c" in p], not_applicable=NA,
         notes="Static analysis only: abstract interpretation of rustc's monomorphised MIR, structural MIR rules and compile-fail witnesses; nothing of /repo is executed. See DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
