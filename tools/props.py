#!/usr/bin/env python3
"""One table for properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md.
usage: tools/props.py   (rewrites properties.jsonl and MANIFEST.json, replaces the marked part of DESIGN.md)"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "ethereum-consensus/src/"
FORKS = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"]
def per_fork(name, forks=FORKS): return [f"{E}{f}/{name}" for f in forks]

P = []
def prop(id, pkg, title, statement, text, over, why, files, mech, technique, oracle, note, observe=None, hook=None):
    P.append(dict(id=id, pkg=pkg, title=title, statement=statement, text=text, over=over, why=why, files=files,
                  mech=mech, technique=technique, oracle=oracle, note=note, observe=observe, hook=hook))

SYN = ("Signature, KZG and hash-tree libraries are stand-ins (not installed here): same interface and group rules, "
       "exact algebra. The reference and the stand-ins are trusted; inputs are sampled, not exhausted.")
STF = ("differential runtime monitor: every block/epoch run through the real transition, its verdict and full post-state "
       "compared with an independent executable specification")

exec(open(os.path.join(here, "tools", "props_table.py")).read())

P.sort(key=lambda p: p["id"])
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json"))) if os.path.exists(os.path.join(here, "tools", "not_applicable.json")) else []
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"] or ["return values and resulting states of the public interface"],
                        "hook_needed": p["hook"]}}) + "\n")
    for n in NA:
        if "line" in n: f.write(json.dumps(n["line"]) + "\n")
json.dump({
    "version": 1, "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources as they are and observe public interfaces", "source_commits": []},
    "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['pkg']} {p['id']} quick",
                "thorough_cmd": f"./check.sh {p['pkg']} {p['id']} thorough",
                "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
    "not_applicable": [{"property": n["property"], "reason": n["reason"]} for n in NA],
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
d = open(os.path.join(here, "DESIGN.md")).read()
a, b = "<!-- properties:begin -->", "<!-- properties:end -->"
body = "\n".join(f"### {p['id']} — {p['title']} (`h/{p['pkg']}`)\n{p['oracle']}\n" for p in P)
if a in d:
    d = d[:d.index(a) + len(a)] + "\n" + body + d[d.index(b):]
    open(os.path.join(here, "DESIGN.md"), "w").write(d)
