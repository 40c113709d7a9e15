#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=None, state=None, level="exploration", na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ["return values and output ranges of the public functions"], hook_needed=None,
                               **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {})),
                  _t=technique, _n=note, _l=level))
    if na: NA.append(dict(property=id, reason=na))
I = "include/edsp/"

exec(open(os.path.join(V, "tools", "props_data.py")).read())

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    na = {x["property"] for x in NA}
    fixes = os.popen("git -C /repo log --format=%h --grep='^fix:'").read().split()
    m = dict(version=1, setup_cmd="python3 run.py --selftest",
             checks=[dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                          evidence_file="evidence/%s.json" % p["id"], technique=p["_t"], level=p["_l"], level_note=p["_n"]) for p in sorted(P, key=lambda p: p["id"]) if p["id"] not in na],
             not_applicable=NA,
             notes="No hooks are needed in /repo: the monitors observe the public API, interpose the C libraries below it (FFTW planner, system calls) or rely on compiler sanitizers. Genuine defects repaired in /repo: %d 'fix:' commits, listed in known_findings.txt." % len(fixes))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    print(len(P), "properties,", len(m["checks"]), "checks")
main()
