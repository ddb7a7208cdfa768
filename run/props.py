#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl, MANIFEST.json and run/levels.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}
ALL = "all inputs and all reachable states, one call at a time"


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="proof", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                               hook_needed=None if na else "cfg(kani) specification module at the end of each file"),
                  _level=level, _note=note))
    if na:
        NA[id] = na


exec(open(os.path.join(V, "run", "props_data.py")).read())

TECH = "contract-based deductive verification of the real Rust code (Kani/CBMC obligations, all inputs)"
TECHB = "contract-based verification of the real Rust code (Kani/CBMC); bounded stand-ins labelled with their bound"
BASE = ("Trusted: Kani/CBMC/CaDiCaL and the boundary contracts in models/ (crypto as uninterpreted functions, tables, "
        "clock, async runtime). Sequential semantics; termination not proved. ")


def main():
    claimed = []
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
            if p["id"] not in NA and not any("//@ harness" in open(s).read()
                                             for s in glob.glob("%s/specs/%s/*.rs" % (V, p["id"]))):
                NA[p["id"]] = "specification not written yet"
            if p["id"] not in NA:
                claimed.append(p)
    m = dict(version=1, setup_cmd="bash run/setup.sh",
             hooks=dict(guard="cfg(kani)", enable="cargo kani sets --cfg kani; EVERSCALE_VERIF_SPECS names the directory "
                        "of specification files (run/check.py sets it)", source_commits=HOOKS),
             checks=[dict(property=p["id"], quick_cmd="python3 run/check.py %s quick" % p["id"],
                          thorough_cmd="python3 run/check.py %s thorough" % p["id"],
                          technique=TECH if p["_level"] == "proof" else TECHB, level=p["_level"],
                          level_note=BASE + p["_note"]) for p in claimed],
             not_applicable=[dict(property=k, reason=NA[k]) for k in sorted(NA)])
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    json.dump({p["id"]: dict(level=p["_level"]) for p in claimed}, open(V + "/run/levels.json", "w"), indent=1)
    print("%d properties, %d claimed, %d not applicable" % (len(P), len(claimed), len(NA)))


main()
