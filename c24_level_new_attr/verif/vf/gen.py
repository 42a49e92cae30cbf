#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta/*.py (one dict P per property)."""
import json, os, glob, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, V + "/props")
def load(i):
    s = importlib.util.spec_from_file_location("q", V + "/props/%s.py" % i); q = importlib.util.module_from_spec(s); s.loader.exec_module(q); return q
def technique(i):   # which kinds of contract decide it
    n = {}
    for u in load(i).PROP["units"]:
        for c in u["contracts"]: n[c.get("kind", "proof")] = n.get(c.get("kind", "proof"), 0) + 1
    t = []
    if n.get("proof"): t.append("deductive contracts on the real code (clang IR -> C -> cbmc, all inputs): %d" % n["proof"])
    if n.get("bounded"): t.append("the same with a stated bound: %d" % n["bounded"])
    if n.get("native"): t.append("contracts executed on random inputs on the real code (not proved): %d" % n["native"])
    return "; ".join(t)
def level(i):   # as run.py computes it
    q = load(i)
    return "proof" if any(c.get("kind", "proof") == "proof" for u in q.PROP["units"] for c in u["contracts"]) else "other"
props = []; checks = []; na = []
for f in sorted(glob.glob(V + "/meta/*.py")):
    spec = importlib.util.spec_from_file_location("m", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); P = m.P
    mech = [dict(name=a, where=b) for a, b in P["mechanism"]]; st = [dict(name=a, meaning=b, where=c) for a, b, c in P.get("state", [])]
    assert len(P["title"]) <= 80, P["id"]
    props.append(dict(id=P["id"], title=P["title"], statement=P["statement"], quantifier=dict(over=P["over"], text=P["qtext"]), why_tests_cant=P["why"],
                      anchors=dict(files=P["files"], state=st, mechanism=mech, observe_at=P.get("observe", []), hook_needed=None)))
    if P.get("na"): na.append(dict(property=P["id"], reason=P["na"]))
    else:
        checks.append(dict(property=P["id"], quick_cmd="python3 vf/run.py %s" % P["id"], thorough_cmd="VERIF_TIER=thorough python3 vf/run.py %s" % P["id"], evidence_file="evidence/%s.json" % P["id"],
                           technique=P.get("technique") or technique(P["id"]), level=level(P["id"]), level_note=P["note"]))
open(V + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in props))
json.dump(dict(version=1, setup_cmd="python3 -c 'import sys; sys.path.insert(0,\"vf\"); import llvmc'", hooks=dict(guard="CALI_VERIF_HOOKS", enable="no hooks were needed: the contracts compile against the unmodified sources", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="Each check recompiles /repo's current sources to LLVM IR, links them with the contracts in contracts/, translates to C and discharges every obligation with cbmc; see DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
# ---- DESIGN.md
import sys
sys.path.insert(0, V + "/props")
sec = ["## Properties", "`proof` = all obligations discharged for all inputs; `bounded`/`native` are labelled so in the evidence and never counted as proved.", ""]
for p in props:
    P = p; m = [x for x in glob.glob(V + "/meta/%s.py" % p["id"])]
    spec = importlib.util.spec_from_file_location("m", m[0]); mm = importlib.util.module_from_spec(spec); spec.loader.exec_module(mm); P = mm.P
    sec.append("### %s — %s" % (P["id"], P["title"]))
    if P.get("na"): sec += ["Not applicable: " + P["na"], ""]; continue
    sec.append("Quantified over %s. Tests cannot: %s" % (P["qtext"], P["why"]))
    sec.append("Approach and strength: " + P["note"])
    spec = importlib.util.spec_from_file_location("pp", V + "/props/%s.py" % P["id"]); pp = importlib.util.module_from_spec(spec); spec.loader.exec_module(pp)
    for u in pp.PROP["units"]:
        by = {}
        for c in u["contracts"]: by.setdefault((c.get("kind", "proof"), c.get("bound", "")), []).append(c["entry"])
        for (k, b), es in by.items():
            sec.append("- `contracts/%s` %s%s: %s" % (u["file"], k, " (" + b + ")" if b and k == "bounded" else "", ", ".join(es)))
    if P.get("design"): sec.append(P["design"])
    sec.append("")
kf = json.load(open(V + "/known_findings.json"))
fx = ["- " + x for x in kf["fixed"]] + (["", "Recorded, not repaired (known findings):"] + ["- %s (%s): %s" % (k["id"], k["property"], k["what"]) for k in kf["findings"]] if kf["findings"] else [])
res = json.load(open(V + "/vf/seeded_results.json")) if os.path.exists(V + "/vf/seeded_results.json") else {}
sd = ["| bug | property | needs | result |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f)); sd.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], res.get(i, "not run yet")))
nal = ["- %s %s: %s" % (x["property"], [p["title"] for p in props if p["id"] == x["property"]][0], x["reason"]) for x in na] or ["(nothing so far)"]
notes = open(V + "/vf/DESIGN.notes.md").read() if os.path.exists(V + "/vf/DESIGN.notes.md") else ""
t = open(V + "/vf/DESIGN.tmpl.md").read()
for k, v in (("PROPS", sec), ("FIXED", fx), ("SEEDED", sd), ("NA", nal), ("NOTES", [notes])): t = t.replace("@@%s@@" % k, "\n".join(v))
open(V + "/DESIGN.md", "w").write(t)
