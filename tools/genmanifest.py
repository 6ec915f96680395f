"""Writes MANIFEST.json from the rules present in /verif/rules."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/rules"]

TECH = {
    "paths": "trace-partitioned dataflow (provenance) analysis over MIR",
    "query": "whole-program queries over the type-checked program and MIR",
    "fail": "compile-fail witnesses with compiling twins",
    "algebra": "evaluation of associated-type equations over the type-checked impls",
    "gen": "dataflow (provenance) analysis of the generator's MIR",
    "sibling": "dataflow analysis of path conditions against a finite specification table",
}
KIND = {
    "B05": ["query", "paths", "fail"], "M05": ["fail"], "M06": ["algebra", "paths"], "T01": ["sibling"], "T02": ["paths"], "T03": ["paths"], "T05": ["paths"], "T04": ["paths", "fail"],
    "N01": ["gen"], "N02": ["gen"], "N03": ["gen"], "K01": ["paths"], "K02": ["paths"],
}
NA = {
    "X01": "Global progress quantifies over all schedules of all well-typed protocols, and the crate deliberately leaves it to external tools (KMC) for the bottom-up method; the types here do not imply deadlock freedom, so no source-level argument over this repository can decide it.",
    "X02": "Quantifies over real elapsed time: what the operating-system clock and scheduler do is not in the source.",
    "X03": "Quantifies over all accepted nuscr files and over the text the generator prints; deciding that the printed text type-checks means running the generator or proving a compiler correct, neither of which is static analysis of this source in reach. N01, N02 and N03 decide the parts of the generator that can be decided.",
}
PENDING = "Not claimed yet: the rule for this property is still being built."

checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists("%s/rules/%s.py" % (V, pid)):
        m = importlib.import_module(pid)
        checks.append({
            "property": pid,
            "quick_cmd": "./check %s quick" % pid,
            "thorough_cmd": "./check %s thorough" % pid,
            "technique": "static analysis: " + "; ".join(TECH[k] for k in KIND.get(pid, ["paths"])),
            "level": "other",
            "level_note": (m.EXPLAIN + " Rule: " + m.RULE + ". Sound for the paths of the analysed functions (no path is skipped; an unmodelled construct or a missing anchor is reported); generated code is covered for the instances of the witness crates.")[:1900],
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, PENDING)})
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks;", [x["property"] for x in na], "not applicable")
