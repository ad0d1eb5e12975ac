"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NUM = "exhaustive bounded enumeration of executions on the real code against a reference model, step by step"
HIS = "explicit-state exploration of all operation sequences up to a depth on the real objects against a reference model"
SCH = "stateless model checking of the real code under a controlled scheduler (all schedules up to a preemption/deviation bound)"
CRA = "exhaustive exploration of all crash points (an exception in front of every executed library line, every failing model call) and histories on the real code"
TECH = {p["id"]: NUM for p in props}
TECH.update(C17=HIS, C18=HIS, C22=HIS, C24=HIS, C26=HIS, C27=CRA, C28=HIS, C29=HIS, C19=SCH, C20=SCH)
NOTE = {
    NUM: "Complete within the enumerated alphabets (bounds in DESIGN.md and in the evidence rule); values outside of them are not covered. Trusts numpy, scipy, torch (reference derivatives) and the comparison tolerances.",
    HIS: "Complete for all operation sequences up to the stated depth over the stated operation and value alphabets, executed on the implementation itself. Trusts the small reference model and numpy/torch.",
    CRA: "Complete for all crash points at source-line granularity of the enumerated operations and all histories of failing and succeeding operations up to the stated depth, on the implementation itself; exceptions within one call of numpy, scipy or torch are not injected.",
    SCH: "Complete for all schedules within the stated bounds at source-line (C20) or task (C19) granularity on the implementation itself; code outside of the library between two of its lines is atomic.",
}
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"python3 -m mc.run {i} --tier quick", thorough_cmd=f"python3 -m mc.run {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique=TECH[i], level="model_checking", level_note=NOTE[TECH[i]]))
m = dict(version=1, setup_cmd="python3 -m mc.selftest", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the checks import the library from /repo/src, replace thread pools from outside and trace lines with sys.settrace.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
