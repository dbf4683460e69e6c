"""Writes MANIFEST.json from properties.jsonl and the modules in mc/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "hist": "explicit enumeration of all operation histories to a depth on the real objects against a reference model",
    "conf": "explicit enumeration of a bounded configuration/input space on the real code against an independent reference model",
    "sched": "stateless exploration of all thread interleavings within a preemption bound on the real code under a controlled scheduler",
    "file": "explicit enumeration of all small input files/options on the real parser against a reference reader",
}
KIND = {**{f"C{i:02d}": "conf" for i in range(1, 31)},
        **{k: "hist" for k in ("C04", "C05", "C13", "C14", "C15", "C16", "C21", "C25", "C26", "C27", "C30")},
        "C29": "sched",
        **{k: "file" for k in ("C17", "C18", "C19", "C20")}}
NOTE = {
    "hist": "Every operation history of the stated alphabet and depth is executed on the real classes and each resulting state compared with a plain reference model; holds for the enumerated histories, values outside the alphabet are not covered.",
    "conf": "Every configuration of the stated bounded space is executed on the real code and compared with an independently written reference; values between the enumerated ones are not covered. Trusts numpy/scipy and mc/ref.py.",
    "sched": "Two real threads are stepped by a line-level scheduler through every schedule of the stated bounds and each result compared with the serial one; calls into numpy/scipy/pandas/refnx are atomic, more than two preemptions are not covered.",
    "file": "Every file of the stated small-file space is written, loaded by the real parser and compared with the rows it was generated from; larger files are covered only through the listed sizes.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "mc", "props", pid.lower() + ".py")):
        k = KIND[pid]
        checks.append({"property": pid, "quick_cmd": f"bin/check {pid} quick", "thorough_cmd": f"bin/check {pid} thorough",
                       "evidence_file": f"evidence/{pid}.json", "technique": "model checking: " + TECH[k],
                       "level": "model_checking", "level_note": NOTE[k]})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "Pure Python: checks import refellips from /repo's working tree; no hooks in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
