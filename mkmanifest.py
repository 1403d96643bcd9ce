#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules that exist."""
import glob, importlib, json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

PENDING = "the rule that decides it isn't finished yet"
NOT_APPLICABLE = {
}
NOTE = ("Decides every obligation from the MIR of the current tree for all inputs at once (exact value summaries; loops by closed forms). "
        "Trusts rustc's MIR and the summaries of library functions in engine/std.py. Code shapes that the analysis can't summarise are "
        "reported as undecided in the evidence and not as violations.")
TECH = "static analysis: value-flow abstract interpretation of the MIR (merged-state summaries as decision diagrams)"


def main():
    checks, na = [], []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        pid = json.loads(line)["id"]
        if os.path.exists(os.path.join(HERE, "rules", pid.lower() + ".py")):
            m = importlib.import_module("rules." + pid.lower())
            checks.append({
                "property": pid,
                "quick_cmd": "python3 check.py " + pid,
                "thorough_cmd": "python3 check.py %s --thorough" % pid,
                "evidence_file": "evidence/%s.json" % pid,
                "technique": getattr(m, "TECHNIQUE", TECH),
                "level": "other",
                "level_note": getattr(m, "NOTE", NOTE),
            })
        else:
            na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, PENDING)})
    doc = {"version": 1, "setup_cmd": "python3 -m engine.dumper", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
