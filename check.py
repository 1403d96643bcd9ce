#!/usr/bin/env python3
"""Decides one property from the current source of /repo: `check.py ID`.

Exit 0 when no violation was found, 1 with a `VIOLATION property=... replay=...`
line otherwise (anything else is an error of the check itself).
"""
import importlib
import json
import multiprocessing
import os
import resource
import sys
import threading
import time

LIMIT = 600     # seconds
if os.environ.get("PYTHONHASHSEED") != "0":
    # sets have the same order in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(100000)


def known_findings(pid):
    out = {}
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        if line.startswith("finding: property=%s " % pid):
            key = line.split("key=", 1)[1].split(" ", 1)
            out[key[0]] = key[1].strip() if len(key) > 1 else ""
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    debug = "--debug" in sys.argv
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    from engine import dumper
    from engine.program import Program
    from rules.common import Ctx

    dump = dumper.build_dump()
    program = Program(dump)
    ctx = Ctx(pid, program, "debug" if debug else tier, seed)
    rule = importlib.import_module("rules.%s" % pid.lower())
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

    def overdue():
        ctx.undecided_list.append("the rule as a whole: it took too long")
        rc = finish(pid, tier, seed, t0, dump, program, ctx, rule)
        sys.stdout.flush()
        for child in multiprocessing.active_children():
            child.kill()
        os._exit(rc)
    watchdog = threading.Timer(LIMIT, overdue)
    watchdog.daemon = True
    watchdog.start()
    with ctx.guardeds("the rule as a whole"):
        rule.check(ctx)
    watchdog.cancel()
    return finish(pid, tier, seed, t0, dump, program, ctx, rule)


def finish(pid, tier, seed, t0, dump, program, ctx, rule):
    known = known_findings(pid)
    new = [v for v in ctx.violations if v[0].replace(" ", "_") not in known]
    old = [v for v in ctx.violations if v[0].replace(" ", "_") in known]
    for key, msg, _ in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, msg))
    ev = os.environ.get("PEMV_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, "%s.violations.txt" % pid)
    if os.path.exists(replay):
        os.remove(replay)
    obligations = ctx.counts.get("obligations", 0)
    coverage = {
        "explanation": rule.RULE,
        "functions_analysed": len(ctx.analysed),
        "functions": sorted(f for f in ctx.analysed if program.fns[f]["local"])[:400],
        "local_functions_in_program": sum(1 for f in program.fns.values() if f["local"]),
        "counts": ctx.counts,
        "obligations": obligations,
        "discharged": obligations - len(ctx.violations) - len(ctx.undecided_list),
        "undecided": ctx.undecided_list,
        "samples": ctx.samples,
        "dump": os.path.basename(dump),
    }
    doc = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other",
        "coverage": coverage, "assumptions": getattr(rule, "ASSUMPTIONS", []) + COMMON,
        "violations": len(new), "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(ev, "%s.json" % pid), "w") as f:
        json.dump(doc, f, indent=1, default=str)
    if new:
        with open(replay, "w") as f:
            for key, msg, detail in new:
                f.write("[%s] %s\n" % (key, msg))
                if detail is not None:
                    f.write("    %s\n" % (detail if isinstance(detail, str) else json.dumps(detail, indent=1, default=str)))
        for key, msg, _ in new[:20]:
            print("%s: [%s] %s" % (pid, key, msg))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    print("%s: held: %d obligations, %d undecided, %d functions analysed, %.1f s" % (
        pid, obligations, len(ctx.undecided_list), len(ctx.analysed), time.time() - t0))
    for u in ctx.undecided_list[:20]:
        print("  undecided: %s" % u)
    return 0


COMMON = [
    "the MIR that rustc produces for the crate is what the program does",
    "the summaries of standard library, termcolor, clap and figment functions in engine/std.py describe them",
]

if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
