#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "checks")]
import props

P = "src/urlstd/parse.py"
ANYS = "every string (any Unicode code points, lone surrogates included)"

# id: title, statement, over, text, why, mechanism[(name, where)], observe
T = {}


def prop(pid, title, statement, over, text, why, mech, observe, files=(P,)):
    T[pid] = dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None))


exec(open(os.path.join(ROOT, "tools", "texts.py")).read())

NOTE = ("Decided by abstract interpretation of the current source for all "
        "inputs of the quantifier at once; over-approximating, so a quiet "
        "result covers every path it could follow. Trusted: the models of "
        "built-ins, re, urllib and ICU in engine/, and that fields of the "
        "URL handed in satisfy the record invariants other checks "
        "establish. What it cannot decide is listed as undetermined in the "
        "evidence and raises no alarm.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for pid in sorted(T):
            if pid in props.PROPS or pid in NA:
                f.write(json.dumps(T[pid], ensure_ascii=False) + "\n")
    checks = []
    for pid in sorted(props.PROPS):
        checks.append(dict(
            property=pid, quick_cmd="python3 checks/run.py %s quick" % pid,
            thorough_cmd="python3 checks/run.py %s thorough" % pid,
            technique=props.PROPS[pid].get(
                "technique", "static analysis: abstract interpretation of "
                "the source (trace-partitioned dataflow)"),
            level="other", level_note=NOTE))
    man = dict(version=1, setup_cmd="python3 -c \"import ast\"",
               checks=checks,
               not_applicable=[dict(property=p, reason=r)
                               for p, r in sorted(NA.items())],
               notes="Static analysis only: nothing of /repo is imported or "
                     "run by the checks.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    miss = [p for p in props.PROPS if p not in T]
    print("claimed", len(checks), "n/a", len(NA), "missing text", miss)


main()
