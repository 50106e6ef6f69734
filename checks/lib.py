"""Runs the abstract-interpretation jobs of a property and reports."""

import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
WALL_LIMIT = float(os.environ.get("VERIF_WALL", "780"))
START = time.time()


class Report:
    """What one job analysed and found."""

    def __init__(self, name):
        self.name = name
        self.obligations = 0
        self.discharged = 0
        self.violations = {}
        self.undetermined = {}
        self.notes = {}
        self.samples = []

    def count(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def check(self, ok, rule, where, detail="", st=None):
        """ok: True | False | None (cannot be decided)."""
        self.obligations += 1
        tainted = st is not None and bool(st.unk)
        if ok is True:
            self.discharged += 1
            if len(self.samples) < 3 and not any(
                    s.startswith(rule) for s in self.samples):
                self.samples.append("%s | %s | %s" % (
                    rule, where, str(detail)[:160]))
            return True
        key = "%s | %s" % (rule, where)
        info = str(detail)[:400]
        if ok is None or tainted:
            why = "; ".join(sorted(st.unk)[:2])[:300] if tainted else \
                "not decidable here"
            self.undetermined.setdefault(key, "%s (%s)" % (info, why))
        else:
            if st is not None:
                info += "  [branches: %s]" % " ".join(st.path(14))
            self.violations.setdefault(key, info)
        return False


def run_job(job):
    from engine.loader import AnalysisBroken
    from engine.interp import Budget
    fn, args = job
    name = fn.__name__ + "(" + ",".join(str(a) for a in args) + ")"
    sys.setrecursionlimit(30000)
    rep = Report(name)
    t = time.time()
    broken = None

    def onalarm(*_):
        raise Budget("time limit of one analysis run")

    signal.signal(signal.SIGALRM, onalarm)
    left = WALL_LIMIT - (time.time() - START)
    try:
        if left < 2:
            raise Budget("time limit of the whole check")
        signal.alarm(int(left))
        fn(rep, *args)
    except Budget as e:
        rep.undetermined["analysis budget | %s" % name] = str(e)
    except RecursionError:
        rep.undetermined["analysis budget | %s" % name] = "recursion depth"
    except MemoryError:
        rep.undetermined["analysis budget | %s" % name] = "memory"
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        # a construct the interpreter cannot follow: nothing is decided here
        rep.undetermined["analysis failed | %s" % name] = \
            traceback.format_exc()[-700:]
    finally:
        signal.alarm(0)
    return dict(name=name, secs=round(time.time() - t, 1), broken=broken,
                obligations=rep.obligations, discharged=rep.discharged,
                violations=rep.violations, undetermined=rep.undetermined,
                notes=rep.notes, samples=rep.samples)


def run_jobs(jobs):
    n = min(len(jobs), os.cpu_count() or 4)
    if n <= 1 or os.environ.get("VERIF_SERIAL"):
        return [run_job(j) for j in jobs]
    with mp.get_context("fork").Pool(n, maxtasksperchild=1) as pool:
        return pool.map(run_job, jobs, chunksize=1)


def known(pid):
    """Keys of the recorded, unrepaired findings of a property."""
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                key, _, what = line[len("known: property=%s " % pid):
                                    ].partition(" :: ")
                out[key.strip()] = what.strip()
    return out


def main(pid, spec, tier, t0):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    res = run_jobs(spec["jobs"](tier))
    broken = [(r["name"], r["broken"]) for r in res if r["broken"]]
    viol, und, notes, samples = {}, {}, {}, []
    ob = di = 0
    for r in res:
        ob += r["obligations"]
        di += r["discharged"]
        for k, v in r["violations"].items():
            viol.setdefault(k, []).append("%s: %s" % (r["name"], v))
        for k, v in r["undetermined"].items():
            und.setdefault(k, []).append("%s: %s" % (r["name"], v))
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
        samples += r["samples"][:2]
    kn = known(pid)
    hits = [k for k in viol if k in kn]
    new = {k: v for k, v in viol.items() if k not in kn}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", pid + ".json")
    rep_path = os.path.join(ROOT, "evidence", pid + ".replay.txt")
    ev = dict(
        property=pid, tier=tier, seed=seed, level="other",
        coverage=dict(
            explanation=spec["rule"], obligations=ob, discharged=di,
            runs=[dict(entry=r["name"], seconds=r["secs"],
                       obligations=r["obligations"]) for r in res],
            analysed=notes, samples=samples[:12],
            undetermined=[dict(obligation=k, why=v[0])
                          for k, v in sorted(und.items())][:40],
            undetermined_count=len(und)),
        assumptions=spec.get("assumptions", ASSUME),
        violations=[dict(construct=k, detail=v[:2])
                    for k, v in sorted(new.items())],
        wall_s=round(time.time() - t0, 1))
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations in %d analysis runs, %d discharged, "
          "%d undetermined, %d violated (%.0f s)" % (
              pid, ob, len(res), di, len(und), len(new), time.time() - t0))
    for k, v in sorted(notes.items()):
        print("  analysed %s: %d" % (k, v))
    for k, v in sorted(und.items())[:10]:
        print("  UNDETERMINED %s: %s" % (k, v[0][:300]))
    for k in hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k] or k))
    if new:
        with open(rep_path, "w") as f:
            f.write("property %s is violated\nrule: %s\n\n" % (
                pid, spec["rule"]))
            for k, v in sorted(new.items()):
                f.write("construct: %s\n" % k)
                for d in v[:4]:
                    f.write("    %s\n" % d)
            f.write("\nreplay: python3 %s/checks/run.py %s\n" % (ROOT, pid))
        for k, v in sorted(new.items())[:12]:
            print("  %s\n      %s" % (k, v[0][:500]))
        print("VIOLATION property=%s replay=%s" % (pid, rep_path))
        return 1
    if broken:
        for n, b in broken:
            print("ANALYSIS-BROKEN in %s: %s" % (n, b))
        return 2
    if ob < spec.get("min", 1) and not und:
        print("ANALYSIS-BROKEN: only %d obligations, expected at least %d" % (
            ob, spec.get("min", 1)))
        return 2
    return 0


ASSUME = [
    "models of Python built-ins, urllib.parse.quote/unquote_to_bytes, re, "
    "codecs and the ICU IDNA binding in engine/models*.py",
    "ICU's UTS46 toASCII either reports an error or yields ASCII without "
    "upper-case letters",
    "strings are passed where the API documents strings",
]
