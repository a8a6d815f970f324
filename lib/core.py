"""Checks: what each property's check runs, and how it reports."""
import json
import os
import random
import shutil
import sys
import tempfile
import time

import conv
import gen
import run

VERIF = run.VERIF
REPLAYS = os.path.join(VERIF, "build", "replay")


class Violation:
    def __init__(self, sig, text, data):
        self.sig, self.text, self.data = sig, text, data


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.undecided = 0
        self.samples, self.violations, self.cov, self.assumptions, self.models = [], [], {}, [], []

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def elapsed(self):
        return time.time() - self.t0


def describe(ev, no, limit=600):
    for e in ev:
        if e["no"] == no:
            return json.dumps({k: v for k, v in e.items() if k != "no"})[:limit]
    return "end of trace"


def trace_key(sc):
    """what identifies a scenario when a finding is listed"""
    return "%s/%s" % (sc.family, sc.backend if hasattr(sc, "backend") else "")


def summary(sc, ev):
    n = {}
    for e in ev:
        k = e["k"] if e["e"] == "op" else e["f"] if e["e"] in ("call", "lifecall") else e["e"]
        n[k] = n.get(k, 0) + 1
    return {"scenario": sc.id, "family": sc.family, "ranks": sc.size, "backend": getattr(sc, "backend", ""), "events": n}


def check_scenarios(R, scns, work, module="HxTrace", convert=conv.convert, timeout=30, evs=None):
    """executes the scenarios and checks every recorded history against the specification"""
    evs = evs or run.run_driver(scns, work, timeout=timeout)
    items, byid = [], {}
    for s in scns:
        byid[s.id] = s
        items.append(convert(s, evs[s.id]))
    C = run.check_traces(module, items, work)
    R.states += C.states
    R.transitions += C.transitions
    R.traces += len(items) - len(C.undecided)
    R.undecided += len(C.undecided)
    R.add(scenarios=len(items), recorded_events=sum(len(e) for e in evs.values()),
          operations=sum(1 for v in evs.values() for e in v if e["e"] == "op"), results=sum(len(e["res"]) for v in evs.values() for e in v if e["e"] == "ret"))
    for fam in sorted({s.family for s in scns}):
        L = [s for s in scns if s.family == fam]
        R.add(**{"family_" + fam.replace("-", "_"): len(L)})
        if len(R.samples) < 6:
            R.samples.append(summary(L[0], evs[L[0].id]))
    for sid, (d, l, no) in sorted(C.rejects.items()):
        s, ev = byid[sid], evs[sid]
        bad = [e for e in ev if e["no"] == no]
        kind = bad[0]["e"] if bad else "end"
        if kind == "hang":
            # report only what happens again
            again = []
            for k in range(16):
                x = s.text().replace("scenario %s\n" % sid, "scenario %s-again%d\n" % (sid, k), 1)
                again.append(Text("%s-again%d" % (sid, k), x))
            e2 = run.run_driver(again, os.path.join(work, "again"), timeout=timeout)
            if not any(e["e"] in ("hang", "crash") for v in e2.values() for e in v):
                R.add(hangs_not_repeated=1)
                continue
        else:
            it = [i for i in items if i["id"] == sid]
            c2 = run.check_traces(module, it, work, budget=30000, retry=False)
            if sid not in c2.rejects:
                R.add(rejections_not_confirmed=1)
                continue
        what = "crash: " + bad[0].get("why", "") if kind == "crash" else kind
        text = "%s: %s at line %d of the trace%s: %s" % (sid, what, no, "" if d < 0 else " (datastore %d)" % d, describe(ev, no))
        R.violations.append(Violation("%s:%s" % (s.family, what), text,
                                      {"scenario": s.text(), "trace": os.path.join(work, sid + ".ndjson"), "datastore": d, "line": no}))
        if len(R.violations) >= 5:
            break
    return evs


class Text:
    def __init__(self, id, t): self.id, self.t = id, t
    def text(self): return self.t


# ------------------------------------------------------------------ known findings
def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                d = dict(x.split("=", 1) for x in line[9:].split(" ", 2)[:2])
                d["text"] = line[9:].split(" ", 2)[2]
                out.append(d)
    return out


def finish(R, level, evidence=True):
    os.makedirs(REPLAYS, exist_ok=True)
    K = [k for k in known() if k["property"] == R.prop]
    bad = []
    for k in K:
        print("KNOWN-FINDING: property=%s %s" % (R.prop, k["text"]))
    for i, v in enumerate(R.violations):
        if any(k["sig"] == v.sig for k in K):
            continue
        p = os.path.join(REPLAYS, "%s-%s-%d.json" % (R.prop, R.tier, i))
        data = dict(v.data)
        if isinstance(data.get("trace"), str) and os.path.exists(data["trace"]):
            data["trace"] = open(data["trace"]).read()[:2000000].splitlines()
        with open(p, "w") as f:
            json.dump({"property": R.prop, "what": v.text, **data}, f, indent=1)
        print(v.text[:1500])
        print("VIOLATION property=%s replay=%s" % (R.prop, p))
        bad.append(v)
    cov = dict(states=R.states, transitions=R.transitions, traces_validated_against_impl=R.traces, samples=R.samples or ["(none)"])
    if R.undecided:
        cov["traces_undecided"] = R.undecided
    cov.update(R.cov)
    if R.models:
        cov["models"] = R.models
    ev = {"property": R.prop, "tier": R.tier, "seed": R.seed, "level": level, "coverage": cov, "wall_s": round(R.elapsed(), 1), "violations": len(bad)}
    if R.assumptions:
        ev["assumptions"] = R.assumptions
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", R.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d scenarios, %d states, %d violations, %.1f s" % (R.prop, R.tier, R.cov.get("scenarios", 0), R.states, len(bad), R.elapsed()))
    return 1 if bad else 0
