"""Model checking runs: the specification itself, under small constants."""
import os
import re
import tempfile

import run


def const(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{%s}" % ", ".join(const(x) for x in sorted(v))
    return '"%s"' % v if isinstance(v, str) else str(v)


def model(R, module, consts, inv, props=(), deadlock=False, expect=None, timeout=700, mem="8g"):
    """expect: the invariant (or "deadlock") that this variant of the model must violate"""
    cfg = "SPECIFICATION Spec\nCONSTANTS " + " ".join("%s = %s" % (k, const(v)) for k, v in consts.items())
    cfg += "\nINVARIANTS " + " ".join(inv) + "\n"
    if props:
        cfg += "PROPERTY " + " ".join(props) + "\n"
    if not deadlock:
        cfg += "CHECK_DEADLOCK FALSE\n"
    fd, p = tempfile.mkstemp(suffix=".cfg")
    with os.fdopen(fd, "w") as f:
        f.write(cfg)
    try:
        t = run.tlc(module, cfg=p, workers=run.cores(), mem=mem, timeout=timeout, fast=False)
    finally:
        os.unlink(p)
    what = "%s(%s)" % (module, ", ".join("%s=%s" % (k, const(v)) for k, v in consts.items()))
    R.states += t.states
    R.transitions += t.generated
    R.add(model_runs=1, model_states=t.states)
    if expect:
        hit = "Deadlock reached" in t.out if expect == "deadlock" else re.search(r"(Invariant %s is|Temporal property %s was) violated" % (expect, expect), t.out)
        if not hit:
            raise run.CheckError("%s should violate %s:\n%s" % (what, expect, t.out[-5000:]))
    elif t.rc != 0 or "No error has been found" not in t.out:
        raise run.CheckError("%s failed:\n%s" % (what, t.out[-10000:]))
    R.models.append({"model": what, "checked": list(inv) + list(props) + (["no deadlock"] if deadlock else []), "states": t.states,
                     "result": "violates %s, as it must" % expect if expect else "holds"})


HX = ["Right", "Contents", "Once", "Order", "Meet", "Survivable", "Closed", "Counting"]


def hx(nr, async_, mem, kills, tracked, kinds, ops, calls, maxcalls, opens, thorough=False):
    def f(R, tier):
        if thorough and tier == "quick":
            return
        model(R, "HxMC", dict(NR=nr, Async=async_, Mem=mem, Kills=kills, Tracked=tracked, Kinds=kinds.split(), MaxOps=ops, Calls=calls.split(),
                              MaxCalls=maxcalls, Opens=opens), HX, deadlock=True)
    return f


def transport(n, c, s, l, b, rounds, exclusive=True, sendslast=True, expect=None, thorough=False):
    def f(R, tier):
        if thorough and tier == "quick":
            return
        model(R, "TransportMC", dict(N=n, C=c, S=s, L=l, B=b, Rounds=rounds, Exclusive=exclusive, SendsLast=sendslast),
              ["TypeOK", "Belongs", "OneEach", "Paired", "NothingLost"], ["Protocol", "Done"] if not expect else [], deadlock=True, expect=expect)
    return f


def asyncput(puts, flushes, at, passes=2, wakes=True, spurious=False, expect=None, thorough=False):
    def f(R, tier):
        if thorough and tier == "quick":
            return
        model(R, "AsyncPut", dict(MaxPuts=puts, MaxFlushes=flushes, StartAt=at, Passes=passes, Wakes=wakes, Spurious=spurious),
              ["Order", "NothingLost", "Results", "Flushed", "Gone", "Locks"], ["Returns", "Starts"], deadlock=True, expect=expect)
    return f


def elen(width, signed, step, at, thorough=False):
    def f(R, tier):
        if thorough and tier == "quick":
            return
        model(R, "ElenMC", dict(Width=width, Signed=signed, Step=step, At=at), ["Keeps"])
    return f


def ids(R, tier):
    k = 10 if tier == "quick" else 24
    model(R, "IdsMC", dict(MaxSize=k, MaxRatio=4 if tier == "quick" else 6, MaxPer=3), ["Inverse", "Dense", "Ordered", "Closed", "Enough"])


def store(R, tier):
    for s in ("bytes", "numbers"):
        model(R, "StoreMC", dict(Set=s, MaxN=1 if tier == "quick" else 4), ["Keys", "Numbers", "Walk", "Answered"])


def histo(R, tier):
    model(R, "HistoMC", dict(Gens=["tens", "10_BUCKETS", "SQUARE_ROOT_CHOICE", "STURGES_FORMULA", "RICE_RULE", "UNIFORM_LOG2"], Firsts={1, 2, 3, 4},
                             Vals={0, 24, 60, 80, 200}, Length=5 if tier == "quick" else 7), ["Counted", "Summed", "Chosen", "Sorted"], ["Steady"])


MODELS = {
    "C01": [hx(1, False, False, 0, False, "PUT GET DELETE", 3, "flush flushput sync", 2, 2),
            hx(2, True, False, 0, False, "PUT GET", 2, "flush sync", 1, 1, True)],
    "C02": [hx(1, False, False, 0, False, "PUT GET DELETE", 3, "flush", 2, 1)],
    "C03": [elen(4, True, 41, 0), elen(8, False, 97, 0, True), elen(8, True, 11, 6, True)],
    "C04": [store],
    "C05": [hx(2, False, True, 0, False, "PUT GET", 1, "flush sync", 1, 1)],
    "C06": [hx(2, False, False, 0, False, "PUT GET", 1, "flush sync", 1, 2), hx(2, True, False, 0, False, "PUT GET", 2, "flush sync", 1, 1, True)],
    "C07": [hx(1, False, False, 0, False, "PUT GET DELETE", 3, "flush flushput flushget", 2, 1), hx(3, False, False, 0, False, "PUT GET", 1, "sync", 1, 1, True)],
    "C08": [transport(2, {0, 1}, {0, 1}, 1, {0}, 1), transport(2, {0, 1}, {0, 1}, 2, {0}, 1), transport(2, {0, 1}, {0, 1}, 1, {0}, 1, False, expect="OneEach"),
            transport(3, {0, 1, 2}, {0}, 1, {0, 1}, 1, thorough=True), transport(4, {2, 3}, {0, 1}, 1, [], 1, thorough=True),
            transport(4, {2, 3}, {0, 1}, 1, [], 1, True, False, expect="deadlock", thorough=True)],
    "C09": [asyncput(3, 2, 2), asyncput(3, 2, 1, spurious=True), asyncput(3, 2, 2, passes=1, expect="Flushed"), asyncput(3, 2, 2, wakes=False, expect="Starts", thorough=True),
            asyncput(6, 4, 3, spurious=True, thorough=True), hx(1, True, False, 0, False, "PUT GET DELETE", 3, "flush flushput", 2, 1), hx(2, True, False, 1, False, "PUT GET", 1, "flush sync", 1, 1, True)],
    "C10": [ids],
    "C11": [hx(1, False, False, 1, True, "PUT GETOP HIST", 2, "flush sync", 1, 2), hx(1, True, False, 1, False, "PUT GET DELETE", 3, "flush sync chname", 1, 1),
            hx(1, True, False, 2, False, "PUT DELETE", 4, "flushput sync", 2, 1, True), hx(2, False, False, 0, False, "PUT GET", 1, "sync", 1, 2, True)],
    "C12": [hx(1, False, False, 0, True, "PUT GET HIST", 2, "sync chname chhash", 2, 2), hx(2, False, False, 0, True, "PUT HIST", 1, "sync chname", 2, 1, True)],
    "C13": [hx(1, True, True, 0, False, "PUT GET DELETE", 2, "flush sync", 2, 1), hx(1, False, False, 0, False, "PUT GET DELETE", 2, "flush sync", 2, 1)],
    "C14": [histo, hx(1, False, True, 0, True, "PUT GET HIST", 3, "flush sync chname chhash", 2, 1)],
    "C16": [elen(4, True, 41, 2), elen(8, True, 101, 3), elen(4, False, 7, 0, True), elen(4, False, 7, 2, True), elen(8, False, 11, 6, True)],
    "C22": [hx(1, False, False, 0, False, "PUT GET GETOP", 3, "flush", 2, 1)],
}
