"""Runs scenarios in the driver and checks what was recorded with TLC."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, os.path.join(VERIF, "bin"))
import build as builder  # noqa: E402
import conv  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_abort=0:detect_container_overflow=0:allocator_may_return_null=1")


class CheckError(Exception):
    pass


def cores():
    return max(2, min(8, os.cpu_count() or 2))


_exe = None


def driver():
    global _exe
    if _exe is None:
        _exe = builder.build()
    return _exe


def run_driver(scns, out, jobs=None, timeout=30):
    """executes scenarios; returns {id: events}"""
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, "scenarios.txt")
    with open(path, "w") as f:
        for s in scns:
            f.write(s if isinstance(s, str) else s.text())
    limit = 120 + timeout * (2 + len(scns) // 8)
    r = subprocess.run([driver(), path, out, "-j", str(jobs or cores()), "-t", str(timeout)], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
    if r.returncode not in (0,):
        raise CheckError("driver failed: " + r.stdout[-2000:].decode(errors="replace"))
    res = {}
    for s in scns:
        p = os.path.join(out, s.id + ".ndjson")
        res[s.id] = conv.load(p) if os.path.exists(p) else []
        if not res[s.id] or any(e["e"] == "badscenario" for e in res[s.id]):
            err = os.path.join(out, s.id + ".err")
            raise CheckError("scenario %s could not be executed: %s" % (s.id, open(err).read()[-500:] if os.path.exists(err) else ""))
    return res


class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.states = int(m[-1][1].replace(",", "")) if m else 0
        self.tuples = [x for x in re.findall(r"^<<(.*)>>$", out, re.M)]


def tlc(module, cfg=None, env=None, dfs=False, workers=1, mem="3g", timeout=600, args=(), fast=True):
    """runs TLC on spec/<module>.tla in a scratch directory"""
    d = tempfile.mkdtemp(prefix="hxtlc-")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + mem]
        if fast:        # (short runs)
            cmd.append("-XX:TieredStopAtLevel=1")
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JARS, "tlc2.TLC", "-metadir", d, "-workers", str(workers), "-noGenerateSpecTE"] + list(args)
        cmd += ["-config", cfg or os.path.join(SPEC, module + ".cfg"), os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=d, text=True, errors="replace")
        except subprocess.TimeoutExpired as x:
            raise CheckError("TLC timed out on %s: %s" % (module, (x.stdout or b"")[-500:]))
        return Tlc(r.stdout, r.returncode)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def clean_tlc(t, what):
    if t.rc != 0:
        raise CheckError("TLC failed on %s (exit %d):\n%s" % (what, t.rc, t.out[-20000:]))


class Checked:
    def __init__(self):
        self.rejects = {}       # id -> (datastore, event, line of the trace)
        self.undecided = set()
        self.states = self.transitions = 0


def check_traces(module, items, work, jobs=None, batch=None, timeout=600, budget=None, retry=True):
    """items: list of dicts with an "id"."""
    C = Checked()
    if not items:
        return C
    jobs = jobs or cores()
    # equal work for every JVM
    groups = [[] for _ in range(min(jobs if batch is None else (len(items) + batch - 1) // batch, len(items)))]
    sizes = [0] * len(groups)
    for it in sorted(items, key=lambda i: -len(i.get("ev", ()))):
        k = sizes.index(min(sizes))
        groups[k].append(it)
        sizes[k] += len(it.get("ev", ())) + 5

    def one(n):
        p = os.path.join(work, "%s-%d-%d.json" % (module, n, time.time_ns()))
        with open(p, "w") as f:
            json.dump(groups[n], f)
        env = {"HX_INPUT": p}
        if budget:
            env["HX_BUDGET"] = str(budget)
        t = tlc(module, env=env, dfs=True, timeout=timeout)
        os.unlink(p)
        m = re.search(r'<<"CHECKED", (\d+)>>', t.out)
        if not m or int(m.group(1)) != len(groups[n]):
            raise CheckError("TLC did not finish checking %s:\n%s" % (module, t.out[-20000:]))
        rej, und = {}, set()
        for w, *x in re.findall(r'<<\s*"(REJECT|UNDECIDED)", "([^"]*)", (-?\d+), (\d+), (\d+)\s*>>', t.out):
            if w == "REJECT":
                rej.setdefault(x[0], (int(x[1]), int(x[2]), int(x[3])))
            else:
                und.add(x[0])
        return rej, und, t.states, t.generated
    with ThreadPoolExecutor(jobs) as ex:
        for rej, und, a, b in ex.map(one, range(len(groups))):
            C.rejects.update(rej)
            C.undecided |= und
            C.states += a
            C.transitions += b
    C.undecided -= set(C.rejects)
    if C.undecided and retry:       # look harder at those
        D = check_traces(module, [i for i in items if i["id"] in C.undecided], work, jobs, 1, timeout, 5 * (budget or 3000), False)
        C.rejects.update(D.rejects)
        C.undecided = D.undecided
        C.states += D.states
        C.transitions += D.transitions
    return C
