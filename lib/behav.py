"""Programs that TLC finds in the specification (spec/HxGen.tla), made concrete."""
import hashlib
import os
import random
import tempfile

import run
from models import const
from scn import BYTE, DOUBLE, FIRST, NEXT, PREV, by, val
import struct

FLUSH = ["flush", "flushput", "flushget", "flushgetop", "flushdel", "flushhist"]
#        ranks mem    kills tracked menu                                                              calls                                 queue len opens
PLANS = {
    "store": (1, True, 0, False, ["put ab5", "put abx", "put bax", "get ab", "del ab", "next ab"], ["flush", "flushput", "flushget", "flushgetop", "flushdel", "sync"], 2, 6, 1),
    "flush": (1, True, 0, True, ["put ab5", "get ab", "del ab", "first", "hist"], FLUSH + ["sync"], 3, 6, 1),
    "order": (1, True, 0, False, ["put ab5", "put abx", "del ab", "get ab"], ["flush", "flushput", "flushget", "flushdel"], 4, 7, 1),
    "crash": (1, False, 1, True, ["put ab5", "put bax", "del ab"], ["flush", "sync"], 1, 8, 2),
    "names": (1, False, 0, False, ["put ab5", "put bax", "del ab", "get ab"], ["flush", "chname", "chhash"], 1, 5, 1),
    "hists": (1, False, 0, True, ["put ab5", "put ab7", "put abx", "hist"], ["flush", "flushhist", "sync"], 2, 7, 2),
    "histnames": (1, False, 0, True, ["put ab5", "put ab7", "hist"], ["flush", "chname"], 1, 5, 1),
    "bulk": (1, True, 0, False, ["put ab5", "put abx", "put bax", "get ab", "get ba", "del ab", "next ab"], ["flush"], 4, 6, 1),
    "ranks": (2, True, 0, False, ["put ab5", "put bax", "get ab", "del ab"], ["flush", "flushput", "sync"], 1, 6, 1),
    "rankcalls": (2, False, 0, False, ["put ab5", "put bax"], ["flush", "sync", "chhash"], 1, 7, 2),
}
_cache = {}


def coverage(R):
    """what the generation did, for the evidence"""
    for plan, (P, states, transitions) in _cache.items():
        if plan not in R.cov.setdefault("generated_programs", {}):
            R.states += states
            R.transitions += transitions
        R.cov["generated_programs"][plan] = {"programs": len(P), "states": states, "transitions": transitions, "replayed": min(len(P), _count.get(plan, 0))}


def programs(plan, deep=False):
    """all programs of a plan, without those that others continue"""
    nr, mem, kills, tracked, menu, calls, mq, ml, opens = PLANS[plan]
    c = dict(NR=nr, Mem=mem, Kills=kills, Tracked=tracked, Menu=menu, Calls=calls, MaxQueue=mq, MaxLen=ml, Opens=opens)
    if plan in _cache:
        return _cache[plan]
    cfg = "INIT Init\nNEXT Next\nVIEW Seen\nACTION_CONSTRAINT Tell\nCHECK_DEADLOCK FALSE\nCONSTANTS " + " ".join("%s = %s" % (k, const(v)) for k, v in c.items()) + "\n"
    fd, p = tempfile.mkstemp(suffix=".cfg")
    with os.fdopen(fd, "w") as f:
        f.write(cfg)
    try:
        t = run.tlc("HxGen", cfg=p, workers=1, mem="4g", timeout=300, fast=False)
    finally:
        os.unlink(p)
    if t.rc != 0 or "No error has been found" not in t.out:
        raise run.CheckError("HxGen(%s) failed:\n%s" % (plan, t.out[-5000:]))
    P = set()
    for line in t.out.splitlines():
        if line.startswith('<<"P", "'):
            P.add(line[8:-3])
    pre = set()
    for x in P:
        w = x.split(";")[:-1]
        for i in range(1, len(w)):
            pre.add(";".join(w[:i]) + ";")
    P = sorted(P - pre)
    # (TLC explores in no particular order, the set is the same)
    random.Random(1).shuffle(P)
    _cache[plan] = (P, t.states, t.generated)
    return _cache[plan]


# ------------------------------------------------------------------ scenarios
def concrete(s, rng, prog, tracked, queues=.2):
    """writes a program, and what makes its outcome visible, into a scenario"""
    import gen
    pool = gen.adversarial(rng, 8)
    if rng.random() < .3:
        pool = [b"a", b"ab", b"b", b"ba", b"abc", b"c"]
    rng.shuffle(pool)
    if tracked:
        A, B = by(pool[0]), by(pool[1])
        s.opt("track", pool[1].hex()).opt("firstn", rng.choice([1, 1, 2])).opt("genfn", rng.choice(["tens", "tens3"]))
    else:
        ts = rng.choice([[BYTE], [BYTE], [BYTE, DOUBLE], [1, 2, 3, 4, 5, 6, 7, 8]])
        A, B = by(pool[0]), gen.some_value(rng, rng.choice(ts), pool[1:])
    num = rng.sample([5.0, 7.0, -3.0, 100.0, 0.0, 42.0], 2)
    O = {"5": val(DOUBLE, struct.pack("<d", num[0])), "7": val(DOUBLE, struct.pack("<d", num[1])), "x": gen.some_value(rng, rng.choice([BYTE, BYTE, 1, 4, 6]), pool[2:])}
    if rng.random() < .1:
        O["x"] = "7:%02x*%d" % (rng.randrange(256), rng.choice([41, 300, 5000]))
    K = {"a": A, "b": B}
    n = s.size
    opened, coll, done, life = set(), [], [0] * n, False
    mask = 1 if any("next" in c or "prev" in c or "first" in c for c in prog) or rng.random() < .7 else rng.choice([3, 63, 8])

    def bar():
        if n > 1 and len(opened) == n and len(set(done)) == 1:
            s.cmd("*", "bar")

    def issue(r, c):
        w = c.split()
        if w[0] == "open":
            s.cmd(r, "init").cmd(r, "open")
            opened.add(r)
            return
        if w[0] in ("sync", "close", "chname", "chhash"):
            if done[r] == len(coll):
                coll.append(c)
            done[r] += 1
            if w[0] == "close":
                opened.discard(r)
                s.cmd(r, "close")
            elif w[0] == "sync":
                s.cmd(r, "sync")
            else:
                name = {"d": "data", "e": "other"}[w[1]]
                if w[0] == "chname":
                    s.cmd(r, "chname", name, *w[2:])
                else:
                    s.cmd(r, "chhash", name, {"d": "SUM", "e": "FNV"}[w[1]])
        elif w[0] == "kill":
            s.cmd(r, "kill")
            s.phase()
            opened.clear()
            return
        elif w[0] == "put":
            s.cmd(r, "put", K[w[1][0]], K[w[1][1]], O[w[1][2]], mask)
        elif w[0] == "get":
            s.cmd(r, "get", K[w[1][0]], K[w[1][1]], BYTE)
        elif w[0] == "del":
            s.cmd(r, "del", K[w[1][0]], K[w[1][1]])
        elif w[0] in ("next", "prev"):
            s.cmd(r, "getop", K[w[1][0]], K[w[1][1]], BYTE, 2, NEXT if w[0] == "next" else PREV)
        elif w[0] == "first":
            s.cmd(r, "getop", A, B, BYTE, 3, FIRST)
        elif w[0] == "hist":
            for d in range(s.total):
                s.cmd(r, "hist", d, B.split(":")[1])
        else:
            s.cmd(r, w[0])
        if rng.random() < queues and r in opened:
            s.cmd(r, "queues")
        if w[0] not in ("sync", "close", "chname", "chhash"):
            bar()

    def all_open():
        for r in range(n):
            if r not in opened:
                issue(r, "open")

    for c in prog:
        r, c = c.split(" ", 1)
        issue(int(r), c)
    # the calls the other ranks still have to make
    for r in range(n):
        while done[r] < len(coll):
            issue(r, coll[done[r]])

    def look(r):
        for x, y in (("a", "b"), ("b", "a")):
            s.cmd(r, "get", K[x], K[y], BYTE)
        if tracked:
            for d in range(s.total):
                s.cmd(r, "hist", d, B.split(":")[1])
        if mask == 1:
            s.cmd(r, "getop", A, B, BYTE, 9, FIRST)
        s.cmd(r, "flush")

    k = len(opened) == n
    if opened or s.backend != "mem":
        all_open()
        if n > 1:
            s.cmd("*", "bar")
        if k and rng.random() < .5:
            s.cmd("*", "flush")
            if n > 1:
                s.cmd("*", "bar")
        look(rng.randrange(n))
        if n > 1:
            s.cmd("*", "bar")
        s.stop()
        if s.backend != "mem" and rng.random() < .3:
            s.start()
            look(0)
            s.cmd("*", "bar").stop()
    return s


def bulked(s, rng):
    """queues neighbouring operations of a kind with one call"""
    import gen
    for ph in s.phases:
        out = []
        while ph:
            r, w = ph.pop(0)
            L = [w[1:]]
            while w[0] in ("put", "get", "getop", "del", "hist") and ph and ph[0][0] == r and ph[0][1][0] == w[0] and rng.random() < .8:
                L.append(ph.pop(0)[1][1:])
            if w[0] not in ("put", "get", "getop", "del", "hist") or (len(L) == 1 and rng.random() < .5):
                out += [(r, [w[0]] + x) for x in L]
                continue
            types = {gen.vtype(x[2]) if w[0] == "put" else int(x[2]) for x in L} if w[0] in ("put", "get", "getop") else set()
            how = ""
            if len(types) == 1:
                how = rng.choice(["", "s"] + ["t"] * (types <= {5, 6}))
            out.append((r, ["b" + w[0] + how, str(len(L))] + [x for a in L for x in a]))
        ph[:] = out
    return s


def held(s, rng):
    """keeps the results, and looks at them again when everything else is gone"""
    for ph in s.phases:
        out, kept = [], {}
        for r, w in ph:
            if w[0] == "close":
                out += [(x, ["recheck", k]) for x in kept for k in kept[x]]
            if w[0].startswith("flush") or w[0] == "sync":
                for x in range(s.size) if r == "*" else [int(r)]:
                    k = "k%d" % len(out)
                    kept.setdefault(x, []).append(k)
                    out.append((x, w + ["hold", k]))
                    if w[0] in ("flush", "sync") and rng.random() < .6:
                        out.append((x, ["free"]))   # nothing is queued any more
            else:
                out.append((r, w))
        out += [(x, ["recheck", k]) for x in kept for k in kept[x]]
        ph[:] = out
    return s


_next = {}
_count = {}


def following(plan, rng):
    """the next program of a plan"""
    P = programs(plan)[0]
    if plan not in _next:
        _next[plan] = rng.randrange(len(P))
    _next[plan] += 1
    _count[plan] = _count.get(plan, 0) + 1
    return P[(_next[plan] - 1) % len(P)].split(";")[:-1]


def scenario(plan, rng, id, single, multi, background=.15):
    """the next program of a plan, on a random configuration"""
    prog = following(plan, rng)
    nr, mem, kills, tracked = PLANS[plan][:4]
    backend = "mem" if mem and rng.random() < .6 else rng.choice(["level", "rocks"])
    if nr == 1:
        s = single(rng, id, "model-" + plan, backend=backend, ds=rng.choice([1, 1, 2]))
    else:
        s = multi(rng, id, "model-" + plan, size=nr, backend=backend, ratio=rng.choice([(1, 1), (2, 1), (1, 2)]), dsper=rng.choice([1, 2]))
    if rng.random() < background and not kills:
        s.opt("async", rng.choice([1, 2, 3]))
    return concrete(s, rng, prog, tracked)


def configurations(plan, rng, id, single, multi):
    """the next program of a plan, on several configurations"""
    prog = following(plan, rng)
    tracked, seed = PLANS[plan][3], rng.randrange(10**9)
    out = []
    for i, (backend, ds) in enumerate([("mem", 1), ("level", 1), ("rocks", 1), (rng.choice(["mem", "level", "rocks"]), rng.choice([2, 3, 5]))]):
        s = single(rng, "%s-%d" % (id, i), "model-" + plan, backend=backend, ds=ds)
        if i and rng.random() < .4:
            s.opt("async", rng.choice([1, 2, 3]))
        if rng.random() < .3:
            s.opt("maxops", rng.choice([1, 2, 3]))
        out.append(concrete(s, random.Random(seed), prog, tracked))
    return out
