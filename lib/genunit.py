"""Scenario generators for the parts checked by HxUnit.tla (and, where they execute
operations, by HxTrace.tla as well)."""
import math
import struct

from scn import *
import gen
from gen import HASHES, Pool, Prog, adversarial, multi, num_of, single, some_value

COMBOS = [(n, c, s, p) for n in range(1, 9) for c in range(1, 5) for s in range(1, 5) for p in range(1, 4)]


# ------------------------------------------------------------------ C10
def fam_c10ids(rng, id, deep=False):
    """all small layouts, shared out over the scenarios (24 of them cover everything), and some larger ones"""
    i = int(id.split("-")[-1])
    s = Scn(id, family="ids")
    for x in COMBOS[i % 24::24]:
        s.cmd(0, "ids", *x)
    for _ in range(4 if not deep else 10):
        s.cmd(0, "ids", rng.randrange(9, 30), rng.randrange(1, 9), rng.randrange(1, 9), rng.randrange(1, 5))
    return s


def fam_c10(rng, id, deep=False):
    k = rng.random()
    if k < .35:
        s = single(rng, id, "routing", ds=rng.choice([1, 2, 3, 5, 7]))
    else:
        s = multi(rng, id, "routing", size=rng.choice([1, 2, 3, 4, 5, 6]), dsper=rng.choice([1, 1, 2, 3]),
                  ratio=rng.choice(gen.RATIOS + [(3, 4), (5, 2), (4, 1), (5, 3)]))
    if s.total == 0:
        return fam_c10(rng, id, deep)
    s.often_warm = True
    k = rng.random()
    if k < .7:
        s.opt("hash", rng.choice(HASHES + ["RANK_MOD_DATASTORES", "DATASTORE_0"]))
    elif k < .9:
        s.opt("hashfn", rng.choice(["err", "minus", "err"]))
    pool = adversarial(rng, 8) + [b"\xee\x01", b"\xff" * 7, bytes(range(200, 213)), bytes(range(1, 30))]
    p = Pool(rng, 4, 4, rng.choice([[BYTE], [BYTE, INT32, DOUBLE, UINT64]]), pool)
    s.start()
    s.cmd("*", "info")
    for _ in range(3):
        a, b = p.S(), p.P()
        s.cmd("*", "hashes", a, b)
    s.cmd(rng.randrange(s.size), "hashes", "7:", p.P())
    s.cmd(rng.randrange(s.size), "hashes", p.S(), "7:%02x*%d" % (rng.randrange(256), rng.choice([11, 12, 13, 24, 25, 100])))
    for r in range(s.size):
        g = Prog(s, rng, p, r, [BYTE, INT64], masks=[1, 1, 3, 63], bulk=.4, counts=[1, 2], getops=[EQ, NEXT, PREV])
        g.run(rng.choice([3, 5]) if s.size > 1 else 12, {"put": 4, "get": 3, "getop": 1, "del": 1}, .3)
    s.cmd("*", "flush").cmd("*", "bar")
    s.cmd("*", "info")
    s.stop()
    return s


# ------------------------------------------------------------------ C16
def bits32(u): return val(FLOAT, struct.pack("<I", u & 0xffffffff))
def bits64(u): return val(DOUBLE, struct.pack("<Q", u & 0xffffffffffffffff))


def int_values(rng, t, n):
    bits = 32 if t in (INT32, UINT32) else 64
    sg = t in (INT32, INT64)
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
    out = {0, 1, lo, hi, hi - 1, lo + 1}
    while len(out) < n:
        k = rng.random()
        if k < .4:
            x = 10 ** rng.randrange(0, 20) + rng.choice([-1, 0, 1])
        elif k < .6:
            x = (1 << rng.randrange(0, bits)) + rng.choice([-1, 0, 1])
        elif k < .75 and out:
            x = rng.choice(sorted(out)) + rng.choice([-1, 1, 10, -10])
        else:
            x = rng.randrange(lo, hi + 1) >> rng.randrange(0, bits)
        if sg and rng.random() < .5:
            x = -x
        if lo <= x <= hi:
            out.add(x)
    f = {INT32: "<i", INT64: "<q", UINT32: "<I", UINT64: "<Q"}[t]
    L = [val(t, struct.pack(f, x)) for x in out]
    rng.shuffle(L)
    return L[:n]


def float_values(rng, t, n):
    out = []
    dbl = t == DOUBLE

    def add(x):
        if not dbl:
            try:
                x = struct.unpack("<f", struct.pack("<f", x))[0]
            except OverflowError:
                return
        if math.isfinite(x):
            b = struct.pack("<d" if dbl else "<f", x)
            if b not in out:
                out.append(b)
    emax = 308 if dbl else 38
    for x in rng.sample([0.0, -0.0, 1.0, -1.0, 0.1, 10.0, 9.999999, 0.5, -0.5, 2.0, 1e-9, 1e-10, 1e9, 1e10, -1e9, -1e10, 1e-1, 9.0, 99.0], 7):
        add(x)
    while len(out) < n:
        k = rng.random()
        if k < .3:
            x = float("%de%d" % (rng.choice([1, 2, 5, 9, 99, 11]), rng.choice([rng.randrange(-emax, emax), rng.randrange(-12, 13), 9, -9, 10, -10, 99, -99])))
            add(x if rng.random() < .5 else -x)
        elif k < .6 and out:       # neighbours
            b = rng.choice(out)
            u = int.from_bytes(b, "little")
            for d in rng.choice([(1,), (-1,), (1, 2), (64,), (1 << 10,), (1 << 20,)]):
                w = (u + d) & ((1 << (8 * len(b))) - 1)
                add(struct.unpack("<d" if dbl else "<f", w.to_bytes(len(b), "little"))[0])
        elif k < .7:
            x = struct.unpack("<d" if dbl else "<f", rng.randrange(1 << (64 if dbl else 32)).to_bytes(8 if dbl else 4, "little"))[0]
            add(x)
        elif k < .75:
            add(rng.choice([5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 4.9e-320] if dbl else
                           [1.401298464324817e-45, 1.1754943508222875e-38, 3.4028234663852886e38, -3.4028234663852886e38]))
        else:
            add(rng.uniform(-1, 1) * 10 ** rng.randrange(-15, 16))
    rng.shuffle(out)
    return [val(t, b) for b in out[:n]]


SYMS = [(47, 58), (47, 58), (47, 58), (33, 126), (45, 58), (47, 126), (46, 60)]


def fam_c16(rng, id, deep=False):
    s = Scn(id, family="numbers")
    for _ in range(1 if not deep else 3):
        t = rng.choice([INT32, INT64, UINT32, UINT64, FLOAT, DOUBLE, FLOAT, DOUBLE])
        neg, pos = rng.choice(SYMS)
        fp, dp = rng.choice([(8, 16), (8, 16), (8, 16), (7, 15), (9, 17), (3, 5), (6, 12), (4, 10), (12, 20)])
        n = 14
        v = int_values(rng, t, n) if t < FLOAT else float_values(rng, t, n)
        s.cmd(0, "elens", neg, pos, fp, dp, *v)
    return s


def fam_c16e(rng, id, deep=False):
    """ordered retrieval over numbers"""
    s = single(rng, id, "number-order", ds=1)
    t = rng.choice([INT32, INT64, UINT32, UINT64, FLOAT, DOUBLE])
    if rng.random() < .3:
        s.opt("xform", *rng.choice([(33, 126, 8, 16), (45, 58, 6, 12), (47, 58, 9, 17)]))
        s.often_warm = True
    nums = int_values(rng, t, 8) if t < FLOAT else float_values(rng, t, 8)
    other = num_of(rng, t)
    s.start()
    asub = rng.random() < .4
    for x in nums:
        s.cmd(0, "put", x if asub else "7:61", "7:62" if asub else x, rng.choice([some_value(rng, BYTE, [b"o", b"pp"]), x, num_of(rng, t)]), 1)
    s.cmd(0, "flush")
    for x in rng.sample(nums, 4) + [other]:
        s.cmd(0, "get", x if asub else "7:61", "7:62" if asub else x, BYTE)
        for g in rng.sample([EQ, NEXT, PREV, LOWEST, HIGHEST, FIRST, LAST], 3):
            s.cmd(0, "getop", x if asub else "7:61", ("7:62" if rng.random() < .5 else "7!0") if asub else (x if rng.random() < .7 else "%d!0" % t), rng.choice([BYTE, t]), rng.choice([1, 3, 20]), g)
        s.cmd(0, "flush")
    s.stop()
    return s


# ------------------------------------------------------------------ C17
ACC = ["op", "st", "rs", "subj", "pred", "obj", "hist", "ts", "histp", "size", "valid", "list"]


def fam_c17(rng, id, deep=False):
    m = rng.random() < .2
    s = (multi if m else single)(rng, id, "results", **({"size": 2} if m else {}))
    s.opt("track", "@h1").opt("track", "@h2").opt("firstn", 3).opt("genfn", "tens")
    p = Pool(rng, 2, 2, [BYTE, rng.choice([INT32, DOUBLE, BYTE])])
    p.p.append(by("h1"))
    s.cmd("*", "init")
    if not s.cpp and rng.random() < .3:
        s.cmd(0, "flush", "hold", "n0")         # results of a session that is not open
        null = True
    else:
        null = False
    s.cmd("*", "open")
    W = {"put": 4, "get": 3, "getop": 2, "del": 1, "hist": 2}
    lists = []
    g = Prog(s, rng, p, 0, [BYTE, DOUBLE], masks=[1, 1, 3], names=["@h1", "@h2", "@nope"], counts=[1, 2, 3])
    for k in range(rng.choice([1, 2, 3])):
        if rng.random() < .85:
            g.run(rng.choice([2, 4, 7]), W, 0)
            if rng.random() < .5:
                for x in (1.0, 12.0, 31.0):
                    s.cmd(0, "put", p.S(), by("h1"), f64(x), 1)
        s.cmd(0, rng.choice(["flush", "flush", "flush", "flushget", "flushhist"]) if m else rng.choice(["flush", "flush", "sync"]), "hold", "l%d" % k)
        lists.append("l%d" % k)
    if s.cpp and rng.random() < .4:
        s.cmd(0, "newres", "e")
        lists.append("e")
    names = lists + (["-"] if not s.cpp else []) + (["n0"] if null else [])
    fresh = {x: True for x in lists}
    for _ in range(rng.choice([20, 40]) if not deep else 100):
        x = rng.choice(names)
        k = rng.random()
        if s.cpp and k < .06 and len(lists) > 1:
            a, b = rng.sample(lists, 2)
            if rng.random() < .5:
                s.cmd(0, "append", a, b)
            else:
                s.cmd(0, "rlappend", a, b)
            s.cmd(0, "rl", a, "head").cmd(0, "rl", b, "head")
            continue
        if fresh.get(x):
            fresh[x] = False
            s.cmd(0, "rl", x, "head")
            continue
        if k < .15:
            s.cmd(0, "rl", x, "head")
        elif k < .5:
            s.cmd(0, "rl", x, "next")
        elif k < .55:
            for _ in range(12):
                s.cmd(0, "rl", x, "next")
        elif k < .7:
            for w in ACC:
                s.cmd(0, "rl", x, w, *(["null"] if rng.random() < .15 else []))
        else:
            s.cmd(0, "rl", x, rng.choice(ACC), *(["null"] if rng.random() < .15 else []))
        if rng.random() < .03:
            g.run(3, W, .5)
    for x in lists:         # walk every list to its end, twice
        for _ in range(rng.choice([1, 2])):
            s.cmd(0, "rl", x, "head")
            for _ in range(14):
                for w in rng.sample(ACC, 3):
                    s.cmd(0, "rl", x, w)
                s.cmd(0, "rl", x, "next")
    s.cmd("*", "bar").stop()
    if rng.random() < .3 and lists:
        s.cmd(0, "rl", lists[0], "head")
        for w in ACC:
            s.cmd(0, "rl", lists[0], w)
    return s


# ------------------------------------------------------------------ C20
def a_setting(rng, size, live):
    """an option setter call, right or wrong"""
    return rng.choice([
        lambda: ("client", rng.choice([0, 1, 1, 2, 3])), lambda: ("server", rng.choice([0, 1, 2])), lambda: ("dsper", rng.choice([0, 1, 2, 3])),
        lambda: ("hists", rng.randrange(2), rng.randrange(2)), lambda: ("openinit", rng.randrange(2)),
        lambda: ("name", rng.choice([".", "./db"]), rng.choice(["data", "other"]), *rng.choice([(), ("p",)])),
        lambda: ("mem",), lambda: ("level", 1), lambda: ("rocks", 1),
        lambda: ("hash", rng.choice(HASHES + ["DATASTORE_0", "RANK_MOD_DATASTORES", "NOPE", "sum_mod_datastores", "x"])),
        lambda: ("hashfn", rng.choice(["ssum", "psum", "minus", "unknown", "SUM", "arg0", "FNV"])),
        lambda: ("xform", rng.choice([47, 33]), rng.choice([58, 126]), rng.choice([6, 8]), rng.choice([12, 16])),
        lambda: ("xfn", rng.choice([1, 2, 5, 6, 7, 8]), rng.choice(["xor", "none", "fail"])),
        lambda: ("null",), lambda: ("mpi", rng.choice([1, 2])), lambda: ("ep", rng.choice(["all", 0, 1, 5, -1, -7])), lambda: ("epclear",),
        lambda: ("async", rng.choice([0, 1, 3])), lambda: ("maxops", rng.choice([0, 1, 2, 50])), lambda: ("maxsize", rng.choice([0, 1, 100, 2000000])),
        lambda: ("firstn", rng.choice([1, 5, 10])), lambda: ("gen", rng.choice(["10_BUCKETS", "RICE_RULE", "UNIFORM_LOG2", "UNIFORM_LOG10", "STURGES_FORMULA", "NOPE", "10_buckets"])),
        lambda: ("genfn", rng.choice(["tens", "tens3", "fail", "x"])), lambda: ("track", rng.choice(["@a", "@bb", "@h1"])),
        lambda: ("debug", rng.choice([0, 5, 100])), lambda: ("boot", *rng.choice([(), ("null",), ("null",)])),
    ])()


def misuse(rng, s, r, p):
    """calls whose arguments are wrong"""
    k = rng.randrange(5)
    if k == 0:
        s.cmd(r, "null", rng.choice(["ptr", "z"]))
    elif k == 1:
        s.cmd(r, "badargs")
    elif k == 2:
        v = rng.choice(["7!0", "7!3", "7:"])
        a = [p.S(), p.P(), by("o")]
        a[rng.randrange(3)] = v
        s.cmd(r, "put", *a, 1)
    elif k == 3:
        v = rng.choice(["7!0", "7!3", "7:"])
        a = [p.S(), p.P()]
        a[rng.randrange(2)] = v
        s.cmd(r, *rng.choice([("get", *a, BYTE), ("del", *a)]))
    else:
        s.cmd(r, "hist", rng.choice([-1, 99, 1 << 20]), "@h1")


def fam_c20(rng, id, deep=False):
    """any order of lifecycle calls, setters, operations (one rank)"""
    s = Scn(id, family="lifecycle", cpp=rng.random() < .5)
    p = Pool(rng, 2, 2)
    state = "none"
    s.wild = True
    n = rng.choice([15, 30]) if not deep else 80
    g = Prog(s, rng, p, 0, [BYTE, INT32], masks=[1, 3], names=["@a"])
    s.total = 1
    for _ in range(n):
        k = rng.random()
        if k < .14 and state in ("none", "closed"):
            s.cmd(0, "init", "raw")
            state = "init"
            for _ in range(rng.choice([0, 2, 5])):
                s.cmd(0, "set", *a_setting(rng, 1, False))
            # what follows can be opened, or there is nothing to open
            s.cmd(0, "set", rng.choice(["mem", "level", "rocks"]), rng.choice([1, 1, 1, 0]))
        elif k < .24:
            s.cmd(0, "open")
            if state == "init":
                state = "open"
        elif k < .27 and state != "init":
            s.cmd(0, "openone", "nosuchdatabase")
        elif k < .36:
            s.cmd(0, "close")
            state = "none" if state == "none" else "closed"
        elif k < .60:
            s.cmd(0, "set", *a_setting(rng, 1, state == "open"))
            if state == "init" and rng.random() < .3:
                s.cmd(0, "cfg")
        elif k < .75:
            g.op(rng.choice(["put", "get", "getop", "del"]))
        elif k < .82:
            s.cmd(0, rng.choice(["flush", "flushput", "flushget", "flushgetop", "flushdel", "flushhist", "sync"]))
        elif k < .9:
            misuse(rng, s, 0, p)
        elif k < .95:
            s.cmd(0, "cfg")
        else:
            s.cmd(0, "havehist", rng.choice(["@a", "@zz"]))
    s.cmd(0, "close")
    return s


def fam_c20s(rng, id, deep=False):
    """rejected calls around operations on open sessions (one or more ranks); opened, closed and opened again"""
    m = rng.random() < .3
    s = (multi if m else single)(rng, id, "rejected", **({"size": rng.choice([2, 3])} if m else {}))
    s.opt("track", "@h1").opt("firstn", 2).opt("genfn", "tens")
    p = Pool(rng, 2, 2)
    ops = {"put": 4, "get": 3, "getop": 1, "del": 2, "hist": 1}
    for r in range(s.size):
        if rng.random() < .3:
            s.cmd(r, "null", rng.choice(["ptr", "z"]))
        if rng.random() < .3:
            s.cmd(r, "open")
            s.want[(0, r, len([1 for q, w in s.phases[0] if q in (r, "*") and w[0] in ("init", "open", "close")]) - 1)] = False
    for cycle in range(rng.choice([1, 1, 2])):
        s.cmd("*", "init")
        for r in range(s.size):
            if rng.random() < .4:       # not open yet
                g = Prog(s, rng, p, r, [BYTE], names=["@h1"])
                g.op("put")
                misuse(rng, s, r, p)
                s.cmd(r, "flush").cmd(r, "info")
        s.cmd("*", "open").cmd("*", "bar")
        for r in range(s.size):
            g = Prog(s, rng, p, r, [BYTE, DOUBLE], masks=[1, 1, 3], names=["@h1"], counts=[1, 2])
            for _ in range(rng.choice([3, 6]) if not m else 2):
                g.run(rng.choice([1, 3]), ops, .3)
                for _ in range(rng.choice([1, 2])):
                    k = rng.random()
                    if k < .4:
                        s.cmd(r, "set", *a_setting(rng, s.size, True))
                    elif k < .8:
                        misuse(rng, s, r, p)
                    elif k < .9:
                        s.cmd(r, "open")
                        s.want[(0, r, len([1 for q, w in s.phases[0] if q in (r, "*") and w[0] in ("init", "open", "close")]) - 1)] = False
                    else:
                        s.cmd(r, "info").cmd(r, "cfg").cmd(r, "havehist", rng.choice(["@h1", "@h11", "@h"]))
            s.cmd(r, "flush")
        s.cmd("*", "bar")
        if rng.random() < .4:
            s.cmd("*", "cfg")
            for _ in range(rng.choice([1, 2])):
                if rng.random() < .6:
                    s.cmd("*", "chhash", rng.choice(["other", "data", "third one".replace(" ", "-")]), rng.choice(["SUM", "ZERO", "FNV", "ssum", "psum", "arg0"]))
                else:
                    s.cmd("*", "chname", rng.choice(["other", "data", "more"]), 1, rng.choice([0, 1]), 1)
                s.cmd("*", "cfg").cmd("*", "bar")
                for r in range(s.size):
                    Prog(s, rng, p, r, [BYTE], names=["@h1"]).run(1, ops, .3)
                s.cmd("*", "bar")
        s.cmd("*", "close")
        for r in range(s.size):
            if rng.random() < .5:
                s.cmd(r, "close")
                s.want[(0, r, len([1 for q, w in s.phases[0] if q in (r, "*") and w[0] in ("init", "open", "close")]) - 1)] = False
            if rng.random() < .5:
                g = Prog(s, rng, p, r, [BYTE], names=["@h1"])
                g.op("put")
                misuse(rng, s, r, p)
                s.cmd(r, "flush").cmd(r, "set", *a_setting(rng, s.size, True))
            if rng.random() < .2:
                s.cmd(r, "open")
                s.want[(0, r, len([1 for q, w in s.phases[0] if q in (r, "*") and w[0] in ("init", "open", "close")]) - 1)] = False
    return s


# ------------------------------------------------------------------ C19
NATS = ["0", "1", "2", "3", "7", "17", "100", "4096", "123456789012"]
BADNUM = ["-1", "-5", "abc", "1x", "3 4", "1.5", "", "999999999999999999999999", "x1"]
BOOLS = ["true", "false", "True", "FALSE", "tRuE"]
BADBOOL = ["1", "0", "yes", "no", "", "truex", "true false", "2"]


def opt_value(rng, k, bad):
    nat = lambda: rng.choice(NATS)
    T = {
        "DEBUG_LEVEL": (lambda: rng.choice(["EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING"]), ["critical", "", "9", "ERROR ERROR"]),
        "CLIENT_RATIO": (nat, BADNUM), "SERVER_RATIO": (nat, BADNUM), "DATASTORES_PER_SERVER": (nat, BADNUM),
        "DATASTORE_PREFIX": (lambda: rng.choice(["./db", "a/b", "/x/y", "with space/z"]), [""]),
        "DATASTORE_BASENAME": (lambda: rng.choice(["data", "x.y", "two words"]), [""]),
        "DATASTORE_POSTFIX": (lambda: rng.choice(["post", ".ext", "p q"]), [""]),
        "DATASTORE": (lambda: rng.choice(["IN_MEMORY", "LEVELDB", "ROCKSDB"]), ["leveldb", "", "LEVELDB2", "MEMORY"]),
        "LEVELDB_CREATE_IF_MISSING": (lambda: rng.choice(BOOLS), BADBOOL), "ROCKSDB_CREATE_IF_MISSING": (lambda: rng.choice(BOOLS), BADBOOL),
        "TRANSPORT": (lambda: rng.choice(["NULL", "MPI", "MPI"]), ["mpi", "", "TCP"]), "NUM_LISTENERS": (nat, BADNUM),
        "HASH": (lambda: rng.choice(HASHES + ["DATASTORE_0", "RANK_MOD_DATASTORES"]), ["NOPE", "", "sum"]),
        "ENDPOINT_GROUP": (lambda: rng.choice(["ALL", "0", "0 1", "2 1 0", "5", "1 1", "3   4"]), ["-1", "0 x", "all", "0 -2", "1,2"]),
        "START_ASYNC_PUTS_AT": (nat, BADNUM), "MAXIMUM_OPS_PER_REQUEST": (nat, BADNUM), "MAXIMUM_SIZE_PER_REQUEST": (nat, BADNUM),
        "HISTOGRAM_FIRST_N": (nat, BADNUM),
        "HISTOGRAM_BUCKET_GEN_NAME": (lambda: rng.choice(["10_BUCKETS", "SQUARE_ROOT_CHOICE", "STURGES_FORMULA", "RICE_RULE", "SCOTTS_NORMAL_REFERENCE_RULE", "UNIFORM_LOG2", "UNIFORM_LOG10"]), ["", "rice", "UNIFORM_LOG3"]),
        "HISTOGRAM_TRACK_PREDICATES": (lambda: rng.choice(["a", "a,b", "x y,z", "a,b,a", "one,two,three", "a,,b", "a,b,c,d,e", ",".join("p%d" % i for i in range(rng.choice([4, 12, 40])))]), ["a"]),
        "HISTOGRAM_READ_EXISTING": (lambda: rng.choice(BOOLS), BADBOOL), "HISTOGRAM_WRITE_AT_EXIT": (lambda: rng.choice(BOOLS), BADBOOL),
        "ELEN_NEG_SYMBOL": (lambda: rng.choice(["/", "-", "!", ".", ":"]), ["", "ab", "~"]), "ELEN_POS_SYMBOL": (lambda: rng.choice([":", "~", "<", "/", "."]), ["", "::", "!"]),
        "ELEN_ENCODE_FLOAT_PRECISION": (lambda: rng.choice(["3", "6", "8", "9", "12"]), BADNUM + ["40"]), "ELEN_ENCODE_DOUBLE_PRECISION": (lambda: rng.choice(["12", "16", "17"]), BADNUM + ["2"]),
    }
    good, wrong = T[k]
    return rng.choice(wrong) if bad else good()


KEYS = ["DEBUG_LEVEL", "CLIENT_RATIO", "SERVER_RATIO", "DATASTORES_PER_SERVER", "DATASTORE_PREFIX", "DATASTORE_BASENAME", "DATASTORE_POSTFIX", "DATASTORE",
        "LEVELDB_CREATE_IF_MISSING", "ROCKSDB_CREATE_IF_MISSING", "TRANSPORT", "NUM_LISTENERS", "HASH", "ENDPOINT_GROUP", "START_ASYNC_PUTS_AT",
        "MAXIMUM_OPS_PER_REQUEST", "MAXIMUM_SIZE_PER_REQUEST", "HISTOGRAM_FIRST_N", "HISTOGRAM_BUCKET_GEN_NAME", "HISTOGRAM_TRACK_PREDICATES",
        "HISTOGRAM_READ_EXISTING", "HISTOGRAM_WRITE_AT_EXIT", "ELEN_NEG_SYMBOL", "ELEN_POS_SYMBOL", "ELEN_ENCODE_FLOAT_PRECISION", "ELEN_ENCODE_DOUBLE_PRECISION"]


def fam_c19(rng, id, deep=False):
    s = Scn(id, size=rng.choice([1, 1, 1, 2, 3]), family="config", cpp=rng.random() < .5)
    dense = rng.choice([.03, .15, .15, .4, .9])
    badp = rng.choice([0, 0, .1, .4])
    keys = rng.sample(KEYS, rng.choice([1, 2, 3])) if rng.random() < .25 else KEYS
    if rng.random() < .12:      # options that only make sense together
        keys = rng.choice([KEYS[-4:], KEYS[-4:-2], KEYS[-2:], KEYS[10:13], KEYS[7:10]])
    if len(keys) < 5:
        dense = .8

    def text():
        L = []
        for k in keys:
            if rng.random() < dense:
                for _ in range(rng.choice([1, 1, 1, 2])):
                    L.append((k, opt_value(rng, k, rng.random() < badp)))
        rng.shuffle(L)
        o = []
        for k, v in L:
            if rng.random() < .1:
                o.append(rng.choice(["# comment", "#" + k + " 5", "", "   ", "UNKNOWN_KEY value", "\t# x"]))
            o.append(rng.choice(["", "", " ", "\t"]) + k + rng.choice([" ", "  ", "\t", " \t "]) + v + rng.choice(["", "", " ", "\t ", "\r"]))
        return "\n".join(o) + rng.choice(["\n", ""])
    if rng.random() < .8:
        s.files.append(("hxhim.conf", text()))
    k = rng.random()
    if k < .6:
        s.files.append(("second.conf", text()))
        s.env.append(("HXHIM_CONFIG", "second.conf"))
    elif k < .7:
        s.env.append(("HXHIM_CONFIG", "missing.conf"))
    elif k < .75:
        s.files.append(("second.conf", text()))         # exists, but is not named
    for k in keys:
        if rng.random() < dense * .6:
            v = opt_value(rng, k, rng.random() < badp)
            s.env.append(("HXHIM_" + k, v))
        elif rng.random() < .02:
            s.env.append((k, opt_value(rng, k, False)))    # without the prefix: not a setting
    s.cmd("*", "init", "raw")
    if rng.random() < .3:
        for _ in range(3):
            s.cmd(0, "set", *a_setting(rng, s.size, False))
    s.cmd("*", "cfg")
    s.cmd("*", "close")
    return s


# ------------------------------------------------------------------ C15
def fam_c15(rng, id, deep=False):
    """messages of all kinds, built in all ways"""
    s = Scn(id, family="messages")
    pool = adversarial(rng, 8)
    def data():
        k = rng.random()
        if k < .08:
            return "%d:" % rng.randrange(1, 9)
        if k < .13:
            return "%d!0" % rng.randrange(1, 9)
        if k < .2:
            return "%d:%s*%d" % (rng.randrange(1, 9), "%02x" % rng.randrange(256), rng.choice([41, 100, 255, 256, 257, 1000, 65535, 65536, 70000]))
        return "7:" + rng.choice(pool).hex() if k < .5 else some_value(rng)
    def status():
        return rng.choice([1, 1, 1, 2, 2, 3, 0, -1])
    counts = [0, 1, 1, 2, 3, 5, 9] + ([40, 200] if deep else [])
    for _ in range(6):
        k = rng.choice(["put", "get", "getop", "del", "hist"])
        req = rng.random() < .45
        n = rng.choice(counts)
        E = []
        for _ in range(n):
            if k == "hist":
                if req:
                    e = ["7:" + rng.choice(["", "61", "00", "6100", "ff" * 30, "61" * 300])]
                else:
                    first = rng.choice([0, 1, 2, 3, 10]) if rng.random() < .9 else 1000
                    m = rng.choice([0, 1, 2, 3, 5, 11, 40])
                    e = [rng.choice([1, 1, 1, 2]), rng.choice(["", "61", "6100", "ff" * 30]) or "-", first] + [rng.choice([0, 1, 9.99, 10, 15, 29.5, 30, -3, 1e300, 0.1]) for _ in range(m)]
            elif k == "getop" and not req:
                st = status()
                e = [st] + [data() for _ in range(3 * rng.choice([0, 1, 1, 2, 4, 8]))]
            else:
                e = [data(), data()]
                if k == "put" and req:
                    e.append(data())
                if k == "get":
                    e.append(rng.randrange(1, 9) if req else data())
                if k == "getop":
                    e += [rng.randrange(1, 9), rng.choice([0, 1, 2, 10, 255, 256, 65536, 2000000000]), rng.randrange(7)]
                if not req:
                    e.append(status())
            E.append(e)
        src, dst = rng.choice([0, 1, 2, 127, 128, 255, 256, 65536, 2147483647]), rng.choice([0, 1, 3, 300, 70000, 2147483646])
        hows = ["add"] if req else ["add", "steal", "steal2"] + (["late"] if k == "getop" else [])
        rng.shuffle(hows)
        for how in hows:
            w = ["wire", "req" if req else "resp", k, how, src, dst, rng.choice([0, 0, 1, 5])]
            for e in E:
                w += [";"] + e
            s.cmd(0, *w)
    return s


def make(fam, seed, n, deep=False):
    f = globals()["fam_" + fam]
    return [f(random.Random("%s-%d-%d" % (fam, seed, i)), "%s-%d-%d" % (fam, seed, i), deep) for i in range(n)]
