"""Random scenario generators. Everything derives from the seed; what a scenario
should produce is decided by the specification, never here."""
import itertools
import random
import struct

import behav
import ids
from scn import *

HASHES = ["SUM_MOD_DATASTORES", "UTHASH_BER", "UTHASH_SAX", "UTHASH_FNV", "UTHASH_OAT", "UTHASH_JEN", "UTHASH_SFH"]
BACKENDS = ["mem", "level", "rocks"]


# ------------------------------------------------------------------ values
def adversarial(rng, n):
    """byte strings that share prefixes, concatenations, terminators and lengths"""
    alpha = rng.choice([b"\x00\x01\xff", b"ab", b"\xff\xfe\x00", b"a\xff0", b":/09", b"\x07\x00\xff", b"0123:/-", b"\x01\x02\x00\x07"])
    out = set()
    while len(out) < n:
        out.add(bytes(rng.choice(alpha) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6, 8]))))
        if out and rng.random() < .5:
            x = rng.choice(sorted(out))
            out.add((x + bytes([rng.choice(alpha)]))[:12])
    return sorted(out)[:n] if rng.random() < .3 else rng.sample(sorted(out), n)


INTS = [0, 1, -1, 2, 9, 10, 11, -9, -10, -11, 99, 100, 101, -99, -100, 127, 128, 255, 256, 999999999, 1000000000, -999999999, -1000000000,
        2147483647, -2147483648, 2147483646, -2147483647]
FLOATS = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 0.25, 10.0, -10.0, 9.0, 99.0, 100.0, 1e5, -1e5, 0.125, 3.0, 7.0, 42.0, 1e-3, 12345.0, 0.015625, 1e9, 1e10, 1e-9, 1e-10, -1e-9]


def num_of(rng, t, small=False):
    if t in (INT32, UINT32, INT64, UINT64):
        x = rng.choice(INTS[:17] if small else INTS) if rng.random() < .7 else rng.randrange(-2**31, 2**31)
        if t in (INT64, UINT64) and not small and rng.random() < .3:
            x = rng.choice([2**63 - 1, -2**63, 2**62, -2**62, 10**18, -10**18, 10**10, -10**10, rng.randrange(-2**63, 2**63)])
        f = {INT32: "<i", INT64: "<q", UINT32: "<I", UINT64: "<Q"}[t]
        bits = 32 if t in (INT32, UINT32) else 64
        if t in (UINT32, UINT64):
            x &= (1 << bits) - 1
        return val(t, struct.pack(f, x))
    x = rng.choice(FLOATS) if rng.random() < .8 else rng.uniform(-1000, 1000)
    return f32(x) if t == FLOAT else f64(x)


def some_value(rng, t=None, pool=None, small=False):
    if t is None:
        t = rng.choice([BYTE] * 6 + [INT32, INT64, UINT32, UINT64, FLOAT, DOUBLE, POINTER])
    if t in (BYTE, POINTER):
        return val(t, rng.choice(pool) if pool else bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9))))
    return num_of(rng, t, small)


class Pool:
    """a few subjects and predicates, so that operations meet"""
    def __init__(self, rng, ns=4, np=4, types=None, pool=None, small=True, long=False):
        b = pool or adversarial(rng, 8)
        types = types or [BYTE]

        def v():
            if long and rng.random() < .25:
                n = rng.choice([41, 64, 100, 255, 256, 257, 1000, 5000])
                return "%d:%s*%d" % (BYTE, bytes([rng.choice(b"abc")]).hex(), n)
            return some_value(rng, rng.choice(types), b, small)

        def uniq(n):
            o = []
            for _ in range(200):
                x = v()
                if x not in o:
                    o.append(x)
                if len(o) == n:
                    break
            return o
        self.s, self.p = uniq(ns), uniq(np)
        if rng.random() < .5:
            self.p = self.p[:-1] + [rng.choice(self.s)]
        self.rng = rng

    def S(self): return self.rng.choice(self.s)
    def P(self): return self.rng.choice(self.p)


def vtype(v): return int(v.split(":")[0].split("!")[0])


# ------------------------------------------------------------------ configurations
def storage(s, rng, backend=None):
    b = backend or rng.choice(BACKENDS)
    s.backend = b
    if b == "mem":
        s.opt("mem")
    else:
        s.opt(b, 1)
    return s


def single(rng, id, family, backend=None, ds=None, tune=True, **kw):
    """one rank, no transport"""
    s = Scn(id, cpp=rng.random() < .5, family=family, **kw)
    s.opt("null")
    s.opt("client", 1).opt("server", 1)
    storage(s, rng, backend)
    n = ds if ds is not None else rng.choice([1, 1, 2, 3] * 8 + [12])
    s.total = n
    if n > 1:
        s.opt("dsper", n)
        s.opt("hash", rng.choice(HASHES)) if rng.random() < .7 else s.opt("hashfn", rng.choice(["ssum", "psum"]))
    if tune and rng.random() < .6:
        s.opt("maxops", rng.choice([1, 2, 3, 5]))
    if tune and rng.random() < .3:
        s.opt("maxsize", rng.choice([1, 50, 100, 200, 400]))
    return s


RATIOS = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 2), (3, 1), (4, 2)]


def multi(rng, id, family, size=None, backend=None, tune=True, dsper=None, ratio=None, **kw):
    """several ranks over the simulated MPI"""
    size = size or rng.choice([2, 2, 3, 3, 4])
    s = Scn(id, size=size, seed=rng.randrange(1, 10**9), delay=rng.choice([0, 5, 20, 50]), rdv=rng.choice([0, 0, 30, 100, 1 << 20]), yield_=rng.choice([0, 10, 50]), cpp=rng.random() < .5, family=family, **kw)
    s.opt("mpi", rng.choice([1, 1, 2, 3])).opt("ep", "all")
    c, v = ratio or rng.choice(RATIOS)
    s.opt("client", c).opt("server", v)
    storage(s, rng, backend)
    n = dsper or rng.choice([1, 1, 2])
    s.opt("dsper", n)
    s.total = ids.ds_count(size, c, v, n)
    if rng.random() < .8:
        s.opt("hash", rng.choice(HASHES)) if rng.random() < .6 else s.opt("hashfn", rng.choice(["ssum", "psum"]))
    if tune and rng.random() < .6:
        s.opt("maxops", rng.choice([1, 2, 3, 5]))
    if tune and rng.random() < .3:
        s.opt("maxsize", rng.choice([1, 100, 200, 400]))
    if rng.random() < .3:
        s.perturb = rng.choice([5, 20])
    return s


# ------------------------------------------------------------------ programs
FLUSHES = {"put": "flushput", "get": "flushget", "getop": "flushgetop", "del": "flushdel", "hist": "flushhist"}


class Prog:
    """writes random operations of one rank"""
    def __init__(self, s, rng, pool, rank=0, otypes=None, obytes=None, masks=None, getops=None, counts=None, names=(), bulk=.25, longobj=False, zero_n=True):
        self.s, self.rng, self.pool, self.r = s, rng, pool, rank
        self.otypes = otypes or [BYTE, BYTE, INT32, INT64, UINT64, DOUBLE, FLOAT]
        self.obytes = obytes or adversarial(rng, 6)
        self.masks = masks or [1]
        self.getops = getops or [EQ, NEXT, PREV, FIRST, LAST, LOWEST, HIGHEST]
        self.counts = counts or [1, 2, 3, 10]
        self.names, self.bulk, self.longobj = names, bulk, longobj
        self.hold = 0
        self.recent = []
        self.lastput = None
        self.longp = .3
        # long values are recorded in short, which does not keep their order: no ordered retrieval among them
        self.noorder = any("*" in x for x in pool.s + pool.p) or longobj and any(m != 1 for m in self.masks)

    def obj(self):
        if self.longobj and self.rng.random() < self.longp:
            return "%d:%s*%d" % (BYTE, bytes([self.rng.randrange(256)]).hex(), self.rng.choice([41, 60, 100, 250, 1000, 20000, 41, 60, 100, 65530, 66000, 140000, 41, 250]))
        v = None
        if self.recent and self.rng.random() < .2:      # the same bytes, perhaps as another type
            o = self.rng.choice(self.recent[-3:])
            h = o.split(":", 1)[1]
            ts = [t for t in self.otypes if t in (BYTE, POINTER) or t in (INT32, UINT32) and len(h) == 8 or t in (INT64, UINT64) and len(h) == 16]
            if ts:
                v = "%d:%s" % (self.rng.choice(ts), h)
        if v is None:
            v = some_value(self.rng, self.rng.choice(self.otypes), self.obytes)
        if ":" in v and "*" not in v and "!" not in v:
            self.recent.append(v)
        return v

    def args(self, k):
        R, P = self.rng, self.pool
        if k == "put":
            a = [P.S(), P.P(), self.obj(), R.choice(self.masks)]
            if self.lastput and R.random() < .15:       # overwrite a record by something similar
                a[:2] = self.lastput[:2]
                a[3] = self.lastput[3]
                o = self.lastput[2]
                if ":" in o and "*" not in o and R.random() < .8:
                    t, b = vtype(o), bytes.fromhex(o.split(":", 1)[1])
                    kind = R.randrange(4)
                    if kind < 2:
                        ts = [x for x in self.otypes if x in (BYTE, POINTER) or x in (INT32, UINT32) and len(b) == 4 or x in (INT64, UINT64) and len(b) == 8]
                        t = R.choice(ts or [t])
                        if t in (BYTE, POINTER) and vtype(o) in (FLOAT, DOUBLE): t = vtype(o)
                    elif t in (BYTE, POINTER):
                        b = b + bytes([R.randrange(256)]) if kind == 2 else b[:-1] + bytes([b[-1] ^ 1])
                    a[2] = val(t, b)
            self.lastput = a
            return list(a)
        if k == "get": return [P.S(), P.P(), R.choice(self.otypes)]
        if k == "del": return [P.S(), P.P()]
        if k == "getop":
            g = R.choice(self.getops)
            p = P.P()
            if R.random() < .3:     # without a predicate
                p = "%d!0" % vtype(p)
            return [P.S(), p, R.choice(self.otypes), R.choice(self.counts), g]
        if k == "hist": return [R.randrange(self.s.total), R.choice(self.names)]

    def op(self, k, single=False):
        R = self.rng
        if k == "getop" and self.noorder:
            k = "get"
        if not single and R.random() < self.bulk:
            n = R.choice([1, 2, 3, 5])
            L = [self.args(k) for _ in range(n)]
            how = R.choice(["b", "b", "bs", "bt"]) if k in ("put", "get", "getop") else "b"
            if how in ("bs", "bt"):
                if k == "put":
                    t = R.choice(self.otypes) if how == "bs" else R.choice([FLOAT, DOUBLE])
                    for a in L:
                        a[2] = some_value(R, t, self.obytes)
                else:
                    t = R.choice(self.otypes) if how == "bs" else R.choice([FLOAT, DOUBLE])
                    for a in L:
                        a[2] = t
            self.s.cmd(self.r, "b" + k + how[1:], n, *[x for a in L for x in a])
        else:
            a = self.args(k)
            t = vtype(a[2]) if k == "put" else a[2] if k in ("get", "getop") else 0
            self.s.cmd(self.r, k + ("t" if t in (FLOAT, DOUBLE) and R.random() < .5 else ""), *a)

    def flush(self, kinds=None, hold=False):
        R = self.rng
        f = R.choice(kinds or ["flush"])
        if hold and R.random() < .5:
            self.hold += 1
            self.s.cmd(self.r, f, "hold", "h%d" % self.hold)
        else:
            self.s.cmd(self.r, f)

    def run(self, n, weights, flush=.25, kinds=None, hold=False):
        ks = list(weights)
        for _ in range(n):
            self.op(self.rng.choices(ks, [weights[k] for k in ks])[0])
            if self.rng.random() < flush:
                self.flush(kinds, hold)
        return self


def reads(p, s, rng, rank=0):
    """read every pair of the pool at the end"""
    for a in p.s:
        for b in p.p:
            s.cmd(rank, "get", a, b, BYTE)
    s.cmd(rank, "flush")


# ------------------------------------------------------------------ families
def fam_c01(rng, id, deep=False):
    multi_rank = rng.random() < .2
    s = (multi if multi_rank else single)(rng, id, "read-last-write")
    types = rng.choice([[BYTE], [BYTE], [BYTE, POINTER], [INT32, UINT32], [INT64, UINT64], [FLOAT, DOUBLE], [BYTE, INT32, INT64, UINT32, UINT64, FLOAT, DOUBLE, POINTER]])
    p = Pool(rng, rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3]), types, small=False, long=rng.random() < .3)
    s.start()
    if not multi_rank:
        g = Prog(s, rng, p, 0, [BYTE, BYTE, INT32, INT64, UINT32, UINT64, FLOAT, DOUBLE, POINTER], masks=[1] * 3 + [3, 63], longobj=True)
        g.run(rng.choice([15, 30, 60] if not deep else [60, 120]), {"put": 5, "get": 4, "del": 2}, .3)
        reads(p, s, rng)
    else:
        for r in range(s.size):
            g = Prog(s, rng, p, r, [BYTE, INT64, DOUBLE], masks=[1], longobj=True)
            g.run(rng.choice([4, 8]), {"put": 5, "get": 4, "del": 2}, .3)
        s.cmd("*", "flush").cmd("*", "bar")
        reads(p, s, rng, 0)
        s.cmd("*", "bar")
    s.stop()
    return s


def fam_c02(rng, id, deep=False):
    s = single(rng, id, "key-injectivity", tune=False, ds=1)
    kind = rng.randrange(5)
    types = [BYTE]
    if kind == 0:       # one concatenation, every split
        w = bytes(rng.choice(b"\x00a\xff:0") for _ in range(rng.choice([3, 4, 5])))
        pairs = [(by(w[:i]), by(w[i:])) for i in range(1, len(w))]
    elif kind == 1:     # same bytes, different types
        b = bytes(rng.choice(b"\x00\x01\x80\xff") for _ in range(rng.choice([4, 8])))
        ts = [BYTE, POINTER] + ([INT32, UINT32] if len(b) == 4 else [INT64, UINT64])
        pairs = [(val(t, b), val(u, b)) for t in ts for u in ts]
        rng.shuffle(pairs)
        pairs = pairs[:8]
    elif kind == 2:     # bytes that look like encoded keys
        a = bytes(rng.choice(b"ab") for _ in range(2))
        mid = b"\xff" + struct.pack("<QQ", len(a), 1) + bytes([BYTE, BYTE])
        cand = [a, a + b"\xff", a + b"c" + mid, mid, b"\xff", a + b"c", b"c" + mid, b"c"]
        pairs = [(by(x), by(y)) for x in cand for y in cand if len(x + y) < 38]
        pairs = rng.sample(pairs, 9)
    elif kind == 3:     # lengths that only differ in a later byte of the length
        n = rng.choice([1, 2, 3])
        d = rng.choice([256, 256, 256, 65536])
        pairs = [("%d:61*%d" % (BYTE, i), "%d:61*%d" % (BYTE, j)) for i in ((n, n + d, d) if d < 65536 else (n, n + d)) for j in (n, n + d) if i + j < 2 * d]
        pairs += [("%d:61*%d" % (BYTE, n + d - i), "%d:61*%d" % (BYTE, n + i)) for i in rng.sample([0, 1, d // 2, d], 2) if 0 < n + d - i]
    else:
        p = adversarial(rng, 7)
        pairs = [(by(rng.choice(p)), by(rng.choice(p))) for _ in range(10)]
        # numbers that look like text and text that looks like stored numbers
        for t in rng.sample([INT32, INT64, UINT32, UINT64], 2):
            x = num_of(rng, t, True)
            pairs.append((x, by(b"a")))
        pairs += [(by(b":1"), by(b"a")), (by(b"0"), by(b"a")), (by(b"/8"), by(b"a")), (by(b"::210"), by(b"a"))]
    pairs = list(dict.fromkeys(pairs))
    s.start()
    order = [rng.choice(pairs) for _ in range(2 * len(pairs))]
    for n, (a, b) in enumerate(order):
        s.cmd(0, rng.choice(["put", "put", "del"]), *([a, b]))
        if s.phases[0][-1][1][0] == "put":
            s.phases[0][-1][1].extend([by(b"v%d" % n), "1"])
        if rng.random() < .5:
            s.cmd(0, "flush")
            for x, y in rng.sample(pairs, min(3, len(pairs))):
                s.cmd(0, "get", x, y, BYTE)
    s.cmd(0, "flush")
    for x, y in pairs:
        s.cmd(0, "get", x, y, BYTE)
    s.cmd(0, "flush")
    s.stop()
    return s


def fam_c03(rng, id, deep=False):
    s = single(rng, id, "permutations")
    s.start()
    b = adversarial(rng, 6)
    vals = []
    for t in [BYTE, BYTE, BYTE, rng.choice([INT32, UINT64, DOUBLE, FLOAT, POINTER, INT64, UINT32])]:
        vals.append(some_value(rng, t, b, True))
    vals = list(dict.fromkeys(vals))
    p = Pool(rng, 1, 1)
    p.s, p.p = vals, vals
    for _ in range(3 if not deep else 8):
        n = rng.choice([1, 1, 2, 4])
        L = [[rng.choice(vals), rng.choice(vals), rng.choice(vals), rng.choice([1 << rng.randrange(6), rng.randrange(64), rng.randrange(64), 63, 0])] for _ in range(n)]
        if rng.random() < .4:
            s.cmd(0, "bput", n, *[x for a in L for x in a])
        elif rng.random() < .2:
            t = vtype(vals[0])
            L = [[a[0], a[1], vals[0], a[3]] for a in L]
            s.cmd(0, "bputs", n, *[x for a in L for x in a])
        else:
            for a in L:
                s.cmd(0, "put" + ("t" if vtype(a[2]) in (FLOAT, DOUBLE) and rng.random() < .5 else ""), *a)
        s.cmd(0, rng.choice(["flush", "flushput"]))
        for x in vals:
            for y in vals:
                s.cmd(0, "get", x, y, BYTE)
        s.cmd(0, "flush")
        if rng.random() < .5:
            for x in vals:
                for y in vals:
                    if rng.random() < .5:
                        s.cmd(0, "del", x, y)
            s.cmd(0, "flush")
    s.stop()
    return s


def fam_cstart(rng, id, deep=False):
    """background PUTs start by themselves"""
    m = rng.random() < .3
    s = (multi if m else single)(rng, id, "background-start", timeout=70)
    at = rng.choice([1, 2, 3, 5, 8])
    s.opt("async", at)
    s.perturb = rng.choice([0, 10, 30])
    s.start()
    n = 0
    for _ in range(rng.choice([1, 2, 3])):
        r = rng.randrange(s.size)
        first, k = None, 0
        goal = at + rng.choice([0, 0, 1, 3])
        while k < goal:
            u = rng.random()
            c = 1 if u < .6 else rng.choice([1, 2, 4])
            b = []
            for _ in range(c):
                n += 1
                t = DOUBLE if u < .2 else BYTE
                a = [by("s%d" % n), by("p"), f64(n) if t == DOUBLE else by("v%d" % n), rng.choice([1, 1, 1, 3, 63]) if first else rng.choice([1, 3])]
                first = first or (a[0], a[1], t)
                k += bin(a[3]).count("1")
                b.append(a)
            if u < .1: s.cmd(r, "putt", *b[0])
            elif u < .2: s.cmd(r, rng.choice(["bputt", "bputs"]), len(b), *[y for a in b for y in a])
            elif u < .6: s.cmd(r, "put", *b[0])
            else: s.cmd(r, "bput", len(b), *[y for a in b for y in a])
        s.cmd(r, "await", *first)
        if rng.random() < .7:
            s.cmd(r, "get", *first).cmd(r, rng.choice(["flush", "flushget"]))
        s.cmd(r, rng.choice(["flush", "flushput"]))
    s.cmd("*", "bar").stop()
    return s


def crowd(rng, id, family, m=False, n=None, masks=(1,), async_=False):
    """many operations and records at once: sizes the other scenarios never reach"""
    s = (multi if m else single)(rng, id, family, tune=False)
    if not m:
        s.opt("maxops", rng.choice([7, 64, 128, 256, 300, 1000]))
    if async_:
        s.opt("async", rng.choice([1, 50, 129, 200, 1000]))
    n = n or rng.choice([130, 257, 300])
    k = rng.choice([1, 3, 17])
    S = [by(b"s%02d" % i) for i in range(k)]
    P = [by(b"%03d" % i) for i in range((n + k - 1) // k)]
    pairs = [(a, b) for a in S for b in P]
    rng.shuffle(pairs)
    pairs = pairs[:n]
    s.start()
    r = rng.randrange(s.size)
    O = [by(b"o%d" % i) for i in range(9)]

    def send(kind, L, extra):
        i = 0
        while i < len(L):
            j = i + rng.choice([1, 10, 100, 256, 400])
            part = L[i:j]
            s.cmd(r, "b" + kind, len(part), *[y for x in part for y in list(x) + extra(x)])
            i = j
    send("put", pairs, lambda x: [rng.choice(O), rng.choice(masks)])
    s.cmd(r, rng.choice(["flush", "flushput"]))
    send("get", rng.sample(pairs, len(pairs)), lambda x: [BYTE])
    s.cmd(r, rng.choice(["flush", "flushget"]))
    for g in rng.sample([NEXT, PREV, FIRST, LAST, LOWEST, HIGHEST], 3):
        a, b = rng.choice(pairs)
        s.cmd(r, "getop", a, rng.choice([b, "%d!0" % BYTE]), BYTE, rng.choice([100, 255, 256, 257, 1000, 65536, 10**6]), g)
    s.cmd(r, rng.choice(["flush", "flushgetop"]))
    gone = rng.sample(pairs, len(pairs) - rng.choice([0, 1, 5]))
    send("del", gone, lambda x: [])
    s.cmd(r, rng.choice(["flush", "flushdel"]))
    s.cmd(r, "getop", pairs[0][0], pairs[0][1], BYTE, 1000, FIRST)
    s.cmd(r, "flush")
    s.cmd("*", "bar").stop()
    return s


def fam_crowd(rng, id, deep=False):
    return crowd(rng, id, "crowd", rng.random() < .5)


def fam_crush(rng, id, deep=False):
    """requests that arrive at a datastore while it is still busy with others"""
    s = multi(rng, id, "contention", size=rng.choice([3, 4]), backend=rng.choice(["mem", "mem", "mem", "level", "rocks"]), dsper=1, tune=False)
    s.opt("mpi", rng.choice([2, 3, 4]))
    s.opt("hash", "DATASTORE_0").opt("xfn", BYTE, "xor")
    s.perturb = rng.choice([30, 50, 70])
    p = Pool(rng, 1, 2, [BYTE])
    s.start()
    for r in range(s.size):
        g = Prog(s, rng, p, r, [BYTE], obytes=[b"%d-%d" % (r, i) for i in range(3)] + [b"%d" % r * 30], counts=[1, 2], bulk=0)
        for _ in range(rng.choice([3, 5])):
            g.run(rng.choice([1, 2]), {"put": 5, "get": 4, "getop": 2, "del": 3}, 0)
            s.cmd(r, "flush")
    s.cmd("*", "bar")
    reads(p, s, rng, 0)
    s.cmd("*", "bar").stop()
    return s


def fam_casync(rng, id, deep=False):
    return crowd(rng, id, "crowd-async", rng.random() < .3, async_=True)


def corner_keys(rng, n):
    """byte strings next to each other in every order"""
    a, b = rng.choice([(0, 1), (0, 255), (254, 255), (97, 98), (47, 58), (0, 97), (127, 128), (97, 255)])
    L = [bytes(x) for k in (1, 2, 3) for x in itertools.product((a, b), repeat=k)]
    return rng.sample(L[:6], min(6, n)) + rng.sample(L[6:], max(0, n - 6)) if rng.random() < .7 else rng.sample(L, n)


def fam_cwalk(rng, id, deep=False):
    """contents change by one record at a time, and every ordered retrieval is asked of each of them"""
    s = single(rng, id, "walks", ds=1, tune=rng.random() < .3)
    kind = rng.randrange(3)
    if kind == 0:
        V = [by(x) for x in corner_keys(rng, 5)]
        S, P = V[:rng.choice([3, 4])], rng.sample(V, 3)
    elif kind == 1:
        t = rng.choice([INT32, INT64, UINT32, UINT64, FLOAT, DOUBLE])
        S = [by(x) for x in corner_keys(rng, 2)]
        P = []
        while len(P) < 5:
            x = num_of(rng, t, True)
            if x not in P: P.append(x)
        P[0] = by(rng.choice([b"0", b"-", b":", b"\x00", b"\xff"]))
    else:
        x = rng.choice(corner_keys(rng, 1))
        S = [val(BYTE, x), val(POINTER, x), val(BYTE, x + b"\x00")]
        P = [val(POINTER, x), val(BYTE, x), num_of(rng, rng.choice([INT32, DOUBLE]), True)]
    keys = [(a, b) for a in S for b in P]
    rng.shuffle(keys)
    keys = keys[:rng.choice([5, 7, 9])]
    s.start()
    live = set(rng.sample(keys, rng.choice([0, 1, len(keys) - 1, len(keys)])))
    for a, b in sorted(live):
        s.cmd(0, "put", a, b, val(BYTE, b"%d" % keys.index((a, b))), 1)
    starts = [(a, b) for a in S for b in P + ["%d!0" % BYTE]]
    for _ in range(3 if not deep else 6):
        s.cmd(0, "flush")
        q = [(a, b, g) for a, b in starts for g in range(7)] + [starts[0] + (7,)]
        rng.shuffle(q)
        for a, b, g in q[:100]:
            s.cmd(0, "getop", a, b, BYTE, rng.choice([1, 2, 3, len(live), len(keys) + 1]), g)
        s.cmd(0, "flush")
        a, b = k = rng.choice(keys)
        if k in live:
            live.remove(k)
            s.cmd(0, "del", a, b)
        else:
            live.add(k)
            s.cmd(0, "put", a, b, val(BYTE, b"%d" % keys.index(k)), 1)
    s.cmd(0, "flush")
    s.stop()
    return s


def fam_cpairs(rng, id, deep=False):
    """every way to divide every short string into subject and predicate"""
    s = single(rng, id, "pairs", ds=rng.choice([1, 1, 3]), tune=rng.random() < .2)
    A = rng.choice([(0, 255), (0, 1), (1, 2), (97, 98), (8, 0), (47, 58), (254, 255)])
    n = 3 if rng.random() < .5 else 4
    words = [bytes(x) for k in range(2, n + 1) for x in itertools.product(A, repeat=k)]
    ts = rng.choice([[BYTE], [BYTE, POINTER], [POINTER]])
    pairs = [(val(rng.choice(ts), w[:i]), val(rng.choice(ts), w[i:])) for w in words for i in range(1, len(w))]
    rng.shuffle(pairs)
    pairs = list(dict.fromkeys(pairs))[:70]
    s.start()
    for i, (a, b) in enumerate(pairs):
        s.cmd(0, "put", a, b, val(BYTE, b"%d" % i), 1)
    s.cmd(0, "flush")
    for gone in range(2):
        for a, b in pairs:
            s.cmd(0, "get", a, b, BYTE)
        s.cmd(0, "flush")
        for a, b in rng.sample(pairs, len(pairs) // 2) if not gone else []:
            s.cmd(0, "del", a, b)
        s.cmd(0, "flush")
    s.stop()
    return s


def fam_cmasks(rng, id, deep=False):
    """one record after the other, stored with every choice of permutations"""
    s = single(rng, id, "masks", ds=rng.choice([1, 1, 2]), tune=rng.random() < .3)
    b = adversarial(rng, 6)
    v = [some_value(rng, None, b, True) for _ in range(3)]
    k = rng.randrange(8)
    if k == 0: v[1] = v[0]
    if k == 1: v[2] = v[0]
    if k == 2: v[2] = v[1]
    if k == 3: v = [v[0]] * 3
    if k == 4:      # the same bytes
        x = struct.pack("<q", rng.choice([0, 1, 97]))
        v = [val(t, x) for t in rng.sample([BYTE, POINTER, INT64, UINT64, DOUBLE], 3)]
    s.start()
    U = list(dict.fromkeys(v))
    masks = list(range(64))
    rng.shuffle(masks)
    for m in masks[:32]:
        s.cmd(0, "put", v[0], v[1], v[2], m)
        s.cmd(0, "flush")
        for x in U:
            for y in U:
                s.cmd(0, "get", x, y, vtype(v[2]))
        s.cmd(0, "flush")
        for x in U:
            for y in U:
                s.cmd(0, "del", x, y)
        s.cmd(0, "flush")
    s.stop()
    return s


def fam_cwide(rng, id, deep=False):
    """many ranks and datastores; the ranks take turns"""
    size = rng.choice([5, 6, 8, 9, 12])
    s = multi(rng, id, "wide", size=size, dsper=rng.choice([1, 2, 3]), backend=rng.choice(["mem", "mem", "mem", "level", "rocks"]), tune=rng.random() < .4,
              ratio=rng.choice([(1, 1), (2, 1), (1, 2), (3, 1), (3, 2), (5, 2), (size, 1), (1, size)]))
    if rng.random() < .5:
        s.opt("track", "@h1").opt("firstn", 1).opt("genfn", "tens")
    if rng.random() < .3:
        s.opt("async", rng.choice([1, 3, 10]))
    keys = [(by(b"s%d" % i), by("h1" if i % 3 == 0 else b"p%d" % i)) for i in range(rng.choice([6, 12, 20]))]
    s.start()
    turns = rng.sample(range(size), min(size, rng.choice([2, 3, 5])))
    if rng.random() < .5:       # everybody writes records of its own at the same time
        for r in range(size):
            s.cmd(r, "put", by(b"r%d" % r), by("h1"), f64(r + .5), 1)
            if rng.random() < .5:
                s.cmd(r, "get", by(b"r%d" % r), by("h1"), DOUBLE)
            s.cmd(r, "flush")
        s.cmd("*", rng.choice(["bar", "sync"]))
        keys += [(by(b"r%d" % r), by("h1")) for r in range(size)]
    for r in turns:
        for a, b in rng.sample(keys, rng.choice([3, len(keys)])):
            k = rng.choice(["put", "put", "get", "get", "del"])
            if k == "put":
                s.cmd(r, "put", a, b, rng.choice([by(b"o%d" % r), f64(float(r)), by(b"")]) if rng.random() < .5 else f64(r + .25), rng.choice([1, 1, 1, 63]))
            elif k == "get":
                s.cmd(r, "get", a, b, DOUBLE)
            else:
                s.cmd(r, "del", a, b)
        if rng.random() < .5:
            for d in rng.sample(range(s.total), min(s.total, 4)):
                s.cmd(r, "hist", d, "@h1")
        s.cmd(r, rng.choice(["flush", "flush", "flushput"])).cmd(r, "flush")
        s.cmd("*", rng.choice(["bar", "bar", "sync"]))
    r = rng.randrange(size)
    for a, b in keys:
        s.cmd(r, "get", a, b, DOUBLE)
    for d in range(s.total):
        s.cmd(r, "hist", d, "@h1")
        if rng.random() < .3:
            s.cmd(r, "getop", *rng.choice(keys), DOUBLE, rng.choice([1, 5, 50]), rng.choice([FIRST, LAST]))
    s.cmd(r, "flush").cmd("*", "bar").stop()
    return s


def fam_clong(rng, id, deep=False):
    """a session that lasts: hundreds of small flushes"""
    s = single(rng, id, "long", ds=rng.choice([1, 1, 2]))
    if rng.random() < .5:
        s.opt("async", rng.choice([1, 2, 5, 100]))
    s.opt("track", "@h1").opt("firstn", 2).opt("genfn", "tens")
    p = Pool(rng, 2, 2, [BYTE])
    p.p[-1] = by("h1")
    s.start()
    g = Prog(s, rng, p, 0, [BYTE, DOUBLE], names=["@h1"], counts=[1, 3], bulk=.1)
    g.noorder = False
    for i in range(rng.choice([70, 140, 280])):
        for _ in range(rng.choice([1, 1, 2, 3])):
            g.op(rng.choice(["put", "put", "get", "del", "getop", "hist"]))
        s.cmd(0, rng.choice(["flush", "flush", "flushput", "flushget", "flushdel", "flushgetop", "flushhist", "sync"]))
    s.cmd(0, "flush")
    reads(p, s, rng)
    s.stop()
    return s


def fam_c04(rng, id, deep=False):
    s = single(rng, id, "ordered", ds=rng.choice([1, 1, 1, 2]))
    kind = rng.randrange(4)
    if kind == 0:
        p = Pool(rng, 4, 4, [BYTE])
        if rng.random() < .35:      # nothing sorts after these
            p.s = p.s[:2] + [by(b"\xff"), by(b"\xff\xff")]
            p.p = p.p[:3] + [by(b"\xff")]
    elif kind == 1:
        t = rng.choice([INT32, INT64, UINT32, UINT64, FLOAT, DOUBLE])
        p = Pool(rng, 2, 7, [BYTE])
        ps = []
        while len(ps) < 7:
            x = num_of(rng, t, rng.random() < .7)
            if x not in ps: ps.append(x)
        p.p = ps
    elif kind == 2:
        t = rng.choice([INT32, INT64, UINT32, FLOAT, DOUBLE])
        p = Pool(rng, 5, 3, [t], small=True)
        p.p = [by("a"), by("ab"), num_of(rng, t)]
    else:
        p = Pool(rng, 4, 4, [BYTE, INT32, DOUBLE, UINT64])
    if rng.random() < .15:
        s.opt("xform", *rng.choice([(33, 126, 8, 16), (45, 46, 6, 12)]))
        s.often_warm = True
    s.start()
    g = Prog(s, rng, p, 0, [BYTE, DOUBLE, INT32], bulk=.15, counts=[0, 1, 1, 2, 3, 100])
    for _ in range(rng.choice([0, 1, 6, 14])):
        s.cmd(0, "put", p.S(), p.P(), g.obj(), rng.choice([1, 1, 1, 63]) if kind == 0 else 1)
    s.cmd(0, "flush")
    for _ in range(3 if not deep else 8):
        for _ in range(rng.choice([3, 8])):
            g.op("getop")
        if rng.random() < .3:       # every way to start from one place
            a, b = p.S(), rng.choice([p.P(), "%d!0" % BYTE])
            for k in rng.sample(range(8), 8):
                s.cmd(0, "getop", a, b, BYTE, rng.choice([1, 2, 50]), k)
        s.cmd(0, rng.choice(["flush", "flushgetop"]))
        for _ in range(rng.choice([1, 3])):
            g.op(rng.choice(["put", "del", "del"]))
        s.cmd(0, "flush")
    s.stop()
    return s


def fam_c05(rng, id, deep=False):
    multi_rank = rng.random() < .35
    s = (multi if multi_rank else single)(rng, id, "own-results", backend=rng.choice(BACKENDS))
    p = Pool(rng, 3, 3, rng.choice([[BYTE], [BYTE, INT32, DOUBLE], [BYTE, UINT64, POINTER]]))
    fails = rng.random() < .4
    if fails:      # values that cannot be stored
        t = rng.choice([BYTE, POINTER])
        s.opt("xfn", t, "fail")
        bad = val(t, b"\xee" + bytes([rng.randrange(256)]))
        p.s.append(bad)
        p.p.append(val(t, b"\xee"))
    s.opt("track", "@h1").opt("firstn", 2).opt("genfn", "tens")
    s.start()
    W = {"put": 4, "get": 4, "getop": 3, "del": 2, "hist": 1}
    for r in range(s.size):
        g = Prog(s, rng, p, r, [BYTE, INT32, DOUBLE], masks=[1, 1, 3, 21, 63], names=["@h1", "@nope"], counts=[1, 2, 3], longobj=False,
                 getops=[EQ, NEXT, PREV, LOWEST, HIGHEST, FIRST, LAST] * 2 + [7] if not fails else [FIRST, LAST, FIRST])
        if fails:
            g.obytes = g.obytes + [b"\xee\x01"]
        g.run(rng.choice([10, 20]) if not multi_rank else rng.choice([4, 7]), W, .12)
    s.cmd("*", "flush")
    s.cmd("*", "bar").stop()
    return s


def fam_c06(rng, id, deep=False):
    s = single(rng, id, "flush-order")
    p = Pool(rng, 2, 2)
    s.opt("track", "@h1").opt("firstn", 1).opt("genfn", "tens")
    s.start()
    g = Prog(s, rng, p, 0, [BYTE], obytes=[bytes([x]) for x in range(65, 91)], masks=[1, 1, 3], names=["@h1"], counts=[1, 3], bulk=.3)
    p.p.append(by("h1"))
    kinds = ["flush", "flushput", "flushget", "flushgetop", "flushdel", "flushhist"]
    W = {"put": 4, "get": 3, "getop": 2, "del": 2, "hist": 1}
    for _ in range(rng.choice([3, 6])):
        for _ in range(rng.choice([3, 6, 10])):
            k = rng.choices(list(W), list(W.values()))[0]
            if k == "put" and rng.random() < .3:
                s.cmd(0, "put", p.S(), by("h1"), f64(rng.choice([0., 3., 10., 25., 41.])), 1)
            else:
                g.op(k)
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < .4:
                s.cmd(0, "queues")
            s.cmd(0, rng.choice(kinds))
        if rng.random() < .2:
            s.cmd(0, "sync")
        if rng.random() < .4:
            s.cmd(0, "queues")
    s.cmd(0, "flush").cmd(0, "queues").cmd(0, "flush").cmd(0, "getop", by("z"), by("z"), BYTE, 100, FIRST).cmd(0, "flush")
    s.stop()
    return s


def fam_c07(rng, id, deep=False):
    s = multi(rng, id, "shared-store", size=rng.choice([2, 2, 3, 3, 4] + ([5, 6] if deep else [])))
    p = Pool(rng, 2, 2, [BYTE])
    if rng.random() < .25:      # operations that take long
        s.opt("xfn", BYTE, "xor")
        s.perturb = rng.choice([20, 50])
    if rng.random() < .25:
        s.opt("track", "@h1").opt("firstn", 2).opt("genfn", "tens")
        p.p[-1] = by("h1")
    big = rng.random() < .15
    s.start()
    for r in range(s.size):
        names = ["@h1"]
        g = Prog(s, rng, p, r, [BYTE, DOUBLE], obytes=[b"%d-%d" % (r, i) for i in range(5)], masks=[1] if big else [1, 1, 1, 21], names=names, counts=[1, 2, 5], bulk=.2, longobj=big)
        for _ in range(rng.choice([1, 2, 3])):
            g.run(rng.choice([2, 3, 5]), {"put": 5, "get": 4, "getop": 2, "del": 2, "hist": .5}, .2)
            if rng.random() < .3:
                s.cmd(r, "bar") if False else None
            s.cmd(r, rng.choice(["flush", "flush", "flushput"]))
    if rng.random() < .3:
        s.cmd("*", "sync")
    s.cmd("*", "flush").cmd("*", "bar")
    reads(p, s, rng, rng.randrange(s.size))
    s.cmd("*", "bar").stop()
    return s


def fam_c08(rng, id, deep=False):
    """all kinds of operations over the wire; every message is recorded"""
    s = multi(rng, id, "messages", size=rng.choice([2, 2, 3, 3, 4] + ([5, 6, 7] if deep else [])), msglog=True)
    big = rng.random() < .4       # (long values are recorded in short, which does not keep their order)
    p = Pool(rng, 3, 3, [BYTE], long=big)
    if rng.random() < .3:
        s.opt("async", rng.choice([1, 1, 2, 4]))
    if rng.random() < .3:
        s.opt("track", "@h1").opt("firstn", 2).opt("genfn", "tens")
    if rng.random() < .4:
        s.perturb = rng.choice([5, 20, 40])
    for k in range(rng.choice([1, 1, 2])):
        s.start()
        for r in range(s.size):
            g = Prog(s, rng, p, r, [BYTE, DOUBLE], obytes=[b"%d-%d" % (r, i) for i in range(5)], masks=[1, 1, 5, 21, 63], names=["@h1", "61"], counts=[1, 2, 5], bulk=.4,
                     longobj=big)
            for _ in range(rng.choice([0, 1, 2, 3])):
                g.run(rng.choice([2, 4, 8]), {"put": 5, "get": 4, "getop": 0 if big else 2, "del": 2, "hist": 1}, .2, ["flush", "flush", "flushput", "flushget", "flushgetop", "flushdel", "flushhist"])
                s.cmd(r, rng.choice(["flush", "flush", "flushput", "flushget", "queues"]))
        if rng.random() < .3:
            s.cmd("*", "sync")
        s.stop()
    return s


def fam_c09(rng, id, deep=False):
    m = rng.random() < .35
    s = (multi if m else single)(rng, id, "background-puts")
    s.opt("async", rng.choice([1, 1, 2, 3, 5]))
    s.perturb = rng.choice([0, 10, 30])
    p = Pool(rng, 2, 2)
    s.start()
    for r in range(s.size):
        g = Prog(s, rng, p, r, [BYTE], obytes=[b"%d-%d" % (r, i) for i in range(9)], masks=[1, 1, 5], counts=[1, 3], bulk=.3)
        for _ in range(rng.choice([2, 3]) if not m else rng.choice([1, 2])):
            g.run(rng.choice([3, 6, 10]) if not m else rng.choice([2, 4]), {"put": 8, "get": 1, "del": .5}, .1, ["flush", "flushput", "flushget"])
            if rng.random() < .4:
                s.cmd(r, "sleep", rng.choice([1, 3]))
            s.cmd(r, rng.choice(["flush", "flushput", "flushget"]))
    if rng.random() < .4:
        s.cmd("*", "sync")
    if rng.random() < .5:
        s.cmd("*", "flush").cmd("*", "bar")
        reads(p, s, rng, 0)
        s.cmd("*", "bar")
    s.stop()
    if s.backend != "mem" and rng.random() < .5:
        s.start()
        reads(p, s, rng, 0)
        s.cmd("*", "bar")
        s.stop()
    return s


def fam_c11(rng, id, deep=False):
    m = rng.random() < .2
    s = (multi if m else single)(rng, id, "durability", backend=rng.choice(["level", "rocks"]))
    if rng.random() < .3:
        s.opt("async", 2)
    p = Pool(rng, 3, 3, rng.choice([[BYTE], [BYTE, INT64, DOUBLE]]), long=rng.random() < .3)
    hist = rng.random() < .3
    if hist:
        s.opt("track", "@h1").opt("firstn", 3).opt("genfn", "tens")
        p.p.append(by("h1"))
    for ph in range(rng.choice([1, 2, 3])):
        if ph:
            s.phase()
        for _ in range(rng.choice([1, 1, 2])):
            s.start()
            if ph or rng.random() < .5:
                reads(p, s, rng, 0)
                if m: s.cmd("*", "bar")
            for r in range(s.size):
                g = Prog(s, rng, p, r, [BYTE, DOUBLE, INT32], masks=[1, 1, 63], longobj=True, names=["@h1"])
                W = {"put": 5, "get": 1, "del": 2}
                if hist: W["hist"] = 1
                g.run(rng.choice([3, 8, 15]) if not m else 3, W, .2)
            if rng.random() < .7:
                s.cmd("*", "sync")
                for r in range(s.size):
                    Prog(s, rng, p, r, [BYTE]).run(rng.choice([0, 2, 4]), {"put": 5, "del": 2}, .4)
            if m: s.cmd("*", "bar")
            kill = rng.random() < .45
            if kill and not m:
                s.cmd(0, "kill")
                break
            s.stop()
    s.phase()
    s.start()
    reads(p, s, rng, 0)
    if hist:
        for d in range(s.total):
            s.cmd(0, "hist", d, "@h1")
        s.cmd(0, "flush")
    s.cmd("*", "bar").stop()
    return s


def fam_c12(rng, id, deep=False):
    m = rng.random() < .3
    own = rng.random() < .4      # each rank may choose names of its own
    s = (multi if m else single)(rng, id, "switching")
    if rng.random() < .25:
        s.opt("async", 2)
    p = Pool(rng, 2, 3)
    hist = rng.random() < .45
    if hist:
        s.opt("track", "@h1").opt("firstn", 2).opt("genfn", "tens")
        s.opt("hists", rng.choice([0, 1, 1]), rng.choice([0, 1, 1]))
        p.p.append(by("h1"))
    unopened = not hist and rng.random() < .2
    if unopened:    # nothing can be used before the first change
        s.opt("openinit", 0)
    s.start()
    first = lambda: s.cmd("*", "chname", rng.choice(["data", "n1"]), 1, 1, 1) if rng.random() < .7 else s.cmd("*", "chhash", "n2", "SUM")
    if unopened:
        first()
    names = ["data", "n1", "n2"]
    hashes = [("SUM", "SUM"), ("FNV", "FNV"), ("ssum", "ssum"), ("ZERO", "ZERO"), ("arg0", "arg0")] + ([("arg1", "arg1")] * 2 if s.total > 1 else [])
    for _ in range(rng.choice([2, 4, 6])):
        for r in range(s.size):
            g = Prog(s, rng, p, r, [BYTE, DOUBLE], masks=[1, 1, 63], names=["@h1"], counts=[1, 10])
            W = {"put": 5, "get": 3, "del": 1, "getop": 1}
            if hist: W["hist"] = 1
            g.run(rng.choice([2, 5, 8]) if not m else 2, W, .15)
        if m: s.cmd("*", "bar")
        hold = ["hold", "h"] if rng.random() < .3 else []
        if m and own:
            for r in range(s.size):
                s.cmd(r, "chname", rng.choice(names), rng.choice([0, 1]), rng.choice([0, 1]), rng.choice([0, 1, 1]), *hold)
        elif rng.random() < .7:
            s.cmd("*", "chname", rng.choice(names), rng.choice([0, 1]), rng.choice([0, 1]), rng.choice([0, 1, 1]), *hold)
        else:
            n, f = rng.choice(hashes)
            s.cmd("*", "chhash", n, f, *hold)
        if hold:
            s.cmd("*", "recheck", "h")
        if rng.random() < .6:
            reads(p, s, rng, 0)
            if m: s.cmd("*", "bar")
        if hist and rng.random() < .5:
            s.cmd(0, "hist", rng.randrange(s.total), "@h1").cmd(0, "flush")
    s.cmd("*", "bar").stop()
    if s.backend != "mem" and rng.random() < .4:
        s.start()
        if unopened:
            first()
        reads(p, s, rng, 0)
        s.cmd("*", "bar").stop()
    return s


def fam_cone(rng, id, deep=False):
    """one datastore of a set opened on its own"""
    s = single(rng, id, "switching", backend=rng.choice(["level", "rocks"]), ds=rng.choice([1, 2, 3, 4]))
    if rng.random() < .25:
        s.opt("async", 2)
    hist = rng.random() < .3
    p = Pool(rng, 2, 4)
    if hist:
        s.opt("track", "@h1").opt("firstn", 2).opt("genfn", "tens")
        p.p.append(by("h1"))
    ph, n = 0, 0            # life events so far

    def work(k, ds=None):
        g = Prog(s, rng, p, 0, [BYTE, DOUBLE], masks=[1, 1, 63], names=["@h1"], counts=[1, 10])
        W = {"put": 5, "get": 3, "del": 1, "getop": 2}
        g.run(k, W, .15)
        if rng.random() < .5:
            s.cmd(0, "flush")
        if hist and rng.random() < .7:
            s.cmd(0, "hist", rng.randrange(s.total) if ds is None else ds, "@h1").cmd(0, "flush")

    s.start()
    work(12)
    if rng.random() < .3:
        s.cmd(0, "sync")
    s.stop()
    n = 3
    for _ in range(rng.choice([2, 3, 4])):
        s.cmd(0, "init")
        n += 1
        u = rng.random()
        if u < .2:
            s.openone[(ph, 0, n)] = ("data", 0)
            s.want[(ph, 0, n)] = False
            s.cmd(0, "openone", rng.choice(["./db/nosuch-0", "./db/data-%d" % s.total, "./none/data-0"]))
            n += 1
            continue
        if u < .75:
            i = rng.randrange(s.total)
            if rng.random() < .3:       # everything goes to the one datastore
                s.cmd(0, "set", "hashfn", rng.choice(["err", "arg1", "minus"]))
            if rng.random() < .3:
                s.cmd(0, "set", "dsper", rng.choice([1, 2, 5]))
            s.openone[(ph, 0, n)] = ("data", i)
            s.cmd(0, "openone", "./db/data-%d" % i)
            one = True
        else:
            s.cmd(0, "open")
            one = False
        n += 1
        reads(p, s, rng, 0)
        if rng.random() < .7:
            work(rng.choice([3, 6]), 0 if one else None)
        if rng.random() < .5:
            s.cmd(0, "queues")
        if rng.random() < .3:
            s.cmd(0, "sync")
        s.stop()
        n += 1
    s.start()
    reads(p, s, rng, 0)
    s.stop()
    return s


def same_program(rng, build):
    """runs one random program"""
    return build(random.Random(rng))


def fam_c13(rng, id, deep=False):
    """one program under several configurations"""
    prog_seed = rng.randrange(10**9)
    out = []
    for i in range(6 if not deep else 10):
        r = random.Random(rng.randrange(10**9))
        q = random.Random(prog_seed)
        if i < 4:
            s = single(r, "%s-%d" % (id, i), "tuning", backend=BACKENDS[i % 3])
        else:
            s = multi(r, "%s-%d" % (id, i), "tuning", size=r.choice([2, 3]))
        if r.random() < .4:
            s.opt("async", r.choice([1, 2, 4]))
        s.start()
        p = Pool(q, 3, 3, q.choice([[BYTE], [BYTE, INT32, DOUBLE]]))
        ordered = q.random() < .5
        if ordered:
            g = Prog(s, q, p, 0, [BYTE, INT32, DOUBLE], masks=[1], counts=[1, 2, 3, 5, 10])
            g.run(16, {"put": 6, "get": 2, "getop": 4, "del": 2}, .25)
        else:
            g = Prog(s, q, p, 0, [BYTE, INT32, DOUBLE], masks=[1, 1, 3, 63], counts=[1, 2, 10], longobj=True)
            g.run(14, {"put": 5, "get": 4, "del": 2}, .25)
        reads(p, s, q)
        s.cmd("*", "bar").stop()
        out.append(s)
    return out


TENS = [0., 1., 5., 9., 10., 11., 15., 19., 20., 25., 30., 35., 39., 40., 55., 100., -1., -5., 29.]
TENS += [-.5, .5, 9.75, 9.9999999999, 10.0000000001, 19.99999999999999, 29.5, 39.9999999999, 1e30, -1e30, 1e-30, -1e-30, 30.25]


def hist_values(rng, gen, first):
    """integer values; where exact edges are compared the range of the first
    values is a multiple of every possible number of buckets"""
    if gen in ("tens", "tens3"):
        return [rng.choice(TENS) for _ in range(first)], lambda: rng.choice(TENS)
    if gen == "10_BUCKETS":
        lo, span = rng.choice([0, -50, 7]), rng.choice([10, 20, 35, 99, 100, 5, 1])
    else:
        bins = {"SQUARE_ROOT_CHOICE": isqrt(first), "STURGES_FORMULA": first.bit_length() - 1 + 2, "RICE_RULE": icbrt(first) + 2}.get(gen, 1)
        lo, span = rng.choice([0, -20, 5, 1]), bins * rng.choice([1, 2, 5, 8])
    base = [float(lo), float(lo + span)] if first > 1 else [float(lo)]
    vals = base + [float(rng.randrange(lo, lo + span + 1)) for _ in range(first - len(base))]
    rng.shuffle(vals)
    def more():
        x = float(rng.randrange(lo - 3, lo + 2 * span + 3))
        return x + rng.choice([0, 0, 0, .5, .125, -.125])
    return vals, more


def isqrt(n): return int(n ** .5 + 1e-9)
def icbrt(n):
    k = 0
    while (k + 1) ** 3 <= n: k += 1
    return k


GENS = ["10_BUCKETS", "SQUARE_ROOT_CHOICE", "STURGES_FORMULA", "RICE_RULE", "SCOTTS_NORMAL_REFERENCE_RULE", "UNIFORM_LOG2", "UNIFORM_LOG10"]


def fam_c14(rng, id, deep=False):
    m = rng.random() < .2
    s = multi(rng, id, "histograms") if m else single(rng, id, "histograms", ds=rng.choice([1, 1, 2]))
    gen = rng.choice(["tens", "tens3", "fail"] + GENS + ["tens", "10_BUCKETS", "SQUARE_ROOT_CHOICE", "STURGES_FORMULA", "RICE_RULE"])
    first = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 26])
    if gen in ("UNIFORM_LOG2", "UNIFORM_LOG10", "SCOTTS_NORMAL_REFERENCE_RULE"):
        lo, k = rng.choice([0, 1, -7]), rng.random()
        if k < .25:
            first = rng.choice([3, 4, 5])
            vals, more = [1., 9., 17., 33., 65.][:first], lambda: float(rng.randrange(1, 80))
        elif gen == "SCOTTS_NORMAL_REFERENCE_RULE":     # half of the values at either end
            first, span = rng.choice([2, 4, 6, 6, 8, 10, 12, 12, 24]), rng.choice([12, 24, 60])
            vals, more = [float(lo + i % 2 * span) for i in range(first)], lambda: float(rng.randrange(lo - 2, lo + span + 5))
        else:
            first, span = rng.choice([2, 3, 4, 5]), rng.choice([12, 20, 24, 6] if gen == "UNIFORM_LOG2" else [5, 6])
            vals, more = [float(x) for x in [lo, lo + span, lo + span // 2, lo + 1, lo][:first]], lambda: float(rng.randrange(lo - 2, lo + span + 5))
        rng.shuffle(vals)
    else:
        vals, more = hist_values(rng, gen, first)
    s.opt("firstn", first)
    (s.opt("genfn", gen) if gen in ("tens", "tens3", "fail") else s.opt("gen", gen))
    names = rng.choice([["h1"], ["h1", "h2"], ["h1", "a\x00b" if False else "x y".replace(" ", "_")]])
    for n in names:
        s.opt("track", "@" + n)
    s.opt("hists", rng.choice([0, 1, 1]), rng.choice([0, 1, 1]))
    bad = rng.random() < .3      # subjects that cannot be encoded: not stored, so not counted
    if bad:
        s.opt("xfn", INT32, "fail")
    s.start()
    todo = list(vals)
    if first > 5 and rng.random() < .7:     # get there at once
        s.cmd(0, "bput", first - 1, *[y for x in todo[:first - 1] for y in (by("s0"), by(names[0]), f64(x), 1)])
        todo = todo[first - 1:]
    rounds = rng.choice([2, 3, 5])
    k = 0
    for _ in range(rounds):
        for r in range(s.size):
            for _ in range(rng.choice([1, 3, 6])):
                x = todo.pop(0) if todo else more()
                k += 1
                n = rng.choice(names[:1] * 3 + names + ["other"])
                v = (f64 if rng.random() < .6 else f32)(x)
                subj = by("s%d" % (k % 3)) if rng.random() < .5 or s.total == 1 else by(bytes([rng.randrange(256)]))
                if n != names[0] and todo is not None:
                    pass
                if bad and rng.random() < .3:
                    subj = val(INT32, b"\xee" + bytes([k % 256, 0, 0]))
                x = rng.random()
                if x < .1 and not bad:
                    v = i32(5)           # not a floating point object
                if x > .93:
                    s.cmd(r, "bput", 2, subj, by(n), v, 1, subj, by(n), f64(more()), 1)
                elif x > .88:
                    s.cmd(r, "put", subj, val(POINTER, n.encode()), v, 1)
                elif x > .83:
                    s.cmd(r, "put", subj, by(n), v, 1 | 4)
                else:
                    s.cmd(r, "put" + ("t" if vtype(v) in (FLOAT, DOUBLE) and rng.random() < .3 else ""), subj, by(n), v, 1)
                if rng.random() < .15:
                    s.cmd(r, "get", subj, by(n), DOUBLE)
                if rng.random() < .25:
                    s.cmd(r, "hist", rng.randrange(s.total), "@" + rng.choice(names + ["other"]))
                if rng.random() < .2:
                    s.cmd(r, rng.choice(["flush", "flushput", "flushhist"]))
            s.cmd(r, "flush")
        if m: s.cmd("*", "bar")
        for d in range(s.total):
            for n in names:
                s.cmd(0, "hist", d, "@" + n)
        hold = rng.random() < .3
        s.cmd(0, "flushhist", *(["hold", "h"] if hold else []))
        if rng.random() < .3:
            s.cmd(0, "bhist", 2, rng.randrange(s.total), "@" + names[0], rng.randrange(s.total), "@other").cmd(0, "flush")
        if m: s.cmd("*", "bar")
        if rng.random() < .3:
            s.cmd("*", "sync")
        if hold:
            s.cmd(0, "put", by("s0"), by(names[0]), f64(more()), 1).cmd(0, "flush").cmd(0, "recheck", "h")
        if rng.random() < .2 and not m:
            s.stop().start()
        if rng.random() < .15 and not m:
            s.cmd("*", "chname", rng.choice(["data", "n1"]), rng.choice([0, 1]), rng.choice([0, 1]), rng.choice([0, 1]))
    s.cmd("*", "bar").stop()
    return s


def fam_c18(rng, id, deep=False):
    m = rng.random() < .6
    s = (multi if m else single)(rng, id, "limits", tune=False, **({"msglog": True} if m else {}))
    s.maxops = rng.choice([1, 2, 3, 5, 128])
    s.maxsize = rng.choice([1048576, 1048576, 1, 80, 150, 300, 600])
    s.opt("maxops", s.maxops).opt("maxsize", s.maxsize)
    if rng.random() < .2:
        s.opt("async", rng.choice([1, 3, 7]))
    big = rng.random() < (.5 if s.maxsize > 1000 else .75)
    p = Pool(rng, 3, 3, long=big and rng.random() < .5)
    s.start()
    for r in range(s.size):
        g = Prog(s, rng, p, r, [BYTE], masks=[1, 63, 5], counts=[1, 2], longobj=big, bulk=.5)
        g.longp = .6
        W = {"put": 5, "get": 4, "del": 2}
        if not big: W["getop"] = 2
        g.run(rng.choice([6, 15]) if not m else rng.choice([4, 6]), W, .1)
        s.cmd(r, "queues").cmd(r, "flush").cmd(r, "queues")
    s.cmd("*", "bar").stop()
    return s


def fam_c21(rng, id, deep=False):
    """the same operations as single calls and in bulk"""
    prog = random.Random(rng.randrange(10**9))
    p = Pool(prog, 3, 3, prog.choice([[BYTE], [BYTE, INT32, DOUBLE]]))
    otypes = [BYTE, INT32, INT64, UINT32, UINT64, FLOAT, DOUBLE, POINTER]
    groups = []
    bad = prog.random() < .35
    for _ in range(6):
        k = prog.choice(["put", "put", "get", "getop", "del", "hist"])
        n = prog.choice([1, 2, 3, 5])
        t = prog.choice(otypes)
        L = []
        obytes = adversarial(prog, 4)
        uniform = prog.random() < .5
        for _ in range(n):
            tt = t if uniform else prog.choice(otypes)
            if k == "put": L.append([p.S(), p.P(), some_value(prog, tt, obytes), prog.choice([1, 1, 3, 63, 0])])
            if k == "get": L.append([p.S(), p.P(), tt])
            if k == "getop": L.append([p.S(), p.P(), tt, prog.choice([1, 2, 5]), prog.randrange(7)])
            if k == "del": L.append([p.S(), p.P()])
            if k == "hist": L.append([0, prog.choice(["@h1", "@nope"])])
        if bad and k in ("put", "get", "del") and prog.random() < .5:
            L[prog.randrange(n)][0] = by(b"\xee\x01")
        if k == "put" and prog.random() < .4:
            L.append([p.S(), by("h1"), f64(prog.choice(TENS)), 1])
            uniform = False
        groups.append((k, t, uniform, L, prog.random() < .5))
    out = []
    for i in range(2):
        s = single(rng, "%s-%d" % (id, i), "bulk-single", backend=["level", "mem", "rocks"][rng.randrange(3)])
        if bad:
            s.opt("hashfn", "err")
        s.opt("track", "@h1").opt("firstn", 2).opt("genfn", "tens")
        s.start()
        for k, t, uniform, L, fl in groups:
            if i == 0:
                how = ""
                if uniform and k in ("put", "get", "getop"):
                    how = rng.choice(["", "s"] + (["t"] if t in (FLOAT, DOUBLE) else []))
                s.cmd(0, "b" + k + how, len(L), *[x for a in L for x in a])
            else:
                for a in L:
                    tt = vtype(a[2]) if k == "put" else a[2] if k in ("get", "getop") else 0
                    s.cmd(0, k + ("t" if tt in (FLOAT, DOUBLE) and rng.random() < .7 else ""), *a)
            if fl:
                s.cmd(0, "flush")
        s.cmd(0, "flush")
        reads(p, s, prog)
        s.stop()
        out.append(s)
    return out


def fam_c22(rng, id, deep=False):
    m = rng.random() < .3
    s = (multi if m else single)(rng, id, "ownership")
    if rng.random() < .3:
        s.opt("async", rng.choice([1, 2]))
    p = Pool(rng, 3, 3, rng.choice([[BYTE], [BYTE, INT32, DOUBLE, UINT64]]), long=False)
    s.opt("track", "@h1").opt("firstn", 1).opt("genfn", "tens")
    p.p.append(by("h1"))
    masks = rng.choice([[1], [1, 63]])
    s.start()
    for rd in range(rng.choice([2, 3])):
        for r in range(s.size):
            g = Prog(s, rng, p, r, [BYTE, DOUBLE, INT32], masks=masks, names=["@h1"], counts=[1, 3], longobj=masks == [1])
            g.run(rng.choice([4, 8]) if not m else 3, {"put": 4, "get": 4, "getop": 3, "del": 1, "hist": 1}, 0)
            s.cmd(r, rng.choice(["flush", "flush", "sync"]) if not m else "flush", "hold", "k%d" % rd)
            s.cmd(r, "free")            # the caller's buffers go away after the flush
            s.cmd(r, "recheck", "k%d" % rd)
    for r in range(s.size):
        Prog(s, rng, p, r, [BYTE], names=["@h1"]).run(3, {"put": 4, "del": 3}, .5)
        s.cmd(r, "flush")
        s.cmd(r, "recheck", "k0").cmd(r, "recheck", "k1")
        if s.cpp and rng.random() < .5:
            s.cmd(r, "append", "k0", "k1").cmd(r, "recheck", "k0")
    s.cmd("*", "bar")
    if rng.random() < .5 and not m:
        s.stop()
        for r in range(s.size):
            s.cmd(r, "recheck", "k0")
    else:
        s.stop()
    return s


# ------------------------------------------------------------------ programs found by TLC
def _plan(plan, **kw):
    return lambda rng, id, deep=False: behav.scenario(plan, rng, id, single, multi, **kw)


for _p in behav.PLANS:
    globals()["fam_cg" + _p] = _plan(_p)
fam_cgbackground = _plan("order", background=1)


def fam_cgconf(rng, id, deep=False):
    return behav.configurations(rng.choice(["store", "flush", "order", "hists"]), rng, id, single, multi)


def fam_cgbulked(rng, id, deep=False):
    return behav.bulked(behav.scenario(rng.choice(["bulk", "bulk", "order", "flush"]), rng, id, single, multi), rng)


def fam_cgheld(rng, id, deep=False):
    return behav.held(behav.scenario(rng.choice(["bulk", "store", "flush", "hists"]), rng, id, single, multi), rng)



FAMILIES = {f[4:].upper(): globals()[f] for f in list(globals()) if f.startswith("fam_c")}


def make(prop, seed, n, deep=False, fam=None):
    f = fam or FAMILIES[prop]
    out = []
    for i in range(n):
        rng = random.Random("%s-%d-%d" % (prop, seed, i))
        s = f(rng, "%s-%d-%d" % (prop, seed, i), deep)
        out.extend(s if isinstance(s, list) else [s])
    return out
