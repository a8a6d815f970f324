"""Scenarios: what the driver executes. A scenario is plain data; text() is the
form the driver reads, config() the facts about it that the specification needs."""
import random
import zlib
import struct

PUT_PERMS = ("SPO", "SOP", "PSO", "POS", "OSP", "OPS")
INT32, INT64, UINT32, UINT64, FLOAT, DOUBLE, BYTE, POINTER = range(1, 9)
EQ, NEXT, PREV, FIRST, LAST, LOWEST, HIGHEST = range(7)


def val(t, b):
    return "%d:%s" % (t, bytes(b).hex())


def by(s):
    return val(BYTE, s.encode() if isinstance(s, str) else s)


def i32(x): return val(INT32, struct.pack("<i", x))
def i64(x): return val(INT64, struct.pack("<q", x))
def u32(x): return val(UINT32, struct.pack("<I", x))
def u64(x): return val(UINT64, struct.pack("<Q", x))
def f32(x): return val(FLOAT, struct.pack("<f", x))
def f64(x): return val(DOUBLE, struct.pack("<d", x))


class Scn:
    def __init__(self, id, size=1, seed=1, delay=0, rdv=0, yield_=0, cpp=False, perturb=0, msglog=False, timeout=0, family=""):
        self.id, self.size, self.seed, self.delay, self.rdv, self.yield_ = id, size, seed, delay, rdv, yield_
        self.cpp, self.perturb, self.msglog, self.timeout = cpp, perturb, msglog, timeout
        self.opts, self.env, self.files = [], [], []
        self.phases = [[]]
        self.family = family
        self.often_warm = False
        self.openone = {}   # (phase, rank, index of life event of the rank) -> (base name, id) of the datastore opened on its own
        self.want = {}      # (phase, rank, index of life event of the rank) -> expected rc, where it is not success

    def opt(self, *w, rank=None):
        self.opts.append((rank, [str(x) for x in w]))
        return self

    def cmd(self, r, *w):
        self.phases[-1].append((r, [str(x) for x in w]))
        return self

    def phase(self):
        self.phases.append([])
        return self

    def start(self):
        return self.cmd("*", "init").cmd("*", "open")

    def stop(self):
        return self.cmd("*", "close")

    def text(self):
        o = ["scenario " + self.id]
        o.append("world %d %d %d %d %d" % (self.size, self.seed, self.delay, self.rdv, self.yield_))
        if self.cpp:
            o.append("cpp")
        if zlib.crc32(self.id.encode()) & 1:
            o.append("share")
        h = zlib.crc32(self.id.encode())
        if h % 7 == 3 or (self.often_warm and h % 7 < 3):
            o.append("warm %d" % (1 + h // 7 % 4))
        if self.msglog:
            o.append("msglog")
        if self.perturb:
            o.append("perturb %d" % self.perturb)
        if self.timeout:
            o.append("timeout %d" % self.timeout)
        for k, v in self.env:
            o.append("env %s %s" % (k, v))
        for k, v in self.files:
            o.append("file %s %s" % (k, v.encode().hex()))
        for r, w in self.opts:
            o.append(("opt " if r is None else "opt@%d " % r) + " ".join(w))
        for i, p in enumerate(self.phases):
            if i:
                o.append("phase")
            for r, w in p:
                o.append("r %s %s" % (r, " ".join(w)))
        o.append("end")
        return "\n".join(o) + "\n"

    def config(self):
        """settings in effect, taken from the option lines"""
        c = dict(client=2, server=1, per=1, mem=False, backend="level", async_=0, neg=47, pos=58, fp=8, dp=16, xor=[], fail=[], names=[], first=10,
                 gen="10_BUCKETS", read=True, write=True, prefix="./db", base="data", post="", maxops=128, maxsize=1048576,
                 ranks=self.size, create=True, openinit=True)
        for r, w in self.opts:
            k = w[0]
            if k == "client": c["client"] = int(w[1])
            elif k == "server": c["server"] = int(w[1])
            elif k == "dsper": c["per"] = int(w[1])
            elif k == "openinit": c["openinit"] = w[1] != "0"
            elif k == "hists": c["read"], c["write"] = w[1] != "0", w[2] != "0"
            elif k == "name": c["prefix"], c["base"], c["post"] = w[1], w[2], (w[3] if len(w) > 3 else "")
            elif k == "mem": c["mem"], c["backend"] = True, "mem"
            elif k == "level": c["mem"], c["backend"], c["create"] = False, "level", w[1] != "0"
            elif k == "rocks": c["mem"], c["backend"], c["create"] = False, "rocks", w[1] != "0"
            elif k == "async": c["async_"] = int(w[1])
            elif k == "xform": c["neg"], c["pos"], c["fp"], c["dp"] = map(int, w[1:5])
            elif k == "xfn":
                t = int(w[1])
                for L in (c["xor"], c["fail"]):
                    if t in L: L.remove(t)
                if w[2] in ("xor", "fail"): c[w[2]].append(t)
            elif k == "track": c["names"].append(w[1][1:].encode() if w[1].startswith("@") else bytes.fromhex(w[1]))
            elif k == "firstn": c["first"] = int(w[1])
            elif k == "gen": c["gen"] = w[1]
            elif k == "genfn": c["gen"] = {"x": c["gen"]}.get(w[1], w[1])
            elif k == "maxops": c["maxops"] = int(w[1])
            elif k == "maxsize": c["maxsize"] = int(w[1])
        return c
