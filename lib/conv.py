"""Turns a recorded trace into the form the specification reads (HxTrace.tla):
values become numbers, everything else stays as recorded."""
import json
import math
import struct

import ids

NOTINT = 99999999


def load(path):
    out = []
    with open(path) as f:
        for n, line in enumerate(f, 1):
            line = line.strip()
            if line:
                e = json.loads(line)
                e["no"] = n
                out.append(e)
    return out


def order_key_to_double(b):
    u = int.from_bytes(bytes(b), "big")
    u = (u & ((1 << 63) - 1)) if u >> 63 else (~u & ((1 << 64) - 1))
    return struct.unpack("<d", struct.pack("<Q", u))[0]


def as_int(x):
    """bucket edges, in eighths"""
    return int(x * 8) if x == x and abs(x) < 1 << 20 and x * 8 == int(x * 8) else NOTINT


def floor_int(x):
    """values to be counted, in eighths; values in between are used with whole edges only, where the bucket of a value is that of its floor"""
    return max(-(1 << 23), min(1 << 23, math.floor(x * 8))) if math.isfinite(x) else NOTINT


class Values:
    def __init__(self):
        self.ids, self.vals = {}, []

    def id(self, t, b):
        if t == -1:
            return 0
        k = (t, bytes(b))
        if k not in self.ids:
            self.ids[k] = len(self.vals) + 1
            self.vals.append({"t": t, "b": list(b), "e": [], "d": []})
        return self.ids[k]

    def of(self, v):
        return self.id(v["t"], v["b"])

    def res(self, v):
        """in a result: no bytes, no value"""
        return self.of(v) if v["b"] else 0

    def rows(self, res):
        o = []
        for a in res:
            h = a["h"]
            o.append(dict(k=a["k"], st=a["st"], rs=a["rs"], s=self.res(a["s"]), p=self.res(a["p"]), o=self.res(a["o"]), hok=a["hok"],
                          hn=self.id(7, h["name"]) if a["hok"] else 0, hb=[as_int(order_key_to_double(x)) for x in h["b"]], hc=h["c"]))
        return o


def convert(sc, events, want_life=True):
    c = sc.config()
    V = Values()
    ds_total = ids.ds_count(c["ranks"], c["client"], c["server"], c["per"])
    hnames = [V.id(7, n) for n in c["names"]]
    hs = V.id(7, b"HISTOGRAM")
    enc = {}
    for e in events:
        if e["e"] == "elen":
            enc[(e["v"]["t"], bytes(e["v"]["b"]))] = (e["enc"], e["dec"])

    rows = V.rows

    ev, ph = [], 0
    bulkall = {}
    nds_ok = {}
    opened = {}     # rank -> base of open
    lifeidx = {}
    kills = 0
    cur_base = {}
    one = {}        # rank -> id of the only datastore that is open: datastore 0 of the session is that one
    for e in events:
        k = e["e"]
        if k == "elen":
            continue
        if k in ("isend", "match", "trunc", "lost"):
            continue
        x = {"e": k, "no": e["no"]}
        if "r" in e and e["r"] in one:
            i = one[e["r"]]
            if k == "op":
                e = dict(e, h=[i if y == 0 else ds_total if y > 0 else y for y in e["h"]], ds=i if e["ds"] == 0 else ds_total if e["ds"] > 0 else e["ds"])
            elif "res" in e:
                e = dict(e, res=[dict(a, rs=i if a["rs"] == 0 else ds_total) if a["k"] != "SYNC" else a for a in e["res"]])
            elif k == "queues" and e["q"]:
                e = dict(e, q=[[y[0] if z == i else [] for z in range(ds_total)] if len(y) == 1 else [[[10**6, 0]]] * ds_total for y in e["q"]])
        if k == "op":
            x.update(r=e["r"], k=e["k"], s=V.of(e["s"]), p=V.of(e["p"]), o=V.of(e["o"]), sz=e["sz"], pz=e["pz"], oz=e["oz"], pt=e["p"]["t"], m=e["m"], n=e["n"], g=e["g"],
                     ds=e["ds"], name=V.id(7, e["name"]) if e["k"] == "HIST" else 0, h=e["h"], bulk=e["bulk"], rc=e["rc"], open=e["open"], ph=ph, all=True)
            if e["k"] == "HIST":
                bulkall.setdefault((ph, e["r"], e["bulk"] or -e["no"]), []).append(x)
        elif k == "call":
            x.update(r=e["r"], f=e["f"], a=e["a"], ri=0)
        elif k == "ret":
            x.update(r=e["r"], f=e["f"], null=e["null"], hold=e["hold"], res=rows(e["res"]), one=e["r"] in one)
        elif k == "recheck":
            x.update(r=e["r"], hold=e["hold"], res=rows(e["res"]))
        elif k == "newres":
            x.update(r=e["r"], hold=e["hold"], res=[])
        elif k == "rlappend":
            x.update(r=e["r"], to=e["to"], **{"from": e["from"]})
        elif k == "append":
            x.update(r=e["r"], to=e["to"], **{"from": e["from"]}, res=rows(e["res"]), rest=rows(e["rest"]))
        elif k == "lifecall":
            x.update(r=e["r"], f=e["f"])
        elif k == "life":
            i = lifeidx.get((ph, e["r"]), 0)
            lifeidx[(ph, e["r"])] = i + 1
            x.update(r=e["r"], f=e["f"], rc=e["rc"], base=c["base"], create=c["create"])
            if e["f"] == "openone":
                x["create"] = False
                x["base"], n = sc.openone.get((ph, e["r"], i), ("?", 0))
                if e["rc"]:
                    one[e["r"]] = n
            elif e["f"] == "close":
                one.pop(e["r"], None)
            if (ph, e["r"], i) in sc.want:
                x["want"] = sc.want[(ph, e["r"], i)]
        elif k == "bufs":
            x.update(r=e["r"], ok=e["ok"])
        elif k == "await":
            x.update(r=e["r"], s=V.of(e["s"]), p=V.of(e["p"]), ok=e["ok"])
        elif k == "queues":
            x.update(r=e["r"], q=e["q"] or [[[]] * ds_total] * 5)
        elif k == "leftovers":
            x.update(n=len(e["m"]))
        elif k == "phase":
            ph += 1
        else:
            for f in ("r", "why"):
                if f in e:
                    x[f] = e[f]
        ev.append(x)
    # the result of each call
    last = {}
    for i, x in enumerate(ev, 1):
        if x["e"] == "call":
            last[x["r"]] = x
        elif x["e"] == "ret" and x["r"] in last:
            last.pop(x["r"])["ri"] = i
        elif x["e"] in ("phase", "kill"):
            last = {}
    per_total = None
    from ids import ds_count
    total = ds_count(c["ranks"], c["client"], c["server"], c["per"])
    for L in bulkall.values():
        ok = all(0 <= x["ds"] < total for x in L)
        for x in L:
            x["all"] = ok
    for v in V.vals:
        k = (v["t"], bytes(v["b"]))
        if k in enc:
            v["e"], v["d"] = enc[k]
            V2 = enc[k][1]
    num = []
    for v in V.vals:
        b = bytes(v["b"])
        if v["t"] == 5 and len(b) == 4:
            num.append(floor_int(struct.unpack("<f", b)[0]))
        elif v["t"] == 6 and len(b) == 8:
            num.append(floor_int(struct.unpack("<d", b)[0]))
        else:
            num.append(NOTINT)
    return dict(id=sc.id, ranks=c["ranks"], client=c["client"], server=c["server"], per=c["per"], mem=c["mem"], async_=c["async_"] > 0, startat=c["async_"],
                crash=len(sc.phases) > 1, neg=c["neg"], pos=c["pos"], xor=c["xor"], fail=c["fail"], hnames=hnames, hs=hs, hfirst=c["first"], hgen=c["gen"],
                openinit=c["openinit"], maxops=c["maxops"], maxsize=c["maxsize"], hwrite=c["write"], hread=c["read"], vals=V.vals, num=num, ev=ev)


HASHNAMES = {"DATASTORE_0": "ZERO", "RANK_MOD_DATASTORES": "RANK", "SUM_MOD_DATASTORES": "SUM", "UTHASH_BER": "BER", "UTHASH_SAX": "SAX", "UTHASH_FNV": "FNV",
             "UTHASH_OAT": "OAT", "UTHASH_JEN": "JEN", "UTHASH_SFH": "SFH"}


def num(s):
    try:
        return max(-10**9, min(10**9, int(s)))
    except ValueError:
        return 0


def unit(sc, events):
    """the form HxUnit.tla reads"""
    c = sc.config()
    V = Values()
    ev = []
    fresh = set()
    for e in events:
        k = e["e"]
        x = {"e": k, "no": e["no"]}
        if k == "op":
            x.update(r=e["r"], k=e["k"], s=V.of(e["s"]), p=V.of(e["p"]), o=V.of(e["o"]), h=e["h"], rc=e["rc"], open=e["open"])
        elif k == "ret":
            x.update(r=e["r"], f=e["f"], a=e["a"], null=e["null"], hold=e["hold"], res=V.rows(e["res"]) if e["hold"] else [])
        elif k in ("append", "rlappend"):
            x.update(r=e["r"], to=e["to"], **{"from": e["from"]})
        elif k in ("recheck", "newres"):
            x.update(r=e["r"], hold=e["hold"])
        elif k == "rl":
            h = e["h"]
            x.update({f: e[f] for f in ("r", "hold", "what", "nul", "cpp", "list", "rc", "touched", "v", "k")}, x=V.res(e["x"]),
                     hn=V.id(7, h["name"]), hb=[as_int(order_key_to_double(y)) for y in h["b"]], hc=h["c"])
        elif k == "life":
            x.update(r=e["r"], f=e["f"], rc=e["rc"])
            if e["f"] == "init":
                fresh.add(e["r"])
        elif k == "cfg":
            x.update(r=e["r"], has=e["has"], c=e["c"], first=e["r"] in fresh)
            fresh.discard(e["r"])
        elif k == "set":
            x.update(r=e["r"], o=e["o"], a=e["a"], n=[num(y) for y in e["a"]], rc=e["rc"], has=e["has"], c=e["c"])
            fresh.discard(e["r"])
        elif k == "hashes":
            full = max(len(e["s"]["b"]), len(e["p"]["b"])) <= 40    # longer ones are recorded in short
            x.update(r=e["r"], s=V.of(e["s"]), p=V.of(e["p"]), sb=e["s"]["b"] if full else [], pb=e["p"]["b"] if full else [], h=e["h"])
        elif k == "havehist":
            x.update(r=e["r"], name=V.id(7, e["name"]), text=bytes(e["name"]).decode("latin-1"), rc=e["rc"], ex=e["ex"])
        elif k in ("ids", "elens", "elen", "info", "nullcalls", "badargs", "bufs", "wire"):
            x.update({f: e[f] for f in e if f not in ("e", "no")})
        elif k in ("phase", "crash", "hang"):
            pass
        else:
            continue
        ev.append(x)
    words = [w for r, w in sc.opts] + [w[1:] for p in sc.phases for r, w in p if w[0] == "set"]
    disk = {"rocks" if w[0] == "rocks" else "level" for w in words if w[0] in ("rocks", "level")}
    if not all(any(w[0] in ("mem", "rocks") for q, w in sc.opts if q in (r, "*")) for r in range(c["ranks"])):
        disk.add("level")
    name = "RANK"
    for r, w in sc.opts:
        if w[0] == "hash":
            name = HASHNAMES.get(w[1], name)
        elif w[0] == "hashfn":
            name = "user"
    if any(w[0] == "chhash" or w[0] == "set" and w[1] in ("hash", "hashfn") for p in sc.phases for r, w in p):
        name = "user"
    return dict(id=sc.id, ranks=c["ranks"], client=c["client"], server=c["server"], per=c["per"], fp=c["fp"], dp=c["dp"], hash=name, backends=len(disk),
                hnames=[V.id(7, n) for n in c["names"]], files=[[a, b] for a, b in sc.files], env=[[a, b] for a, b in sc.env], ev=ev or [{"e": "none", "no": 0}])


def transport(sc, events):
    """the form TransportTrace.tla reads"""
    c = sc.config()
    ev = []
    for e in events:
        k = e["e"]
        x = {"e": k, "no": e["no"]}
        if k in ("isend", "match"):
            if e.get("dir") == -9:
                raise ValueError("messages cannot be read: harness/wire.cpp does not fit the library")
            x.update({f: e.get(f, -1) for f in ("src", "dst", "tag", "id", "len", "val", "sum", "dir", "op", "msrc", "mdst", "cnt")})
        elif k in ("call", "ret", "lifecall"):
            x.update(r=e["r"])
        elif k == "life":
            x.update(r=e["r"], f=e["f"])
        elif k == "leftovers":
            x.update(n=len(e["m"]))
        elif k not in ("trunc", "lost", "crash", "hang", "end"):
            continue
        ev.append(x)
    return dict(id=sc.id, ranks=c["ranks"], client=c["client"], server=c["server"], per=c["per"], async_=c["async_"] > 0, maxops=c["maxops"], maxsize=c["maxsize"], ev=ev)
