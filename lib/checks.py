"""Which parts make up the check of each property."""
import os
import shutil

import behav
import conv
import core
import gen
import genunit
import models
import run

# property -> [(family, scenarios in the quick tier)]
TRACES = {
    "C01": [("C01", 220), ("CGSTORE", 300)],
    "C02": [("C02", 220), ("CPAIRS", 80)],
    "C03": [("C03", 220), ("CMASKS", 60)],
    "C04": [("C04", 260), ("CROWD", 3), ("CWALK", 120)],
    "C05": [("C05", 220), ("CROWD", 3), ("CWIDE", 40), ("CGFLUSH", 300), ("CGRANKCALLS", 60)],
    "C06": [("C06", 220), ("CLONG", 16), ("CGORDER", 300)],
    "C07": [("C07", 260), ("CROWD", 3), ("CGRANKS", 150), ("CRUSH", 60), ("CWIDE", 60)],
    "C09": [("CSTART", 40), ("C09", 160), ("CLONG", 12), ("CASYNC", 4), ("CGBACKGROUND", 150)],
    "C11": [("C11", 160), ("CGCRASH", 200)],
    "C12": [("C12", 140), ("CONE", 50), ("CGNAMES", 150), ("CGHISTNAMES", 80)],
    "C13": [("C13", 40), ("CGCONF", 40)],
    "C14": [("C14", 220), ("CGHISTS", 250)],
    "C15": [("C07", 80), ("CWIDE", 40)],
    "C21": [("C21", 120), ("CGBULKED", 150)],
    "C22": [("C22", 160), ("CGHELD", 120)],
}

# property -> [(family, scenarios in the quick tier, modules)]; T: HxTrace, U: HxUnit, M: TransportTrace
UNITS = {
    "C08": [("C08", 110, "MT"), ("C07", 60, "M"), ("C09", 60, "M"), ("CWIDE", 40, "M")],
    "C10": [("c10ids", 24, "U"), ("c10", 120, "UT"), ("CWIDE", 40, "T")],
    "C15": [("c15", 240, "U")],
    "C16": [("c16", 300, "U"), ("c16e", 120, "UT")],
    "C17": [("c17", 140, "UT")],
    "C18": [("C18", 140, "MT"), ("C06", 60, "T"), ("CROWD", 4, "MT")],
    "C19": [("c19", 420, "U")],
    "C20": [("c20", 500, "U"), ("c20s", 160, "UT")],
}

MODELS = models.MODELS


def traces(R, work, seed, deep=False, scale=1.0):
    scns = []
    for fam, n in TRACES.get(R.prop, []):
        scns += gen.make(fam, seed, max(1, int(n * scale)), deep)
    behav.coverage(R)
    if scns:
        core.check_scenarios(R, scns, work)
    for fam, n, mods in UNITS.get(R.prop, []):
        # (the exhaustive part does not depend on the seed)
        scns = (gen if fam in gen.FAMILIES else genunit).make(fam, seed, max(1, int(n * scale)), deep)
        w = os.path.join(work, fam)
        os.makedirs(w, exist_ok=True)
        evs = None
        for m, module, convert in (("U", "HxUnit", conv.unit), ("M", "TransportTrace", conv.transport), ("T", "HxTrace", conv.convert)):
            if m == "M":
                for s in scns:
                    s.msglog = s.msglog or m in mods
            if m in mods:
                evs = core.check_scenarios(R, scns, w, module, convert, evs=evs)


def check(prop, tier, seed, budget):
    R = core.Report(prop, tier, seed)
    base = os.path.join(run.VERIF, "build", "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(base, exist_ok=True)
    try:
        for m in MODELS.get(prop, []):
            m(R, tier)
        k = 0
        while True:
            w = os.path.join(base, "round%d" % k)
            os.makedirs(w, exist_ok=True)
            traces(R, w, seed + 1000 * k, deep=k > 0 and k % 3 == 0)
            k += 1
            if R.violations or tier == "quick" or R.elapsed() > budget:
                break
            shutil.rmtree(w, ignore_errors=True)
        R.add(rounds=k)
        return core.finish(R, "model_checking")
    finally:
        shutil.rmtree(base, ignore_errors=True)

CLAIMED = sorted(set(TRACES) | set(UNITS) | set(MODELS))

HXT = "TLA+: TLC validates recorded histories of the real library against the state machine Hxhim/HxStore (HxTrace)"
UNI = "TLA+: TLC evaluates the executable specification on recorded calls of the real code (HxUnit)"
MSG = "TLA+: message logs of the real MPI transport validated by TLC against the exchange protocol (TransportTrace)"
GEN = "; programs are random or generated by TLC from the specification (HxGen: every small state and command)"
MC = "; TLC searches %s exhaustively"
TRUST = (" Bounds: histories of seeded random programs (values short, a few ranks, a few dozen operations; 'thorough' repeats with new seeds for 10 minutes) and the constants of the "
         "model runs. Trusted: the recording driver, the simulated MPI (ranks are threads), the translation of recordings to JSON, TLC.")


def _n(t): return t + TRUST


TECHNIQUE = {
    "C01": (HXT + GEN + MC % "HxMC", _n("PUT/GET/DELETE programs with overwrites on all backends; every answer must be the one of the specified store.")),
    "C02": (HXT + MC % "HxMC", _n("Adversarial splits, types and lengths; the specification's key function is injective by construction, the code's answers must agree with it.")),
    "C03": (HXT + MC % "ElenMC", _n("All 64 masks; which records exist is checked by reading all pairs of the written values.")),
    "C04": (HXT + MC % "StoreMC", _n("Stores of random keys, all operators, prefixes and limits; StoreMC proves the specification's walks right on all small stores.")),
    "C05": (HXT + GEN + MC % "HxMC", _n("Batches of failing and succeeding operations over batch limits, datastores, ranks; each result must be explained by its operation.")),
    "C06": (HXT + GEN + MC % "HxMC", _n("All flush calls between queueing calls; the specification executes exactly the covered categories in order.")),
    "C07": (HXT + GEN + MC % "HxMC", _n("2-4 ranks over a simulated MPI with random delivery order, eager or rendezvous sends and thread yields; TLC looks for a linearisation.")),
    "C08": (MSG + " and histories (HxTrace)" + MC % "TransportMC", _n("Each sent and received message must be a step of the protocol, nothing left over at shutdown; hangs are violations; the model covers all interleavings of 2-4 ranks, listeners and background threads.")),
    "C09": (HXT + GEN + MC % "AsyncPut (with fairness) and HxMC", _n("Caller and background thread under perturbed schedules; that the background starts by itself is observed by polling (20 s).")),
    "C10": (UNI + " and histories (HxTrace)" + MC % "IdsMC", _n("Mappings compared with Ids for all ratios up to the bound; locations, hashes and routing of the real library must agree with them and between ranks.")),
    "C11": (HXT + GEN + MC % "HxMC with crashes", _n("Sessions closed, reopened and killed (SIGKILL-like exit at random points); after a crash any state between the last sync and the crash is accepted. Power loss is not covered.")),
    "C12": (HXT + GEN + MC % "HxMC", _n("Sequences of name and hash changes and single-datastore sessions mixed with operations.")),
    "C13": (HXT + GEN + MC % "HxMC", _n("One program under up to ten configurations; each history must be one of the same configuration independent specification.")),
    "C14": (HXT + GEN + MC % "HistoMC and HxMC", _n("Values around bucket edges, all generators, first-N, restarts; counts and edges must be those of Histo. Values and edges are compared in eighths.")),
    "C15": (UNI + " and histories (HxTrace)", _n("Messages of every kind, built in every way, packed and unpacked by the real code; sizes, contents and announced sizes must agree with Wire.")),
    "C16": (UNI + " and histories (HxTrace)" + MC % "ElenMC", _n("Encodings of lists of numbers: order, equality, decoding, and byte-exact integer encodings from the executable specification Elen.")),
    "C17": (UNI + " and histories (HxTrace)", _n("Sequences of cursor moves, accessors, appends through both interfaces must be steps of Cursor.")),
    "C18": (HXT + " and message logs (TransportTrace)", _n("Division of queues into requests and the sizes of the requests that were really sent, for all limits generated.")),
    "C19": (UNI, _n("Effective options after initialisation from files and environment must be the ones Config computes from the same sources.")),
    "C20": (UNI + " and histories (HxTrace)", _n("Sequences of lifecycle calls, setters and operations; return codes and options must be those of Session and Config; misuse must leave queues unchanged.")),
    "C21": (HXT + GEN, _n("Single, bulk and typed calls mixed; all of them are the same actions of the specification.")),
    "C22": (HXT + GEN + MC % "HxMC", _n("Results are read again after later operations and buffers released or overwritten; the driver is built with AddressSanitizer and any report is a violation.")),
}
NOT_YET = {}
