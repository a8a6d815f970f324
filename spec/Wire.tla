-------------------------------- MODULE Wire --------------------------------
\* What a message carries from its sender to its receiver.
EXTENDS Integers, Sequences

Ops == [put |-> 0, get |-> 1, getop |-> 2, del |-> 3, hist |-> 5]
REQUEST == 1  RESPONSE == 2
Done == 1               \* status of an operation that succeeded
FromEnd(g) == g \in {3, 4}      \* first and last need no key

\* entry y at the receiver for entry x at the sender
KeyKept(x, y) == y.s = x.s /\ y.p = x.p /\ y.rs /\ y.rp
RequestKept(k, x, y) ==
    CASE k = "put" -> KeyKept(x, y) /\ y.o = x.o
      [] k = "get" -> KeyKept(x, y) /\ y.ot = x.ot
      [] k = "getop" -> /\ y.ot = x.ot /\ y.n = x.n /\ y.g = x.g
                        /\ FromEnd(x.g) \/ (y.s = x.s /\ y.p = x.p)
      [] k = "del" -> KeyKept(x, y)
      [] k = "hist" -> y.s.b = x.s.b /\ y.s.l = x.s.l

\* a histogram: the values it still collects, or its buckets
HistKept(x, y) ==
    /\ x.name = y.name /\ x.len = y.len /\ x.first = y.first
    /\ x.n = y.n /\ x.b = y.b /\ x.c = y.c
    /\ x.n = 0 => x.cache = y.cache

ResponseKept(k, x, y) ==
    /\ y.st = x.st
    /\ CASE k \in {"put", "del"} -> KeyKept(x, y)
         [] k = "get" -> KeyKept(x, y) /\ (x.st = Done => y.o = x.o)
         [] k = "getop" -> /\ y.n = x.n /\ Len(y.rec) = Len(x.rec)
                           /\ \A i \in 1..Len(x.rec) :
                                 /\ y.rec[i][1] = x.rec[i][1] /\ y.rec[i][2] = x.rec[i][2]
                                 /\ x.st = Done => y.rec[i][3] = x.rec[i][3]
         [] k = "hist" -> x.st = Done => HistKept(x.h, y.h)

WireOk(e) ==
    /\ e.ok                             \* it can be packed
    /\ e.filled = Len(e.in)
    /\ e.len = e.size                   \* in the announced size,
    /\ e.holes = 0 /\ e.beyond = 0      \* no more and no less,
    /\ e.same                           \* into any buffer;
    /\ e.uok /\ ~e.wrong                \* and only unpacked as what it is
    /\ e.out.dir = IF e.req THEN REQUEST ELSE RESPONSE
    /\ e.out.op = Ops[e.k] /\ e.out.src = e.src /\ e.out.dst = e.dst
    /\ e.out.cnt = Len(e.in) /\ Len(e.out.entries) = Len(e.in)
    /\ \A i \in 1..Len(e.in) : IF e.req THEN RequestKept(e.k, e.in[i], e.out.entries[i]) ELSE ResponseKept(e.k, e.in[i], e.out.entries[i])
=============================================================================
