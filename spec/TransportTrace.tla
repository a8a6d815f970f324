--------------------------- MODULE TransportTrace ---------------------------
\* Recorded messages of the real library, checked against Transport: every send
\* and every receipt has to be a step of the protocol, and what the messages say
\* has to agree.
EXTENDS Transport, Ids, TLC, Json, IOUtils

Traces == TLCGet(1)
ASSUME TLCSet(1, JsonDeserialize(IOEnv.HX_INPUT))
NT == Len(Traces)

VARIABLES t, l,
    info,       \* <<client, server>> -> what the messages of the exchange said
    busy        \* ranks inside a call
vars == <<t, l, net, ex, info, busy>>

T == Traces[t]
E == T.ev[l]
Ranks == 0..(T.ranks - 1)

Init ==
    /\ t \in 1..NT /\ l = 1
    /\ net = {} /\ ex = <<>> /\ info = <<>> /\ busy = {}

MessageOf(e) == [src |-> e.src, dst |-> e.dst, tag |-> e.tag, id |-> e.id, len |-> e.len, sum |-> e.sum]
Info(m) == IF Pair(m) \in DOMAIN info THEN info[Pair(m)] ELSE [len |-> 0, op |-> 0, cnt |-> 0, ds |-> 0, rlen |-> 0]
Learn(m, i) == info' = [q \in DOMAIN info \cup {Pair(m)} |-> IF q = Pair(m) THEN i ELSE info[q]]

REQUEST == 1  RESPONSE == 2

Overhead == 64      \* what a request and each of its entries need besides data

\* what a message says, given what was said before
Says(e, m, i) ==
    CASE m.tag = ReqSize -> e.len = 8 /\ Learn(m, [i EXCEPT !.len = e.val])
      [] m.tag = Req ->
            /\ e.len = i.len                                        \* as announced
            /\ e.dir = REQUEST /\ e.msrc = m.src
            \* for a datastore of that rank; at least one operation, not more than allowed
            /\ DsRank(e.mdst, T.ranks, T.client, T.server, T.per) = m.dst
            /\ e.cnt >= 1 /\ e.cnt <= T.maxops
            /\ e.cnt > 1 /\ T.maxsize > 0 => e.len <= T.maxsize + Overhead
            /\ Learn(m, [i EXCEPT !.op = e.op, !.cnt = e.cnt, !.ds = e.mdst])
      [] m.tag = RespSize -> e.len = 8 /\ Learn(m, [i EXCEPT !.rlen = e.val])
      [] m.tag = Resp ->
            /\ e.len = i.rlen
            /\ e.dir = RESPONSE /\ e.msrc = i.ds /\ e.mdst = m.dst    \* from the datastore, to the requester
            /\ e.op = i.op /\ e.cnt = i.cnt                          \* for all the operations
            /\ UNCHANGED info

Mine(r) == {p \in DOMAIN ex : p[1] = r}
AllOver(r) == \A p \in Mine(r) : Over(ex[p])

Step(e) ==
    CASE e.e = "isend" ->
            LET m == MessageOf(e) IN
            /\ m.tag \in Tags /\ m.dst \in Ranks \ {m.src}
            /\ IsServer(Pair(m)[2], T.client, T.server)
            /\ T.async_ \/ Pair(m)[1] \in busy      \* part of the call that needs it
            /\ Send(m) /\ Says(e, m, Info(m)) /\ UNCHANGED busy
      [] e.e = "match" ->
            LET m == MessageOf(e) IN
            /\ m \in net        \* as it was sent: the buffer was still valid
            /\ \A n \in net : n.src = m.src /\ n.dst = m.dst /\ n.tag = m.tag => m.id <= n.id
            /\ Receive(m) /\ UNCHANGED <<info, busy>>
      [] e.e \in {"trunc", "lost", "hang", "crash"} -> FALSE
      [] e.e \in {"call", "lifecall"} -> busy' = busy \cup {e.r} /\ UNCHANGED <<net, ex, info>>
      [] e.e = "ret" -> /\ T.async_ \/ AllOver(e.r)
                        /\ busy' = busy \ {e.r} /\ UNCHANGED <<net, ex, info>>
      [] e.e = "life" -> /\ e.f = "close" => AllOver(e.r)
                         /\ busy' = busy \ {e.r} /\ UNCHANGED <<net, ex, info>>
      [] e.e = "leftovers" -> e.n = 0 /\ Quiet /\ UNCHANGED <<net, ex, info, busy>>
      [] OTHER -> UNCHANGED <<net, ex, info, busy>>

Next == l <= Len(T.ev) /\ Step(E) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ checking
Reg(i) == 100 + i
ASSUME \A i \in 1..NT : TLCSet(Reg(i), 0)
Progress == IF l > TLCGet(Reg(t)) THEN TLCSet(Reg(t), l) ELSE TRUE
Report ==
    /\ \A i \in 1..NT : LET g == TLCGet(Reg(i)) IN
          IF g = Len(Traces[i].ev) + 1 THEN TRUE ELSE PrintT(<<"REJECT", Traces[i].id, -1, g, Traces[i].ev[g].no>>)
    /\ PrintT(<<"CHECKED", NT>>)
=============================================================================
