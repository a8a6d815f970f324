----------------------------- MODULE Transport ------------------------------
\* The exchanges between clients and range servers on different ranks.
\*
\* An exchange consists of four messages: the size of the request, the request,
\* the size of the response, the response. A client has at most one exchange
\* with a range server at a time; exchanges of different pairs are independent.
EXTENDS Integers, FiniteSets, Sequences

VARIABLES
    net,        \* messages that were sent and not received: records with src, dst, tag, id
    ex          \* <<client, server>> -> the last exchange of the two: number of messages
                \* sent and received, and what they announced

ReqSize == 0  Req == 1  RespSize == 2  Resp == 3
Tags == ReqSize..Resp

\* who is the client, who the server
Pair(m) == IF m.tag \in {ReqSize, Req} THEN <<m.src, m.dst>> ELSE <<m.dst, m.src>>
Idle == [sent |-> 0, got |-> 0]
Exchange(p) == IF p \in DOMAIN ex THEN ex[p] ELSE Idle
Over(x) == x.sent = x.got /\ x.got \in {0, 4}

\* the next message of an exchange: requests are sent ahead, responses only to requests that were received
MaySend(m) ==
    LET x == Exchange(Pair(m)) IN
    CASE m.tag = ReqSize -> Over(x)
      [] m.tag = Req -> x.sent = 1
      [] m.tag = RespSize -> x.sent = 2 /\ x.got = 2
      [] m.tag = Resp -> x.sent = 3 /\ x.got >= 2
Put_(p, x) == [q \in DOMAIN ex \cup {p} |-> IF q = p THEN x ELSE ex[q]]
Sent(m) ==
    /\ net' = net \cup {m}
    /\ ex' = Put_(Pair(m), [Exchange(Pair(m)) EXCEPT !.sent = m.tag + 1, !.got = IF m.tag = ReqSize THEN 0 ELSE @])
Send(m) == MaySend(m) /\ Sent(m)

\* messages are received in the order in which they were sent
MayReceive(m) == m \in net /\ Exchange(Pair(m)).got = m.tag
Received(m) ==
    /\ net' = net \ {m}
    /\ ex' = Put_(Pair(m), [Exchange(Pair(m)) EXCEPT !.got = m.tag + 1])
Receive(m) == MayReceive(m) /\ Received(m)

\* nothing is left over
Quiet == net = {} /\ \A p \in DOMAIN ex : Over(ex[p])

TypeOK ==
    /\ \A m \in net : m.tag \in Tags /\ m.src # m.dst
    /\ \A p \in DOMAIN ex : ex[p].got \in 0..4 /\ ex[p].sent \in 1..4 /\ ex[p].got <= ex[p].sent
\* every message belongs to an exchange that waits for it
Belongs == \A m \in net : LET x == Exchange(Pair(m)) IN x.got <= m.tag /\ m.tag < x.sent
OneEach == \A m, n \in net : Pair(m) = Pair(n) /\ m.tag = n.tag => m = n
=============================================================================
