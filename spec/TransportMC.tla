---------------------------- MODULE TransportMC -----------------------------
\* How the library carries out the exchanges: threads of clients (one for the
\* user's calls, one for background PUTs), listener threads of range servers, and
\* an MPI whose sends complete at once or only when they are received. TLC
\* searches all interleavings; every step is one of Transport or invisible.
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS
    N,          \* ranks
    C,          \* ranks that start exchanges
    S,          \* ranks with a range server
    L,          \* listeners of each range server
    B,          \* ranks with a background thread
    Rounds,     \* exchanges each thread starts
    Exclusive,  \* only one exchange of a rank at a time (TRUE in the library)
    SendsLast   \* requests complete after their responses arrived (TRUE in the library)

Ranks == 0..(N - 1)
Clients == {<<r, "user", 0>> : r \in Ranks} \cup {<<r, "background", 0>> : r \in B}
Listeners == {<<r, "listener", i>> : r \in S, i \in 1..L}

VARIABLES
    net, ex,    \* as seen by Transport
    wait,       \* messages whose sender still waits: <<sender, message>>
    pc,         \* what each thread is doing
    todo,       \* servers a client thread still expects something of: server -> tag
    peer,       \* the client a listener is talking to, and its exchange
    left,       \* exchanges a client thread has not started yet
    lock,       \* the thread of a rank that is communicating
    running,    \* ranks that were not closed
    wrong       \* a message reached a thread that did not ask for it

vars == <<net, ex, wait, pc, todo, peer, left, lock, running, wrong>>
T == INSTANCE Transport

Init ==
    /\ net = {} /\ ex = <<>> /\ wait = {}
    /\ pc = [t \in Clients \cup Listeners |-> IF t \in Clients THEN "idle" ELSE "size"]
    /\ todo = [t \in Clients |-> <<>>]
    /\ peer = [t \in Listeners |-> <<>>]
    /\ left = [t \in Clients |-> IF t[1] \in C THEN Rounds ELSE 0]
    /\ lock = [r \in Ranks |-> <<>>]
    /\ running = [r \in Ranks |-> TRUE]
    /\ wrong = FALSE

\* ------------------------------------------------------------ MPI
\* messages of one rank to another with the same tag arrive in order
Channel(src, dst, tag) == {m \in net : m.src = src /\ m.dst = dst /\ m.tag = tag}
Oldest(m) == \A n \in Channel(m.src, m.dst, m.tag) : m.id <= n.id
Message(src, dst, tag, of) ==
    LET M == Channel(src, dst, tag) IN
    [src |-> src, dst |-> dst, tag |-> tag, of |-> of, id |-> IF M = {} THEN 0 ELSE 1 + CHOOSE i \in {n.id : n \in M} : \A n \in M : n.id <= i]
\* the buffer of a message is read when it is sent or when it is received
Sent(t, m) == T!Sent(m) /\ \E blocks \in BOOLEAN : wait' = IF blocks THEN wait \cup {<<t, m>>} ELSE wait
Received(m) == Oldest(m) /\ T!Received(m) /\ wait' = {w \in wait : w[2] # m}
Pending(t) == \E w \in wait : w[1] = t

\* ------------------------------------------------------------ clients
This(t) == <<t, left[t]>>       \* the exchange a client thread is in

Start(t) ==
    /\ pc[t] = "idle" /\ left[t] > 0
    /\ Exclusive => lock[t[1]] = <<>>
    /\ \E D \in SUBSET (S \ {t[1]}) :
          /\ pc' = [pc EXCEPT ![t] = "send"]
          /\ todo' = [todo EXCEPT ![t] = [d \in D |-> T!ReqSize]]
    /\ lock' = IF Exclusive THEN [lock EXCEPT ![t[1]] = t] ELSE lock
    /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ UNCHANGED <<net, ex, wait, peer, running, wrong>>

\* requests are sent one after the other (without waiting for them)
SendNext(t) ==
    /\ pc[t] = "send"
    /\ IF \A d \in DOMAIN todo[t] : todo[t][d] = T!RespSize
       THEN /\ pc' = [pc EXCEPT ![t] = IF SendsLast THEN "recv" ELSE "sends"]
            /\ UNCHANGED <<net, ex, wait, todo>>
       ELSE LET d == CHOOSE x \in DOMAIN todo[t] : todo[t][x] < T!RespSize /\ \A y \in DOMAIN todo[t] : y < x => todo[t][y] = T!RespSize IN
            /\ Sent(t, Message(t[1], d, todo[t][d], This(t)))
            /\ todo' = [todo EXCEPT ![t][d] = @ + 1]
            /\ UNCHANGED pc
    /\ UNCHANGED <<peer, left, lock, running, wrong>>

\* the responses of all servers, in any order
RecvSome(t) ==
    /\ pc[t] = "recv" /\ DOMAIN todo[t] # {}
    /\ \E m \in net :
          /\ m.dst = t[1] /\ m.src \in DOMAIN todo[t] /\ m.tag = todo[t][m.src]
          /\ Received(m)
          /\ wrong' = (wrong \/ m.of # This(t))
          /\ todo' = [todo EXCEPT ![t] = IF m.tag = T!RespSize THEN [@ EXCEPT ![m.src] = T!Resp]
                                         ELSE [d \in DOMAIN @ \ {m.src} |-> @[d]]]
    /\ UNCHANGED <<pc, peer, left, lock, running>>

Leave(t) == /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ lock' = IF Exclusive THEN [lock EXCEPT ![t[1]] = <<>>] ELSE lock
Finish(t) ==
    /\ pc[t] = "recv" /\ DOMAIN todo[t] = {}
    /\ IF SendsLast THEN pc' = [pc EXCEPT ![t] = "sends"] /\ UNCHANGED lock ELSE Leave(t)
    /\ UNCHANGED <<net, ex, wait, todo, peer, left, running, wrong>>
Sends(t) ==
    /\ pc[t] = "sends" /\ ~Pending(t)
    /\ IF SendsLast THEN Leave(t) ELSE pc' = [pc EXCEPT ![t] = "recv"] /\ UNCHANGED lock
    /\ UNCHANGED <<net, ex, wait, todo, peer, left, running, wrong>>

\* everything is done: the background thread ends, the user's thread meets the others
AtEnd(t) == pc[t] = "idle" /\ left[t] = 0
Stop(t) ==
    /\ AtEnd(t) /\ t[2] = "background"
    /\ pc' = [pc EXCEPT ![t] = "stopped"]
    /\ UNCHANGED <<net, ex, wait, todo, peer, left, lock, running, wrong>>
Barrier(t) ==
    /\ AtEnd(t) /\ t[2] = "user"
    /\ t[1] \in B => pc[<<t[1], "background", 0>>] = "stopped"
    /\ pc' = [pc EXCEPT ![t] = "barrier"]
    /\ UNCHANGED <<net, ex, wait, todo, peer, left, lock, running, wrong>>
\* after the barrier each rank stops its own threads
Close(t) ==
    /\ pc[t] = "barrier" /\ \A r \in Ranks : pc[<<r, "user", 0>>] \in {"barrier", "stopped"}
    /\ pc' = [pc EXCEPT ![t] = "stopped"]
    /\ running' = [running EXCEPT ![t[1]] = FALSE]
    /\ UNCHANGED <<net, ex, wait, todo, peer, left, lock, wrong>>

\* ------------------------------------------------------------ listeners
LSize(t) ==
    /\ pc[t] = "size" /\ running[t[1]]
    /\ \E m \in net : m.dst = t[1] /\ m.tag = T!ReqSize /\ Received(m) /\ peer' = [peer EXCEPT ![t] = <<m.src, m.of>>]
    /\ pc' = [pc EXCEPT ![t] = "data"]
    /\ UNCHANGED <<todo, left, lock, running, wrong>>
LData(t) ==
    /\ pc[t] = "data" /\ running[t[1]]
    /\ \E m \in net : m.dst = t[1] /\ m.src = peer[t][1] /\ m.tag = T!Req /\ Received(m) /\ wrong' = (wrong \/ m.of # peer[t][2])
    /\ pc' = [pc EXCEPT ![t] = "respond"]
    /\ UNCHANGED <<todo, peer, left, lock, running>>
Respond(t, tag, then) ==
    /\ Sent(t, Message(t[1], peer[t][1], tag, peer[t][2]))
    /\ pc' = [pc EXCEPT ![t] = then]
    /\ UNCHANGED <<todo, peer, left, lock, running, wrong>>
LRespond(t) == pc[t] = "respond" /\ Respond(t, T!RespSize, "sizesent")
LRespond2(t) == pc[t] = "sizesent" /\ running[t[1]] /\ ~Pending(t) /\ Respond(t, T!Resp, "datasent")
LDone(t) ==
    /\ pc[t] = "datasent" /\ running[t[1]] /\ ~Pending(t)
    /\ pc' = [pc EXCEPT ![t] = "size"]
    /\ peer' = [peer EXCEPT ![t] = <<>>]
    /\ UNCHANGED <<net, ex, wait, todo, left, lock, running, wrong>>
\* a listener only looks at the state of its rank while it waits
LStop(t) ==
    /\ pc[t] \in {"size", "data", "sizesent", "datasent"} /\ ~running[t[1]]
    /\ pc' = [pc EXCEPT ![t] = "stopped"]
    /\ UNCHANGED <<net, ex, wait, todo, peer, left, lock, running, wrong>>

Finished == \A t \in Clients \cup Listeners : pc[t] = "stopped"
Next ==
    \/ \E t \in Clients : Start(t) \/ SendNext(t) \/ RecvSome(t) \/ Finish(t) \/ Sends(t) \/ Stop(t) \/ Barrier(t) \/ Close(t)
    \/ \E t \in Listeners : LSize(t) \/ LData(t) \/ LRespond(t) \/ LRespond2(t) \/ LDone(t) \/ LStop(t)
    \/ Finished /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------ what is checked
TypeOK == T!TypeOK
Belongs == T!Belongs
OneEach == T!OneEach
Paired == ~wrong                                        \* every response reaches the call that sent its request
NothingLost == Finished => T!Quiet                      \* no message is left, no exchange is unfinished
Done == <>Finished                                      \* and the shutdown ends
\* every step that touches messages is a step of the protocol
Protocol == [][(\E m \in net' : T!Send(m)) \/ (\E m \in net : T!Receive(m))]_<<net, ex>>
=============================================================================
