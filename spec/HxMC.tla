-------------------------------- MODULE HxMC --------------------------------
\* Model checking of Hxhim: a few ranks queue operations of a small menu, flush,
\* meet, close, open again and are killed, in every order. Ghost variables record
\* what was executed, so that what users rely on can be said without the state
\* that Hxhim itself uses.
EXTENDS Hxhim

CONSTANTS
    NR,         \* ranks; the first one owns the datastore
    Async,      \* queued PUTs are executed in the background as well
    Mem,        \* contents do not survive closing
    Kills,      \* how often the process may be killed
    Tracked,    \* names of histograms are tracked
    Kinds,      \* kinds of operations
    MaxOps,     \* operations each rank queues
    Calls,      \* flushes and collective calls
    MaxCalls,   \* calls each rank makes (besides closing)
    Opens       \* sessions of each rank

Ranks == 0..(NR - 1)

\* ------------------------------------------------------------ values
BVal(b) == [t |-> BYTE, b |-> b, e |-> <<>>, d |-> b]
FVal(n) == LET b == <<n, 0, 0, 0, 0, 0, 0, 0>> IN [t |-> DOUBLE, b |-> b, e |-> <<58, 48 + n>>, d |-> b]
Values == <<BVal(<<97>>), BVal(<<98>>), FVal(5), BVal(<<120>>), BVal(<<72>>), FVal(7)>>
A == 1  B == 2  Five == 3  X == 4  HS == 5  Seven == 6

Names == IF Tracked THEN {B} ELSE {}
World == TLCGet(1)
ASSUME TLCSet(1, TLCEval(
    MkWorld([neg |-> 47, pos |-> 58, xor |-> {}, fail |-> {}], Values, {<<A, B>>, <<B, A>>} \cup {<<HS, n>> : n \in Names})
    @@ [ranks |-> Ranks, owner |-> 0, mem |-> Mem, async |-> Async, crash |-> Kills > 0,
        hist |-> [first |-> 1, gen |-> "tens3", names |-> Names, write |-> TRUE, read |-> TRUE],
        hs |-> HS, num |-> <<NotInt, NotInt, 40, NotInt, NotInt, 120>>]))

Menu == {e \in
    {[k |-> "PUT", s |-> A, p |-> B, o |-> Five], [k |-> "PUT", s |-> A, p |-> B, o |-> Seven], [k |-> "PUT", s |-> B, p |-> A, o |-> X],
     [k |-> "GET", s |-> A, p |-> B, o |-> 0], [k |-> "DELETE", s |-> A, p |-> B, o |-> 0],
     [k |-> "GETOP", s |-> A, p |-> 0, o |-> 0, g |-> NEXT, n |-> 2, tp |-> BYTE],
     [k |-> "HIST", p |-> B]} : e.k \in Kinds}

\* ------------------------------------------------------------ ghosts
VARIABLES
    log,        \* writes in the order of their execution: [b, k, s, p, o] with the name of the datastore
    durable,    \* so many of them must survive
    ids,        \* rank -> number of operations queued (an operation's id is its number)
    from,       \* rank -> the same when the session was opened
    done,       \* rank -> ids of the operations executed in this session, in order
    given,      \* rank -> ids of the operations whose results were returned
    calls, opens, kills,    \* what happened so far
    upto,       \* rank -> number of operations queued when it reached a collective point
    coll, cn,   \* collective calls of this session (the ranks have to agree), and how many each rank started
    right       \* every result was what it should be

ghosts == <<log, durable, ids, from, done, given, calls, opens, kills, upto, coll, cn, right>>
vars == <<hvars, ghosts>>

Init ==
    /\ InitHxhim(Ranks)
    /\ log = <<>> /\ durable = 0
    /\ ids = [r \in Ranks |-> 0] /\ from = [r \in Ranks |-> 0]
    /\ done = [r \in Ranks |-> <<>>] /\ given = [r \in Ranks |-> <<>>]
    /\ calls = [r \in Ranks |-> 0] /\ opens = [r \in Ranks |-> 0] /\ kills = 0
    /\ upto = [r \in Ranks |-> 0]
    /\ coll = <<>> /\ cn = [r \in Ranks |-> 0]
    /\ right = TRUE

\* what the last write to a key among the first n left there
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
LastWrite(b, key, n) ==
    LET S == {i \in 1..n : log[i].b = b /\ Key(World, log[i].s, log[i].p) = key}
    IN  IF S = {} THEN None ELSE log[MaxOf(S)].o
Write(e) == log' = IF e.k \in {"PUT", "DELETE"} THEN Append(log, [b |-> base, k |-> e.k, s |-> e.s, p |-> e.p, o |-> e.o]) ELSE log

\* ------------------------------------------------------------ steps
MOpen(r) ==
    /\ opens[r] < Opens
    /\ \A x \in Ranks : (opens[x] = opens[r] /\ ses[x] = "none") \/ opens[x] = opens[r] + 1
    /\ Open(World, r, "d", TRUE)
    /\ opens' = [opens EXCEPT ![r] = @ + 1]
    /\ from' = [from EXCEPT ![r] = ids[r]]
    /\ done' = [done EXCEPT ![r] = <<>>] /\ given' = [given EXCEPT ![r] = <<>>]
    /\ cn' = [cn EXCEPT ![r] = 0]
    /\ coll' = IF up THEN coll ELSE <<>>
    /\ UNCHANGED <<log, durable, ids, upto, calls, kills, right>>

MOp(r) ==
    /\ ids[r] < MaxOps
    /\ \E e \in Menu : Enqueue(r, e.k, <<[id |-> ids[r] + 1] @@ e>>)
    /\ ids' = [ids EXCEPT ![r] = @ + 1]
    /\ UNCHANGED <<log, durable, from, done, given, calls, opens, kills, upto, coll, cn, right>>

MCall(r, f) ==
    /\ ses[r] = "open"
    /\ calls[r] < MaxCalls \/ f = "close" \/ (f \in Collective /\ cn[r] < Len(coll))
    /\ f \in Collective => IF cn[r] < Len(coll) THEN f = coll[cn[r] + 1] ELSE TRUE
    /\ StartCall(r, [f |-> f, arrived |-> FALSE, name |-> IF base = "d" THEN "e" ELSE "d", write |-> TRUE, read |-> TRUE, create |-> TRUE])
    /\ calls' = [calls EXCEPT ![r] = IF f = "close" THEN @ ELSE @ + 1]
    /\ cn' = [cn EXCEPT ![r] = IF f \in Collective THEN @ + 1 ELSE @]
    /\ coll' = IF f \in Collective /\ cn[r] = Len(coll) THEN Append(coll, f) ELSE coll
    /\ UNCHANGED <<log, durable, ids, from, done, given, opens, kills, upto, right>>

MBackground(r) ==
    /\ Background(World, r)
    /\ LET e == q[r]["PUT"][ax[r] + 1] IN
       /\ Write(e)
       /\ done' = [done EXCEPT ![r] = Append(@, e.id)]
    /\ UNCHANGED <<durable, ids, from, given, calls, opens, kills, upto, coll, cn, right>>

\* the results an operation gets are those of the last writes
Proper(e) ==
    \A x \in Answers(World, st, e) :
        CASE e.k = "GET" ->
                LET o == LastWrite(base, Key(World, e.s, e.p), Len(log))
                IN  Len(x) = 1 /\ x[1].st = (o # None) /\ x[1].o = (IF o = None THEN None ELSE World.dec[o])
          [] e.k = "GETOP" ->
                \A i \in 1..Len(x) : x[i].st =>
                    LET o == LastWrite(base, Key(World, x[i].s, x[i].p), Len(log))
                    IN  (o # None /\ x[i].o \in {World.dec[o], Hidden}) \/ (x[i].o = Hidden /\ x[i].s = HS)
          [] OTHER -> x[1].st \/ e.k = "DELETE"
MExec(r) ==
    /\ CanExec(r)
    /\ LET e == HeadOp(r)  k == Current(r)  again == k = "PUT" /\ ax[r] > 0 IN
       /\ IF again THEN UNCHANGED log ELSE Write(e)
       /\ done' = IF again THEN done ELSE [done EXCEPT ![r] = Append(@, e.id)]
       /\ given' = [given EXCEPT ![r] = Append(@, e.id)]
       /\ right' = (right /\ (k # "HIST" => Proper(e)))
    /\ Exec(World, r)
    /\ UNCHANGED <<durable, ids, from, calls, opens, kills, upto, coll, cn>>

MArrive(r) ==
    /\ Arrive(r)
    /\ upto' = [upto EXCEPT ![r] = ids[r]]
    /\ UNCHANGED <<log, durable, ids, from, done, given, calls, opens, kills, coll, cn, right>>
MSync ==
    /\ SyncPoint(World)
    /\ log' = IF Mem /\ call[0].f # "sync" THEN <<>> ELSE log
    /\ durable' = Len(log')
    /\ UNCHANGED <<ids, from, done, given, calls, opens, kills, upto, coll, cn, right>>
MReturn(r) == Return(World, r) /\ UNCHANGED ghosts

\* which writes a state of the datastore consists of
Holds(k, n) == \A i \in 1..K(World) : k.st[i] \in {LastWrite(k.base, i, n), Hidden}
MKill ==
    /\ kills < Kills /\ up
    /\ kills' = kills + 1
    /\ \E k \in snap :
          /\ NewProcess(World, k)
          /\ log' = IF \E n \in durable..Len(log) : Holds(k, n)
                    THEN SubSeq(log, 1, CHOOSE n \in durable..Len(log) : Holds(k, n)) ELSE log
    /\ durable' = Len(log')
    /\ done' = [r \in Ranks |-> <<>>] /\ given' = [r \in Ranks |-> <<>>]
    /\ opens' = [r \in Ranks |-> 0]
    /\ coll' = <<>> /\ cn' = [r \in Ranks |-> 0]
    /\ UNCHANGED <<ids, from, upto, calls, right>>

Finished == \A r \in Ranks : ses[r] = "none" /\ opens[r] = Opens
Next ==
    \/ \E r \in Ranks : MOpen(r) \/ MOp(r) \/ MBackground(r) \/ MExec(r) \/ MArrive(r) \/ MReturn(r)
    \/ \E r \in Ranks, f \in Calls \cup {"close"} : MCall(r, f)
    \/ MSync \/ MKill
    \/ Finished /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ what is checked
Queued(r) == UNION {{q[r][k][i].id : i \in 1..Len(q[r][k])} : k \in DOMAIN q[r]}
Executed(r) == {done[r][i] : i \in 1..Len(done[r])}
Given(r) == {given[r][i] : i \in 1..Len(given[r])}

\* results are those of the last writes, and so are the contents
Right == right
Contents == up => \A i \in 1..K(World) : st[i] \in {LastWrite(base, i, Len(log)), Hidden}
\* every operation is executed once and has its results returned once
Once ==
    \A r \in Ranks :
        /\ Cardinality(Executed(r)) = Len(done[r]) /\ Cardinality(Given(r)) = Len(given[r])
        /\ ses[r] = "open" =>
              /\ Queued(r) \cup Given(r) = (from[r] + 1)..ids[r]
              /\ Queued(r) \cap Given(r) = {}
              /\ Given(r) \subseteq Executed(r)
\* in the order in which they were queued, for operations of a kind
Order ==
    \A r \in Ranks : \A k \in DOMAIN q[r] :
        \A i, j \in 1..Len(q[r][k]) : i < j =>
            /\ q[r][k][i].id < q[r][k][j].id
            /\ q[r][k][j].id \in Executed(r) => q[r][k][i].id \in Executed(r)
\* a synchronisation is over only when everything queued before it by any rank was executed
Meet == \A r \in Ranks : (ses[r] = "open" /\ call[r].f \in Collective /\ CanReturn(World, r)) =>
            \A x \in Ranks : ses[x] = "open" => arr[x] >= arr[r] /\ (from[x] + 1)..upto[x] \subseteq Executed(x)
\* whatever a crash leaves is some prefix of the writes that contains all that were synchronised
Survivable == up => \A k \in snap : \E n \in durable..Len(log) : Holds(k, n)
Closed == (~up /\ ~Mem) => \A b \in DOMAIN disk : \A i \in 1..K(World) : disk[b].st[i] \in {LastWrite(b, i, Len(log)), Hidden}
\* histograms count
Counting == up => \A v \in DOMAIN hs : hs[v].edges # <<>> => SumSeq(hs[v].counts) = hs[v].n
=============================================================================
