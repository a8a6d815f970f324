-------------------------------- MODULE HxGen --------------------------------
\* Programs for the real code. TLC explores the states Hxhim can be in and prints,
\* for every state and every command possible in it, the shortest program found
\* that leads there followed by the command. The driver executes the programs and
\* HxTrace judges what they did.
\*
\* Ranks take turns: a rank issues a command when all others are idle or wait
\* in a collective call.
EXTENDS Hxhim

CONSTANTS
    NR,         \* ranks; the first one owns the datastore
    Mem,        \* contents do not survive closing
    Kills,      \* how often the process may be killed
    Tracked,    \* names of histograms are tracked
    Menu,       \* operations: a subset of Ops
    Calls,      \* flushes and collective calls
    MaxQueue,   \* operations a rank has queued at a time
    MaxLen,     \* commands
    Opens       \* sessions of each rank

Ranks == 0..(NR - 1)
BVal(b) == [t |-> BYTE, b |-> b, e |-> <<>>, d |-> b]
FVal(n) == LET b == <<n, 0, 0, 0, 0, 0, 0, 0>> IN [t |-> DOUBLE, b |-> b, e |-> <<58, 48 + n>>, d |-> b]
Values == <<BVal(<<97>>), BVal(<<98>>), FVal(5), BVal(<<120>>), BVal(<<72>>), FVal(7)>>
A == 1  B == 2  Five == 3  X == 4  HS == 5  Seven == 6

World == TLCGet(1)
ASSUME TLCSet(1, TLCEval(
    MkWorld([neg |-> 47, pos |-> 58, xor |-> {}, fail |-> {}], Values, {<<A, B>>, <<B, A>>, <<HS, B>>})
    @@ [ranks |-> Ranks, owner |-> 0, mem |-> Mem, async |-> FALSE, crash |-> Kills > 0,
        hist |-> [first |-> 1, gen |-> "tens3", names |-> IF Tracked THEN {B} ELSE {}, write |-> TRUE, read |-> TRUE],
        hs |-> HS, num |-> <<NotInt, NotInt, 40, NotInt, NotInt, 120>>]))

\* what the commands stand for; the harness chooses values for a, b, x, 5 and 7
Op(c) ==
    CASE c = "put ab5" -> [k |-> "PUT", s |-> A, p |-> B, o |-> Five]
      [] c = "put ab7" -> [k |-> "PUT", s |-> A, p |-> B, o |-> Seven]
      [] c = "put abx" -> [k |-> "PUT", s |-> A, p |-> B, o |-> X]
      [] c = "put ba5" -> [k |-> "PUT", s |-> B, p |-> A, o |-> Five]
      [] c = "put bax" -> [k |-> "PUT", s |-> B, p |-> A, o |-> X]
      [] c = "get ab" -> [k |-> "GET", s |-> A, p |-> B, o |-> 0]
      [] c = "get ba" -> [k |-> "GET", s |-> B, p |-> A, o |-> 0]
      [] c = "del ab" -> [k |-> "DELETE", s |-> A, p |-> B, o |-> 0]
      [] c = "del ba" -> [k |-> "DELETE", s |-> B, p |-> A, o |-> 0]
      [] c = "next ab" -> [k |-> "GETOP", s |-> A, p |-> B, o |-> 0, g |-> NEXT, n |-> 2, tp |-> BYTE]
      [] c = "prev ba" -> [k |-> "GETOP", s |-> B, p |-> A, o |-> 0, g |-> PREV, n |-> 2, tp |-> BYTE]
      [] c = "first" -> [k |-> "GETOP", s |-> A, p |-> B, o |-> 0, g |-> FIRST, n |-> 3, tp |-> BYTE]
      [] c = "hist" -> [k |-> "HIST", p |-> B]

VARIABLES prog, n, opens, kills, coll, cn
vars == <<hvars, prog, n, opens, kills, coll, cn>>
\* programs of the same length that lead to the same state are alike
Seen ==
    LET m == CHOOSE x \in {cn[r] : r \in Ranks} : \A r \in Ranks : x <= cn[r]
    IN  <<hvars, n, opens, kills, SubSeq(coll, m + 1, Len(coll)), [r \in Ranks |-> cn[r] - m]>>

Init ==
    /\ InitHxhim(Ranks)
    /\ prog = "" /\ n = 0
    /\ opens = [r \in Ranks |-> 0] /\ kills = 0
    /\ coll = <<>> /\ cn = [r \in Ranks |-> 0]

Command(r, c) ==
    /\ n < MaxLen
    /\ n' = n + 1
    /\ prog' = prog \o ToString(r) \o " " \o c \o ";"

Waiting(r) == call[r] # Idle /\ call[r].f \in Collective /\ call[r].arrived /\ ~CanReturn(World, r)
Turn(r) == call[r] = Idle /\ \A x \in Ranks \ {r} : call[x] = Idle \/ Waiting(x)

GOpen(r) ==
    /\ Turn(r) /\ opens[r] < Opens
    /\ \A x \in Ranks : (opens[x] = opens[r] /\ ses[x] = "none") \/ opens[x] = opens[r] + 1
    /\ Open(World, r, "d", TRUE)
    /\ Command(r, "open")
    /\ opens' = [opens EXCEPT ![r] = @ + 1]
    /\ cn' = [cn EXCEPT ![r] = 0]
    /\ coll' = IF up THEN coll ELSE <<>>
    /\ UNCHANGED kills

\* nothing else happens before all ranks have opened their session
AllOpen == \A r \in Ranks : ses[r] = "open"

GOp(r) ==
    /\ Turn(r) /\ AllOpen
    /\ Cardinality(UNION {{<<k, i>> : i \in 1..Len(q[r][k])} : k \in DOMAIN q[r]}) < MaxQueue
    /\ \E c \in Menu : Enqueue(r, Op(c).k, <<Op(c)>>) /\ Command(r, c)
    /\ UNCHANGED <<opens, kills, coll, cn>>

Bit(b) == IF b THEN "1" ELSE "0"
GCall(r, f) ==
    /\ Turn(r) /\ ses[r] = "open" /\ (AllOpen \/ (f = "close" /\ cn[r] < Len(coll)))
    /\ f \in Collective /\ cn[r] < Len(coll) => coll[cn[r] + 1][1] = f
    /\ \E nm \in (IF f \in {"chname", "chhash"} THEN {"d", "e"} ELSE {"-"}),
          wr, rd, cr \in (IF f = "chname" THEN BOOLEAN ELSE {TRUE}) :
          LET args == <<f, nm, wr, rd, cr>> IN
          /\ f = "chhash" => nm # base
          /\ f \in Collective /\ cn[r] < Len(coll) => coll[cn[r] + 1] = args
          /\ StartCall(r, [f |-> f, arrived |-> FALSE, name |-> nm, write |-> wr, read |-> rd, create |-> cr])
          /\ Command(r, IF f = "chname" THEN f \o " " \o nm \o " " \o Bit(wr) \o " " \o Bit(rd) \o " " \o Bit(cr)
                        ELSE IF f = "chhash" THEN f \o " " \o nm ELSE f)
          /\ coll' = IF f \in Collective /\ cn[r] = Len(coll) THEN Append(coll, args) ELSE coll
    /\ cn' = [cn EXCEPT ![r] = IF f \in Collective THEN @ + 1 ELSE @]
    /\ UNCHANGED <<opens, kills>>

GKill ==
    /\ kills < Kills /\ AllOpen /\ \A r \in Ranks : call[r] = Idle
    /\ Command(0, "kill")
    /\ \E k \in snap : NewProcess(World, k)
    /\ kills' = kills + 1
    /\ opens' = [r \in Ranks |-> 0] /\ coll' = <<>> /\ cn' = [r \in Ranks |-> 0]

Own == <<prog, n, opens, kills, coll, cn>>
Inner ==
    /\ \/ \E r \in Ranks : Exec(World, r) \/ Arrive(r) \/ Return(World, r)
       \/ SyncPoint(World)
    /\ UNCHANGED Own
Next == \/ \E r \in Ranks : GOpen(r) \/ GOp(r)
        \/ \E r \in Ranks, f \in Calls \cup {"close"} : GCall(r, f)
        \/ GKill \/ Inner

\* every step that issues a command is printed, whether or not it leads to a new state
Tell == n' > n => PrintT(<<"P", prog'>>)
=============================================================================
