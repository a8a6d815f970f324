------------------------------- MODULE HxTrace -------------------------------
\* Is every recorded history of the implementation a behaviour of Hxhim?
\*
\* The input (HX_INPUT) holds many histories. A history is checked once for each
\* of its datastores d (the actions of Hxhim bound to the recorded events) and
\* once as a whole (d = -1: what does not depend on contents).
EXTENDS Hxhim, Ids, Json, IOUtils

\* tables computed once are kept in TLC's registers (definitions are evaluated
\* again wherever they are used)
Traces == TLCGet(1)
Worlds == TLCGet(2)
Rows == TLCGet(3)
ASSUME TLCSet(1, JsonDeserialize(IOEnv.HX_INPUT))
NT == Len(Traces)

VARIABLES t, d, l,
    pos,     \* rank -> how many results of the current call were explained
    held     \* names of kept results -> what they contained (d = -1)
vars == <<hvars, t, d, l, pos, held>>

Bit(m, i) == (m \div (2 ^ i)) % 2 = 1
PermOf(s, p, o) == << <<s, p, o>>, <<s, o, p>>, <<p, s, o>>, <<p, o, s>>, <<o, s, p>>, <<o, p, s>> >>

N(T) == DsCount(T.ranks, T.client, T.server, T.per)

\* ------------------------------------------------------------ recorded calls
InRange(T, h) == h >= 0 /\ h < N(T)
Selected(e) == {i \in 1..6 : Bit(e.m, i - 1)}
\* can the operation be queued (single: its arguments are checked)
Queueable(T, e) ==
    /\ e.open
    /\ CASE e.k = "PUT" -> (e.bulk # 0 \/ (e.sz /\ e.pz /\ e.oz)) /\ \A i \in Selected(e) : InRange(T, e.h[i])
         [] e.k \in {"GET", "DELETE"} -> (e.bulk # 0 \/ (e.sz /\ e.pz)) /\ InRange(T, e.h[1])
         [] e.k = "GETOP" -> (e.bulk # 0 \/ e.sz) /\ InRange(T, e.h[1])
         [] OTHER -> InRange(T, e.ds)

\* operations the call queues for datastore x, in queue order
Elems(T, e, x) ==
    IF ~e.open THEN <<>>
    ELSE IF e.k = "PUT" THEN
        IF ~Queueable(T, e) THEN <<>>
        ELSE LET P == PermOf(e.s, e.p, e.o)
                 I == SelectSeq(<<1, 2, 3, 4, 5, 6>>, LAMBDA i : i \in Selected(e) /\ e.h[i] = x)
             IN  [j \in 1..Len(I) |-> [k |-> "PUT", s |-> P[I[j]][1], p |-> P[I[j]][2], o |-> P[I[j]][3]]]
    ELSE IF e.k = "HIST" THEN
        IF e.all /\ e.ds = x THEN <<[k |-> "HIST", p |-> e.name]>> ELSE <<>>
    ELSE IF ~Queueable(T, e) \/ e.h[1] # x THEN <<>>
    ELSE <<[k |-> e.k, s |-> IF e.sz THEN e.s ELSE 0, p |-> IF e.pz THEN e.p ELSE 0, o |-> 0,
            g |-> e.g, n |-> e.n, tp |-> e.pt]>>

\* ------------------------------------------------------------ tables, computed once
Puts(T) == UNION {LET e == T.ev[i]
                      P == PermOf(e.s, e.p, e.o)
                  IN  {<<P[j][1], P[j][2]>> : j \in Selected(e)}
                  : i \in {i \in 1..Len(T.ev) : T.ev[i].e = "op" /\ T.ev[i].k = "PUT" /\ T.ev[i].sz /\ T.ev[i].pz /\ T.ev[i].oz}}

AllWorlds == TLCEval([i \in 1..NT |->
    LET T == Traces[i]
        X == [neg |-> T.neg, pos |-> T.pos, xor |-> ToSet(T.xor), fail |-> ToSet(T.fail)]
        names == ToSet(T.hnames)
        W == MkWorld(X, T.vals, Puts(T) \cup {<<T.hs, v>> : v \in names})
             @@ [ranks |-> 0..(T.ranks - 1), mem |-> T.mem, async |-> T.async_, crash |-> T.crash,
                 hist |-> [first |-> T.hfirst, gen |-> T.hgen, names |-> names, write |-> T.hwrite, read |-> T.hread],
                 hs |-> T.hs, num |-> T.num]
    IN  TLCEval([x \in 0..(N(T) - 1) |-> TLCEval([owner |-> DsRank(x, T.ranks, T.client, T.server, T.per)] @@ W)])])

\* results of call event i that come from datastore x (the results of syncing are not per datastore)
AllRows == TLCEval([i \in 1..NT |->
    LET T == Traces[i] IN
    TLCEval([j \in {j \in 1..Len(T.ev) : T.ev[j].e = "ret"} |->
        TLCEval([x \in 0..(N(T) - 1) |-> SelectSeq(T.ev[j].res, LAMBDA a : a.rs = x /\ a.k # "SYNC")])])])

ASSUME TLCSet(2, AllWorlds) /\ TLCSet(3, AllRows)

\* ------------------------------------------------------------ one datastore
Ev == Traces[t].ev
E == Ev[l]
World == Worlds[t][d]
Step == l' = l + 1
Stay == UNCHANGED <<t, d, held>>

Is(e) == d >= 0 /\ l <= Len(Ev) /\ E.e = e /\ Step /\ Stay

HistFits(e, a) ==
    IF e.p \notin DOMAIN hs THEN a.k = "HIST" /\ ~a.st /\ ~a.hok
    ELSE /\ a.k = "HIST" /\ a.st
         /\ a.hok = Ready(World.hist, hs[e.p])
         /\ a.hok => a.hn = e.p /\ Reports(hs[e.p], a.hb, a.hc)

TOp == /\ Is("op")
       /\ LET es == Elems(Traces[t], E, d) IN
          IF es = <<>> THEN UNCHANGED hvars ELSE Enqueue(E.r, E.k, es)
       /\ UNCHANGED pos

TCall == /\ Is("call")
         /\ StartCall(E.r, [f |-> E.f, ri |-> E.ri, arrived |-> FALSE] @@
                           (CASE E.f = "chname" -> [name |-> E.a[1], write |-> E.a[2] # "0", read |-> E.a[3] # "0", create |-> E.a[4] # "0"]
                              [] E.f = "chhash" -> [name |-> E.a[1]]
                              [] OTHER -> [name |-> ""]))
         /\ pos' = [pos EXCEPT ![E.r] = 0]

TRet == /\ Is("ret")
        /\ call[E.r].f = E.f
        /\ E.null = (ses[E.r] # "open")
        /\ pos[E.r] = Len(Rows[t][l][d])
        /\ Return(World, E.r)
        /\ UNCHANGED pos

TLifeCall == /\ Is("lifecall")
             /\ IF E.f = "close" THEN StartCall(E.r, [f |-> "close", ri |-> 0, arrived |-> FALSE, name |-> ""]) ELSE UNCHANGED hvars
             /\ UNCHANGED pos

TLife == /\ Is("life")
         /\ CASE E.f \in {"open", "openone"} /\ E.rc -> Open(World, E.r, E.base, E.create /\ E.f = "open")
              [] E.f = "close" -> call[E.r].f = "close" /\ Return(World, E.r)
              [] OTHER -> UNCHANGED hvars
         /\ UNCHANGED pos

TPhase == /\ Is("phase")
          /\ \/ ~up /\ NewProcess(World, <<>>)
             \/ \E k \in snap : NewProcess(World, k)
          /\ UNCHANGED pos

\* what is queued, and how it is divided among requests: q[category][datastore]
\* lists their numbers of operations and sizes
TQueues == /\ Is("queues")
           /\ ses[E.r] = "open" =>
                 \A c \in 1..5 :
                    LET P == E.q[c][d + 1]
                        n == FoldLeft(LAMBDA a, x : a + x[1], 0, P)
                        want == Len(q[E.r][Cats[c]])
                    IN  IF c = 1 /\ World.async THEN n <= want ELSE n = want
           /\ UNCHANGED <<hvars, pos>>

\* no request exceeds the limits (its own size may, and what each entry needs besides its data)
Overhead == 64
Within(T, e) ==
    \A c \in 1..Len(e.q) : \A x \in 1..Len(e.q[c]) : \A i \in 1..Len(e.q[c][x]) :
        LET n == e.q[c][x][i][1]  size == e.q[c][x][i][2]
        IN  /\ n \in 1..T.maxops
            /\ n > 1 /\ T.maxsize > 0 => size <= T.maxsize + Overhead

TOther == /\ d >= 0 /\ l <= Len(Ev)
          /\ E.e \notin {"op", "call", "ret", "lifecall", "life", "phase", "queues", "crash", "hang"}
          /\ Step /\ Stay /\ UNCHANGED <<hvars, pos>>

\* ---- steps that are not recorded
Silent == d >= 0 /\ l <= Len(Ev) /\ UNCHANGED <<t, d, l, held>>

Row(r) == IF call[r].ri = 0 THEN <<>> ELSE Rows[t][call[r].ri][d]
Explains(r, x) ==
    LET row == Row(r) IN
    /\ pos[r] + Len(x) <= Len(row)
    /\ \A i \in 1..Len(x) : Fits(World, x[i], row[pos[r] + i])

\* executing the next operation of rank r explains the next recorded results
ExecOf(r) ==
    /\ CanExec(r)
    /\ LET e == HeadOp(r) IN
       IF call[r].ri = 0 THEN UNCHANGED pos      \* the results are thrown away or were never seen
       ELSE IF e.k = "HIST"
       THEN /\ pos[r] < Len(Row(r)) /\ HistFits(e, Row(r)[pos[r] + 1])
            /\ pos' = [pos EXCEPT ![r] = @ + 1]
       ELSE \E x \in Answers(World, st, e) :
               /\ Explains(r, x)
               /\ pos' = [pos EXCEPT ![r] = @ + Len(x)]
    /\ Exec(World, r)

\* ranks whose next operation only reads, and would explain what was recorded if it
\* happened now. Doing it now is then never worse than doing it later. (A GETOP only
\* if there is no doubt which of the recorded results are its own.)
Readers ==
    {r \in World.ranks :
        /\ CanExec(r) /\ Current(r) \in {"GET", "GETOP", "HIST"}
        /\ LET e == HeadOp(r) IN
           IF call[r].ri = 0 THEN TRUE
           ELSE IF e.k = "HIST" THEN pos[r] < Len(Row(r)) /\ HistFits(e, Row(r)[pos[r] + 1])
           ELSE \E x \in Answers(World, st, e) :
                   /\ Explains(r, x)
                   /\ \/ e.k = "GET" \/ e.g = EQ \/ e.n <= 1
                      \/ Len(q[r]["GETOP"]) = 1 /\ (pos[r] + Len(x) = Len(Row(r)) \/ Row(r)[pos[r] + Len(x) + 1].k # "GETOP")}
Arriving == {r \in World.ranks : call[r].f \in Collective /\ ses[r] = "open" /\ Drained(r) /\ ~call[r].arrived}

\* Likewise a write to a key that no other rank's operation touches that is queued
\* now or will be queued before the call returns. (Not when the process may be
\* killed: then the order of all writes matters.)
Touches(e) == IF e.k \in {"PUT", "GET", "DELETE"} THEN {Key(World, e.s, e.p)} ELSE {-1}
Alone(r) ==
    LET e == HeadOp(r)
        k == Key(World, e.s, e.p)
        last == IF call[r].ri = 0 THEN Len(Ev) ELSE call[r].ri
        meets(x) == k # 0 /\ Touches(x) \cap {k, -1} # {}
    IN  \* (background PUTs of the rank itself may come first)
        /\ e.k = "DELETE" /\ World.async => \A i \in (ax[r] + 1)..Len(q[r]["PUT"]) : ~meets(q[r]["PUT"][i])
        /\ \A x \in World.ranks \ {r} : \A c \in DOMAIN q[x] : \A i \in 1..Len(q[x][c]) : ~meets(q[x][c][i])
        /\ \A i \in l..last : (Ev[i].e = "op" /\ Ev[i].r # r) =>
                                   LET es == Elems(Traces[t], Ev[i], d) IN \A j \in 1..Len(es) : ~meets(es[j])
Writers == IF World.crash THEN {}
           ELSE {r \in World.ranks : CanExec(r) /\ Current(r) \in {"PUT", "DELETE"}
                                      /\ HeadOp(r).p \notin DOMAIN hs /\ Alone(r)}

TRead == Silent /\ ExecOf(CHOOSE r \in Readers : TRUE)
TWrite == Silent /\ ExecOf(CHOOSE r \in Writers : TRUE)
TArrive == Silent /\ Arrive(CHOOSE r \in Arriving : TRUE) /\ UNCHANGED pos
TExec == Silent /\ \E r \in World.ranks : ExecOf(r)

TBackground == /\ Silent /\ World.async
               /\ \E r \in World.ranks : Background(World, r)
               /\ UNCHANGED pos

TSync == Silent /\ SyncPoint(World) /\ UNCHANGED pos

\* ------------------------------------------------------------ the whole history
CatNo(k) == CASE k = "PUT" -> 1 [] k = "GET" -> 2 [] k = "GETOP" -> 3 [] k = "DELETE" -> 4 [] k = "HIST" -> 5 [] OTHER -> 6

\* Opened without opening the datastores: the first change of the name or the hash opens them.
Usable(T, e, at) ==
    T.openinit \/ LET I == {i \in 1..(at - 1) : T.ev[i].e \in {"ret", "life"} /\ T.ev[i].r = e.r}
                      o == Max({0} \cup {i \in I : T.ev[i].e = "life" /\ T.ev[i].f \in {"open", "openone"}})
                  IN  \E i \in I : i > o /\ T.ev[i].e = "ret" /\ T.ev[i].f \in {"chname", "chhash"}

Results(T, e, at) ==
    /\ \A i \in 1..Len(e.res) : e.res[i].k = "SYNC" \/ InRange(T, e.res[i].rs)
    /\ \A i \in 2..Len(e.res) : CatNo(e.res[i - 1].k) <= CatNo(e.res[i].k)
    /\ \A i \in 1..Len(e.res) : e.res[i].k \in Covered(e.f) \/ (e.f \in Collective /\ e.res[i].k = "SYNC" /\ e.res[i].st = Usable(T, e, at))
    /\ LET local == IF e.one THEN 1 ELSE IF IsServer(e.r, T.client, T.server) THEN T.per ELSE 0
           syncs == Len(SelectSeq(e.res, LAMBDA a : a.k = "SYNC"))
       IN  ~e.null => syncs = IF e.f \in Collective THEN local ELSE 0

\* a call reports success exactly if all of it could be queued
Accepted(T, e) ==
    IF e.bulk = 0 THEN e.rc = Queueable(T, e)
    ELSE e.rc = \A i \in {i \in 1..Len(T.ev) : T.ev[i].e = "op" /\ T.ev[i].r = e.r /\ T.ev[i].bulk = e.bulk /\ T.ev[i].ph = e.ph} : Queueable(T, T.ev[i])

\* what is still readable from results that were kept
SameKept(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1..Len(a) : a[i].k = b[i].k /\ a[i].st = b[i].st /\ a[i].rs = b[i].rs /\ a[i].o = b[i].o
                            /\ a[i].hok = b[i].hok /\ a[i].hn = b[i].hn /\ a[i].hb = b[i].hb /\ a[i].hc = b[i].hc
                            /\ (a[i].k = "GETOP" /\ a[i].st) => a[i].s = b[i].s /\ a[i].p = b[i].p

\* once as many PUTs are queued as background PUTs start at, those queued so far are
\* executed without a flush: the first of them becomes visible
Started(T, e, at) ==
    LET last == Max({0} \cup {i \in 1..at : /\ T.ev[i].e \in {"ret", "life"} /\ T.ev[i].r = e.r
                                            /\ T.ev[i].e = "ret" => "PUT" \in Covered(T.ev[i].f)})
        P == SelectSeq([i \in 1..(at - last) |-> T.ev[last + i]],
                       LAMBDA x : x.e = "op" /\ x.r = e.r /\ x.k = "PUT" /\ Queueable(T, x) /\ x.m # 0)
    IN  /\ T.startat > 0
        /\ FoldLeft(LAMBDA a, x : a + Cardinality(Selected(x)), 0, P) >= T.startat
        /\ P[1].s = e.s /\ P[1].p = e.p /\ Bit(P[1].m, 0)
        /\ \A i \in 1..Len(T.ev) : T.ev[i].e = "op" => T.ev[i].k # "DELETE"

WholeOk(T, e) ==
    CASE e.e = "op" -> Accepted(T, e)
      [] e.e = "ret" -> Results(T, e, l)
      [] e.e = "recheck" -> <<e.r, e.hold>> \in DOMAIN held /\ SameKept(held[<<e.r, e.hold>>], e.res)
      [] e.e = "rlappend" -> <<e.r, e.to>> \in DOMAIN held /\ <<e.r, e.from>> \in DOMAIN held
      [] e.e = "append" -> /\ <<e.r, e.to>> \in DOMAIN held /\ <<e.r, e.from>> \in DOMAIN held
                           /\ SameKept(held[<<e.r, e.to>>] \o held[<<e.r, e.from>>], e.res)
                           /\ e.rest = <<>>
      [] e.e = "bufs" -> e.ok
      [] e.e = "await" -> Started(T, e, l) => e.ok
      [] e.e = "queues" -> Within(T, e)
      [] e.e = "life" -> IF "want" \in DOMAIN e THEN e.rc = e.want ELSE e.rc
      [] e.e \in {"crash", "hang", "optfail"} -> FALSE
      [] e.e = "leftovers" -> e.n = 0
      [] OTHER -> TRUE

\* floating point values come back as precisely as configured
Whole ==
    /\ d = -1 /\ l <= Len(Ev) /\ Step /\ UNCHANGED <<hvars, t, d, pos>>
    /\ WholeOk(Traces[t], E) = TRUE      \* (as a value: not searched for in all ways it is true)
    /\ held' = CASE E.e = "ret" /\ E.hold # "" -> (<<E.r, E.hold>> :> E.res) @@ held
                 [] E.e = "newres" -> (<<E.r, E.hold>> :> <<>>) @@ held
                 [] E.e = "rlappend" -> (<<E.r, E.to>> :> held[<<E.r, E.to>>] \o held[<<E.r, E.from>>]) @@ (<<E.r, E.from>> :> <<>>) @@ held
                 [] E.e = "append" -> (<<E.r, E.to>> :> E.res) @@ (<<E.r, E.from>> :> <<>>) @@ held
                 [] E.e = "phase" -> <<>>
                 [] OTHER -> held

\* ------------------------------------------------------------ checking
\* registers: how far the history was explained, and how many states that took
Reg(i, x) == 100 + 2 * (i * 64 + x + 1)
Budget == IF "HX_BUDGET" \in DOMAIN IOEnv THEN atoi(IOEnv.HX_BUDGET) ELSE 3000

Init ==
    /\ t \in 1..NT /\ d \in -1..(N(Traces[t]) - 1) /\ l = 1
    /\ InitHxhim(0..(Traces[t].ranks - 1))
    /\ pos = [r \in 0..(Traces[t].ranks - 1) |-> 0]
    /\ held = <<>>

\* The order of steps is only explored where it matters: reads that fit and arrivals
\* are done at once, and calls and returns are recorded as soon as possible.
CanRet == /\ E.e = "ret" \/ (E.e = "life" /\ E.f = "close")
          /\ call[E.r].f = E.f
          /\ pos[E.r] = IF E.e = "ret" THEN Len(Rows[t][l][d]) ELSE pos[E.r]
          /\ CanReturn(World, E.r)
Next ==
    \/ Whole
    \/ /\ d >= 0 /\ l <= Len(Ev)
       /\ IF Arriving # {} THEN TArrive
          ELSE IF Readers # {} THEN TRead
          ELSE IF Writers # {} THEN TWrite
          ELSE IF E.e \notin {"ret", "life", "phase"} THEN TOp \/ TCall \/ TLifeCall \/ TQueues \/ TOther
          ELSE IF CanRet THEN TRet \/ TLife
          ELSE TBackground \/ TSync \/ TExec \/ TLife \/ TPhase      \* (TLC tries the last first)

Spec == Init /\ [][Next]_vars

ASSUME \A i \in 1..NT : \A x \in -1..(N(Traces[i]) - 1) : TLCSet(Reg(i, x), 0) /\ TLCSet(Reg(i, x) + 1, 0)

Progress ==
    LET r == Reg(t, d)  g == TLCGet(r)  n == TLCGet(r + 1)
    IN  /\ g <= Len(Ev)                     \* accepted already
        /\ n <= Budget
        /\ TLCSet(r + 1, n + 1)
        /\ IF l > g THEN TLCSet(r, l) ELSE TRUE

Report ==
    /\ \A i \in 1..NT : \A x \in -1..(N(Traces[i]) - 1) :
          LET g == TLCGet(Reg(i, x)) IN
          IF g = Len(Traces[i].ev) + 1 THEN TRUE
          ELSE PrintT(<<IF TLCGet(Reg(i, x) + 1) > Budget THEN "UNDECIDED" ELSE "REJECT", Traces[i].id, x, g, Traces[i].ev[g].no>>)
    /\ PrintT(<<"CHECKED", NT>>)
=============================================================================
