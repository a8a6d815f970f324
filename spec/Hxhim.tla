-------------------------------- MODULE Hxhim --------------------------------
\* The system, seen from one datastore d: sessions of all ranks, their queues,
\* flushes and collectives, the contents of the datastore and what survives it.
\*
\* The public calls do not happen atomically: a call starts (StartCall), executes
\* queued operations one by one (Exec), takes part in collective points (Arrive,
\* SyncPoint) and returns (Return). With background PUTs queued PUTs may also be
\* executed at any other time (Background).
\*
\* Every action takes the history's world W (see HxStore) extended with
\*   W.ranks, W.owner (rank that owns d), W.mem (contents do not survive closing),
\*   W.async, W.hist = [first, gen, names (value ids), write, read], W.hs (value id
\*   of the subject of stored histograms), W.num[v] (integer value of floating
\*   point values, NotInt if it has none), W.crash (the process may be killed)
EXTENDS HxStore, Histo

VARIABLES
    up,      \* the datastore is open
    base,    \* its name
    st,      \* its contents
    hs,      \* its histograms: name -> histogram
    disk,    \* name -> [st, hs] of closed datastores
    snap,    \* what may be found after a crash: set of [base, st, hs]
    ses,     \* rank -> "none" | "open"
    q,       \* rank -> category -> queued operations whose results were not returned
    ax,      \* rank -> number of leading queued PUTs already executed in the background
    call,    \* rank -> [f, ...] the call it is in, or Idle
    arr,     \* rank -> number of collective points reached
    sp       \* number of collective points completed by the owner of d

hvars == <<up, base, st, hs, disk, snap, ses, q, ax, call, arr, sp>>

Idle == [f |-> "idle"]
Cats == <<"PUT", "GET", "GETOP", "DELETE", "HIST">>
NoQueue == [c \in {"PUT", "GET", "GETOP", "DELETE", "HIST"} |-> <<>>]

Collective == {"sync", "chname", "chhash", "close"}
Covered(f) ==
    CASE f = "flushput" -> {"PUT"} [] f = "flushget" -> {"GET"} [] f = "flushgetop" -> {"GETOP"}
      [] f = "flushdel" -> {"DELETE"} [] f = "flushhist" -> {"HIST"}
      [] f = "flush" \/ f \in Collective -> {"PUT", "GET", "GETOP", "DELETE", "HIST"}
      [] OTHER -> {}

InitHxhim(R) ==
    /\ up = FALSE /\ base = "" /\ st = <<>> /\ hs = <<>> /\ snap = {}
    /\ disk = [x \in {} |-> <<>>]
    /\ ses = [r \in R |-> "none"]
    /\ q = [r \in R |-> NoQueue]
    /\ ax = [r \in R |-> 0]
    /\ call = [r \in R |-> Idle]
    /\ arr = [r \in R |-> 0]
    /\ sp = 0

\* ------------------------------------------------------------ contents
\* (histograms are only stored at collective points)
Remember(W, s) ==
    snap' = IF W.crash
            THEN snap \cup {[base |-> base, st |-> s, hs |-> IF base \in DOMAIN disk THEN disk[base].hs ELSE [x \in {} |-> NewHist]]}
            ELSE snap

HistKey(W, v) == Key(W, W.hs, v)

\* histograms that exist once a datastore with the given contents is open
\* saved: the histogram states stored in it
OpenHists(W, contents, saved, read, create) ==
    LET found(v) == read /\ HistKey(W, v) # 0 /\ contents[HistKey(W, v)] = Hidden /\ v \in DOMAIN saved
    IN  [v \in {v \in W.hist.names : found(v) \/ create} |-> IF found(v) THEN saved[v] ELSE NewHist]

\* writing the histograms into the contents
WithHists(W, contents, h) ==
    [i \in 1..K(W) |-> IF \E v \in DOMAIN h : HistKey(W, v) = i THEN Hidden ELSE contents[i]]

Stored(b, W) == IF W.mem \/ b \notin DOMAIN disk THEN [st |-> Empty(W), hs |-> [x \in {} |-> NewHist]] ELSE disk[b]
SavedHists(b, h, write) ==      \* what the datastore remembers of its histograms
    LET old == IF b \in DOMAIN disk THEN disk[b].hs ELSE [x \in {} |-> NewHist]
    IN  IF write THEN h @@ old ELSE old

\* ------------------------------------------------------------ sessions
\* the datastore is open once the first rank's Open returns
Open(W, r, name, create) ==
    /\ ses[r] = "none"
    /\ ses' = [ses EXCEPT ![r] = "open"]
    /\ arr' = IF up THEN [arr EXCEPT ![r] = 0] ELSE [x \in DOMAIN arr |-> 0]
    /\ IF up THEN UNCHANGED <<up, base, st, hs, snap, sp>>
       ELSE LET S == Stored(name, W) IN
            /\ create \/ W.mem \/ name \in DOMAIN disk
            /\ up' = TRUE /\ base' = name /\ sp' = 0
            /\ st' = S.st
            /\ hs' = OpenHists(W, S.st, S.hs, W.hist.read, TRUE)
            /\ snap' = IF W.crash THEN {[base |-> name, st |-> S.st, hs |-> S.hs]} ELSE {}
    /\ q' = [q EXCEPT ![r] = NoQueue]
    /\ ax' = [ax EXCEPT ![r] = 0]
    /\ UNCHANGED <<disk, call>>

\* ------------------------------------------------------------ queues
Enqueue(r, k, es) ==
    /\ ses[r] = "open" /\ call[r] = Idle
    /\ q' = [q EXCEPT ![r][k] = @ \o es]
    /\ UNCHANGED <<up, base, st, hs, disk, snap, ses, ax, call, arr, sp>>

\* histograms observe successful PUTs of floating point objects with tracked predicates
HistAfterPut(W, e) ==
    IF ~PutOk(W, e) \/ W.typ[e.p] # BYTE \/ e.p \notin DOMAIN hs
       \/ W.typ[e.o] \notin {FLOAT, DOUBLE} \/ W.num[e.o] = NotInt
    THEN hs
    ELSE [hs EXCEPT ![e.p] = Add(W.hist, @, W.num[e.o])]

DoPut(W, e) ==
    /\ st' = AfterPut(W, st, e)
    /\ hs' = HistAfterPut(W, e)
    /\ Remember(W, st')

Background(W, r) ==
    /\ W.async /\ ses[r] = "open" /\ up
    /\ ax[r] < Len(q[r]["PUT"])
    /\ DoPut(W, q[r]["PUT"][ax[r] + 1])
    /\ ax' = [ax EXCEPT ![r] = @ + 1]
    /\ UNCHANGED <<up, base, disk, ses, q, call, arr, sp>>

\* ------------------------------------------------------------ calls
StartCall(r, c) ==
    /\ call[r] = Idle
    /\ call' = [call EXCEPT ![r] = c]
    /\ UNCHANGED <<up, base, st, hs, disk, snap, ses, q, ax, arr, sp>>

Pending(r) == {k \in Covered(call[r].f) : q[r][k] # <<>>}
\* the category a flush works on: PUTs, GETs, GETOPs, DELETEs, HISTOGRAMs
Current(r) == Cats[CHOOSE i \in 1..5 : Cats[i] \in Pending(r) /\ \A j \in 1..(i - 1) : Cats[j] \notin Pending(r)]
HeadOp(r) == Head(q[r][Current(r)])

CanExec(r) == call[r] # Idle /\ ses[r] = "open" /\ up /\ Pending(r) # {}

\* executes the next operation of the flush; the results are judged by the caller
Exec(W, r) ==
    LET k == Current(r)  e == HeadOp(r) IN
    /\ CanExec(r)
    /\ q' = [q EXCEPT ![r][k] = Tail(@)]
    /\ IF k = "PUT" /\ ax[r] > 0
       THEN /\ ax' = [ax EXCEPT ![r] = @ - 1]      \* already executed in the background
            /\ UNCHANGED <<st, hs, snap>>
       ELSE IF k = "PUT" THEN DoPut(W, e) /\ UNCHANGED ax
       ELSE /\ st' = After(W, st, e)
            /\ IF k = "DELETE" THEN Remember(W, st') ELSE UNCHANGED snap
            /\ UNCHANGED <<hs, ax>>
    /\ UNCHANGED <<up, base, disk, ses, call, arr, sp>>

Drained(r) == Pending(r) = {}

Arrive(r) ==
    /\ call[r].f \in Collective /\ ses[r] = "open" /\ Drained(r) /\ ~call[r].arrived
    /\ call' = [call EXCEPT ![r].arrived = TRUE]
    /\ arr' = [arr EXCEPT ![r] = @ + 1]
    /\ UNCHANGED <<up, base, st, hs, disk, snap, ses, q, ax, sp>>

Save(W, b, s, h) == disk' = IF W.mem THEN disk ELSE (b :> [st |-> s, hs |-> h]) @@ disk

\* all ranks are at the collective point: the owner makes the contents durable and
\* closes or replaces the datastore if that is what the call is for
SyncPoint(W) ==
    LET o == W.owner
        c == call[o]
        written == IF W.hist.write THEN WithHists(W, st, hs) ELSE st
        saved == SavedHists(base, hs, W.hist.write)
    IN
    /\ up /\ c.f \in Collective /\ c.arrived
    /\ \A r \in W.ranks : arr[r] > sp
    /\ sp' = sp + 1
    /\ CASE c.f = "sync" ->
            /\ st' = written
            /\ Save(W, base, written, saved)
            /\ snap' = IF W.crash THEN {[base |-> base, st |-> written, hs |-> saved]} ELSE {}
            /\ UNCHANGED <<up, base, hs>>
         [] c.f = "close" ->
            /\ up' = FALSE /\ st' = <<>> /\ hs' = <<>> /\ base' = ""
            /\ Save(W, base, written, saved)
            /\ snap' = {}
         [] c.f \in {"chname", "chhash"} ->
            LET write == IF c.f = "chname" THEN c.write ELSE W.hist.write
                read == IF c.f = "chname" THEN c.read ELSE W.hist.read
                create == IF c.f = "chname" THEN c.create ELSE TRUE
                w2 == IF W.hist.write \/ write THEN WithHists(W, st, hs) ELSE st
                s2 == SavedHists(base, hs, W.hist.write \/ write)
                D == IF W.mem THEN disk ELSE (base :> [st |-> w2, hs |-> s2]) @@ disk
                N == IF W.mem \/ c.name \notin DOMAIN D THEN [st |-> Empty(W), hs |-> [x \in {} |-> NewHist]] ELSE D[c.name]
            IN
            /\ base' = c.name
            /\ disk' = D
            /\ st' = N.st
            /\ hs' = OpenHists(W, N.st, N.hs, read, create)
            /\ snap' = IF W.crash THEN {[base |-> c.name, st |-> N.st, hs |-> N.hs]} ELSE {}
            /\ UNCHANGED up
    /\ UNCHANGED <<ses, q, ax, call, arr>>

Gone == 1000000      \* a closed session is not waited for
CanReturn(W, r) ==
    /\ call[r] # Idle
    /\ ses[r] = "open" => Drained(r)
    /\ (call[r].f \in Collective /\ ses[r] = "open") =>
          /\ call[r].arrived
          /\ \A x \in W.ranks : arr[x] >= arr[r]
          /\ (call[r].f # "sync" \/ r = W.owner) => sp >= arr[r]

Return(W, r) ==
    /\ CanReturn(W, r)
    /\ call' = [call EXCEPT ![r] = Idle]
    /\ ses' = [ses EXCEPT ![r] = IF call[r].f = "close" THEN "none" ELSE @]
    /\ arr' = [arr EXCEPT ![r] = IF call[r].f = "close" THEN Gone ELSE @]
    /\ UNCHANGED <<up, base, st, hs, disk, snap, q, ax, sp>>

\* the process ends without closing the session (W.crash), or ended after closing
NewProcess(W, keep) ==
    /\ IF up THEN /\ keep \in snap
                  /\ disk' = IF W.mem THEN disk ELSE (keep.base :> [st |-> keep.st, hs |-> keep.hs]) @@ disk
       ELSE disk' = IF W.mem THEN [x \in {} |-> <<>>] ELSE disk
    /\ up' = FALSE /\ base' = "" /\ st' = <<>> /\ hs' = <<>> /\ snap' = {} /\ sp' = 0
    /\ ses' = [r \in W.ranks |-> "none"]
    /\ q' = [r \in W.ranks |-> NoQueue]
    /\ ax' = [r \in W.ranks |-> 0]
    /\ call' = [r \in W.ranks |-> Idle]
    /\ arr' = [r \in W.ranks |-> 0]
=============================================================================
