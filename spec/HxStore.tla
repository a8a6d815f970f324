------------------------------- MODULE HxStore -------------------------------
\* What one datastore does with one operation, as functions of its contents.
\*
\* A "world" W describes the values of one history:
\*   W.canon[v]  representative of all values with the type and stored form of v
\*   W.ok[v]     v can be stored
\*   W.enc[v]    stored form (bytes)
\*   W.dec[v]    the value that comes back when v was stored (-1: none of the history)
\*   W.typ[v]    type
\*   W.keys      all keys <<subject, predicate>> (representatives) in the order
\*               of the datastore, W.kb their bytes, W.kidx their positions
\* Contents: a sequence with the stored object value of every key, 0 if absent.
EXTENDS Elen, Bitwise, TLC

None == 0        \* absent / no value
Hidden == -1     \* an object whose value is not known (stored histograms)
Whatever == -9        \* matches everything

INT32 == 1 INT64 == 2 UINT32 == 3 UINT64 == 4 FLOAT == 5 DOUBLE == 6 BYTE == 7 POINTER == 8
Numeric == 1..6
Size(t) == CASE t \in {1, 3, 5} -> 4 [] t \in {2, 4, 6} -> 8 [] OTHER -> -1

EQ == 0 NEXT == 1 PREV == 2 FIRST == 3 LAST == 4 LOWEST == 5 HIGHEST == 6

\* X: configured transforms. Result: <<can be stored, stored form>>
EncVal(X, v) ==
    IF v.t \in X.fail /\ Len(v.b) > 0 /\ v.b[1] = 238 THEN <<FALSE, <<>>>>
    ELSE IF v.t \in X.xor \cup X.fail THEN <<TRUE, [i \in 1..Len(v.b) |-> v.b[i] ^^ 85]>>
    ELSE IF v.t \in {BYTE, POINTER} THEN <<TRUE, v.b>>
    ELSE IF v.t \in 1..4 /\ Len(v.b) = Size(v.t) THEN <<TRUE, EncInt(v.b, v.t \in {INT32, INT64}, X.neg, X.pos)>>
    ELSE IF v.t \in {FLOAT, DOUBLE} /\ Len(v.b) = Size(v.t) /\ v.e # <<>> THEN <<TRUE, v.e>>
    ELSE <<FALSE, <<>>>>

KeyBytes(es, ep, ts, tp) == es \o ep \o <<255>> \o LE64(Len(es)) \o LE64(Len(ep)) \o <<ts, tp>>

\* X: transforms, V: values, P: set of <<subject, predicate>> pairs that may be stored
MkWorld(X, V, P) ==
    LET n == Len(V)
        E == TLCEval([i \in 1..n |-> EncVal(X, V[i])])
        canon == TLCEval([i \in 1..n |->
                    IF ~E[i][1] THEN i
                    ELSE CHOOSE j \in 1..i : /\ E[j][1] /\ V[j].t = V[i].t /\ E[j][2] = E[i][2]
                                             /\ \A k \in 1..(j - 1) : ~(E[k][1] /\ V[k].t = V[i].t /\ E[k][2] = E[i][2])])
        plain(i) == V[i].t \in X.xor \cup X.fail \/ V[i].t \notin {FLOAT, DOUBLE}
        dec == TLCEval([i \in 1..n |->
                    IF plain(i) THEN i
                    ELSE IF \E j \in 1..n : V[j].t = V[i].t /\ V[j].b = V[i].d
                         THEN CHOOSE j \in 1..n : V[j].t = V[i].t /\ V[j].b = V[i].d
                         ELSE -1])
        kset == TLCEval({<<canon[q[1]], canon[q[2]]>> : q \in {q \in P : E[q[1]][1] /\ E[q[2]][1]}})
        klist == TLCEval(SetToSeq(kset))
        kseq == TLCEval([i \in 1..Cardinality(kset) |->
                    LET q == klist[i]
                    IN  [k |-> q, b |-> KeyBytes(E[q[1]][2], E[q[2]][2], V[q[1]].t, V[q[2]].t)]])
        sorted == TLCEval(SortSeq(kseq, LAMBDA a, b : BLess(a.b, b.b)))
    IN  [canon |-> canon,
         ok    |-> TLCEval([i \in 1..n |-> E[i][1]]),
         enc   |-> TLCEval([i \in 1..n |-> E[i][2]]),
         dec   |-> dec,
         typ   |-> TLCEval([i \in 1..n |-> V[i].t]),
         neg   |-> X.neg, pos |-> X.pos,
         keys  |-> TLCEval([i \in 1..Len(sorted) |-> sorted[i].k]),
         kb    |-> TLCEval([i \in 1..Len(sorted) |-> sorted[i].b]),
         kidx  |-> TLCEval([q \in kset |-> CHOOSE i \in 1..Len(sorted) : sorted[i].k = q])]

K(W) == Len(W.keys)
Empty(W) == [i \in 1..K(W) |-> None]

\* position of the key of (s, p); 0 if nothing is ever stored there
Key(W, s, p) ==
    IF s = None \/ p = None THEN 0
    ELSE LET q == <<W.canon[s], W.canon[p]>>
         IN  IF W.ok[s] /\ W.ok[p] /\ q \in DOMAIN W.kidx THEN W.kidx[q] ELSE 0
At(W, st, s, p) == IF Key(W, s, p) = 0 THEN None ELSE st[Key(W, s, p)]

Storable(W, s, p) == s # None /\ p # None /\ W.ok[s] /\ W.ok[p]

\* ---------------------------------------------------------------- operations
\* e: [k, s, p, o, g, n] - operation, values, GETOP operation, number of records

Out(k, ok, s, p, o) == [k |-> k, st |-> ok, s |-> s, p |-> p, o |-> o]

PutOk(W, e) == Storable(W, e.s, e.p) /\ W.ok[e.o]
AfterPut(W, st, e) == IF PutOk(W, e) THEN [st EXCEPT ![Key(W, e.s, e.p)] = e.o] ELSE st
AfterDelete(W, st, e) == IF Key(W, e.s, e.p) = 0 THEN st ELSE [st EXCEPT ![Key(W, e.s, e.p)] = None]

Object(W, o) == IF o = Hidden THEN Hidden ELSE W.dec[o]

\* ---- ordered retrieval
\* the part of the keys that a GETOP names
Prefix(W, e) == W.enc[e.s] \o (IF e.p # None /\ W.ok[e.p] THEN W.enc[e.p] ELSE <<>>)
\* first position whose key is not smaller than b
SeekPos(W, b) == LET S == {i \in 1..K(W) : ~BLess(W.kb[i], b)}
                 IN  IF S = {} THEN K(W) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j

Up(W, st, from, to) == SelectSeq([i \in 1..K(W) |-> i], LAMBDA i : st[i] # None /\ from <= i /\ i <= to)
Down(W, st, from, to) == Reverse(Up(W, st, to, from))
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
WithPrefix(W, b, s) == SelectSeq(s, LAMBDA i : BPrefix(b, W.kb[i]))

NumericRange(W, e, tp) == e.p = None /\ tp \in Numeric

\* e.tp: type of the predicate, also when there is no predicate
\* the positions of the records a GETOP finds, in order; a set because two
\* readings are possible when NEXT and PREV name a prefix that no key has
Hits(W, st, e) ==
    LET N == K(W) IN
    CASE e.g = FIRST -> {Take(Up(W, st, 1, N), e.n)}
      [] e.g = LAST  -> {Take(Down(W, st, N, 1), e.n)}
      [] e.g \in EQ..PREV \cup {LOWEST, HIGHEST} /\ ~(e.s # None /\ W.ok[e.s]) -> {<<>>}
      [] e.g = EQ -> {Take(WithPrefix(W, Prefix(W, e), Up(W, st, 1, N)), 1)}
      [] e.g = NEXT ->
            LET b == Prefix(W, e)  r == Take(Up(W, st, SeekPos(W, b), N), e.n)
            IN  IF WithPrefix(W, b, Up(W, st, 1, N)) = <<>> THEN {r, <<>>} ELSE {r}
      [] e.g = PREV ->
            LET b == Prefix(W, e)
                up == Up(W, st, SeekPos(W, b), N)
                r == IF up = <<>> THEN <<>> ELSE Take(Down(W, st, up[1], 1), e.n)
            IN  IF WithPrefix(W, b, Up(W, st, 1, N)) = <<>> THEN {r, <<>>} ELSE {r}
      [] e.g = LOWEST ->
            LET b == Prefix(W, e)
                from == IF NumericRange(W, e, e.tp) THEN SeekPos(W, b \o <<W.neg>>) ELSE SeekPos(W, b)
            IN  {Take(WithPrefix(W, b, Up(W, st, from, N)), e.n)}
      [] e.g = HIGHEST ->
            LET b == Prefix(W, e)
                past == Past(IF NumericRange(W, e, e.tp) THEN b \o <<W.pos>> ELSE b)
                to == IF past = <<>> THEN N ELSE SeekPos(W, past) - 1
            IN  {Take(WithPrefix(W, b, Down(W, st, to, 1)), e.n)}
      [] OTHER -> {<<>>}

Record(W, st, i) == Out("GETOP", TRUE, W.dec[W.keys[i][1]], W.dec[W.keys[i][2]], Object(W, st[i]))

\* ---------------------------------------------------------------- results
\* all result lists the operation may produce with the contents st
Answers(W, st, e) ==
    CASE e.k = "PUT" -> {<<Out("PUT", PutOk(W, e), e.s, e.p, None)>>}
      [] e.k = "GET" ->
            IF At(W, st, e.s, e.p) # None
            THEN {<<Out("GET", TRUE, e.s, e.p, Object(W, At(W, st, e.s, e.p)))>>}
            ELSE {<<Out("GET", FALSE, e.s, e.p, None)>>}
      [] e.k = "DELETE" ->
            IF At(W, st, e.s, e.p) # None
            THEN {<<Out("DELETE", TRUE, e.s, e.p, None)>>}
            ELSE IF Storable(W, e.s, e.p)        \* deleting nothing may or may not be an error
            THEN {<<Out("DELETE", TRUE, e.s, e.p, None)>>, <<Out("DELETE", FALSE, e.s, e.p, None)>>}
            ELSE {<<Out("DELETE", FALSE, e.s, e.p, None)>>}
      [] e.k = "GETOP" ->
            LET fail == IF e.g \in {FIRST, LAST}
                        THEN {<<Out("GETOP", FALSE, Whatever, Whatever, None)>>}
                        ELSE {<<Out("GETOP", FALSE, e.s, e.p, None)>>}
            IN  UNION {IF h = <<>> THEN fail ELSE {[i \in 1..Len(h) |-> Record(W, st, h[i])]} : h \in Hits(W, st, e)}
      [] OTHER -> {}

After(W, st, e) ==
    CASE e.k = "PUT" -> AfterPut(W, st, e)
      [] e.k = "DELETE" -> AfterDelete(W, st, e)
      [] OTHER -> st

\* does the recorded result a fit the expected result x
Fits(W, x, a) ==
    /\ a.k = x.k /\ a.st = x.st
    /\ x.s \in {Whatever, a.s} /\ x.p \in {Whatever, a.p}
    /\ \/ x.o \in {Whatever, a.o}
       \/ x.o = Hidden /\ a.o # None /\ W.typ[a.o] = BYTE
=============================================================================
