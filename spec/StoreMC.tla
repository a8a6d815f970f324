------------------------------- MODULE StoreMC -------------------------------
\* Ordered retrieval, for all contents of a datastore with a few keys: what the
\* operations return, said without positions and searches.
EXTENDS HxStore
CONSTANTS Set, MaxN
BVal(b) == [t |-> BYTE, b |-> b, e |-> <<>>, d |-> b]
IVal(n) == [t |-> INT32, b |-> IF n >= 0 THEN <<n, 0, 0, 0>> ELSE <<256 + n, 255, 255, 255>>, e |-> <<>>, d |-> <<>>]

Values ==
    CASE Set = "bytes" -> <<BVal(<<97>>), BVal(<<97, 0>>), BVal(<<97, 255>>), BVal(<<255>>), BVal(<<98>>)>>
      [] Set = "numbers" -> <<BVal(<<97>>), IVal(-12), IVal(-3), IVal(0), IVal(2), IVal(10)>>
Pairs ==
    CASE Set = "bytes" -> {<<1, 1>>, <<1, 4>>, <<1, 5>>, <<2, 1>>, <<3, 4>>, <<4, 1>>, <<4, 4>>, <<5, 3>>}
      [] Set = "numbers" -> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<4, 2>>, <<5, 1>>}
W == TLCGet(1)
ASSUME TLCSet(1, TLCEval(MkWorld([neg |-> 47, pos |-> 58, xor |-> {}, fail |-> {}], Values, Pairs)))

VARIABLES st, e
vars == <<st, e>>
NV == Len(Values)
Init ==
    /\ st \in [1..K(W) -> {0, 1}]
    /\ e = <<>>
Next == \* (contents first, then the operation)
    /\ e = <<>> /\ UNCHANGED st
    /\ e' \in {x \in [k : {"GETOP"}, s : 1..NV, p : 0..NV, o : {0}, g : EQ..HIGHEST, n : 1..MaxN, tp : {BYTE, INT32}] :
                x.p # 0 => x.tp = Values[x.p].t}
Spec == Init /\ [][Next]_vars

Live == {i \in 1..K(W) : st[i] # None}
Starts(i) == BPrefix(Prefix(W, e), W.kb[i])
Less(i, j) == BLess(W.kb[i], W.kb[j])
Ascending(h) == \A i, j \in 1..Len(h) : i < j => Less(h[i], h[j])
Descending(h) == \A i, j \in 1..Len(h) : i < j => Less(h[j], h[i])
Rest(h) == Live \ {h[i] : i \in 1..Len(h)}
\* a record that could still be added is not nearer than those that were taken
Full(h, S) == Len(h) = IF Cardinality(S) < e.n THEN Cardinality(S) ELSE e.n
Lowest(h, S) == Ascending(h) /\ Full(h, S) /\ (\A i \in 1..Len(h) : h[i] \in S) /\ \A x \in S \cap Rest(h), i \in 1..Len(h) : Less(h[i], x)
Highest(h, S) == Descending(h) /\ Full(h, S) /\ (\A i \in 1..Len(h) : h[i] \in S) /\ \A x \in S \cap Rest(h), i \in 1..Len(h) : Less(x, h[i])

\* numbers sort as numbers: the predicates of one subject
Digit(i) == W.keys[i][2]
NumOf(v) == LET b == Values[v].b IN IF b[2] = 255 THEN b[1] - 256 ELSE b[1]
Numeric1(i) == Values[Digit(i)].t = INT32
SameSubject(i, j) == W.keys[i][1] = W.keys[j][1]
Numbers == \A i, j \in 1..K(W) : (SameSubject(i, j) /\ Numeric1(i) /\ Numeric1(j)) => (Less(i, j) <=> NumOf(Digit(i)) < NumOf(Digit(j)))

Keys == \A i, j \in 1..K(W) : i < j => Less(i, j)
Walk == e # <<>> =>
    \A h \in Hits(W, st, e) :
        LET here == {i \in Live : Starts(i)}
            above == {i \in Live : ~BLess(W.kb[i], Prefix(W, e))}
            first == {i \in above : \A j \in above : ~Less(j, i)}
            below == {i \in Live : \E j \in first : ~Less(j, i)}
        IN
        CASE e.g = FIRST -> Lowest(h, Live)
          [] e.g = LAST -> Highest(h, Live)
          [] e.g = EQ -> IF here = {} THEN h = <<>> ELSE Len(h) = 1 /\ h[1] \in here /\ \A x \in here : ~Less(x, h[1])
          [] e.g = NEXT -> (here = {} /\ h = <<>>) \/ Lowest(h, above)
          [] e.g = PREV -> (here = {} /\ h = <<>>) \/ Highest(h, below)
          [] e.g = LOWEST /\ ~NumericRange(W, e, e.tp) -> Lowest(h, here)
          [] e.g = HIGHEST /\ ~NumericRange(W, e, e.tp) -> Highest(h, here)
          \* among the numeric predicates of the subject
          [] e.g = LOWEST -> Ascending(h) /\ \A i \in 1..Len(h) : h[i] \in here
          [] e.g = HIGHEST -> Descending(h) /\ \A i \in 1..Len(h) : h[i] \in here
Answered == e # <<>> =>
    \A x \in Answers(W, st, e) :
        /\ Len(x) >= 1
        /\ \A i \in 1..Len(x) : Len(x) > 1 => x[i].st
        /\ \A i \in 1..Len(x) : x[i].st => x[i].o # None
=============================================================================
