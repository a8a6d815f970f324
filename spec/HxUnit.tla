------------------------------- MODULE HxUnit -------------------------------
\* Recorded uses of parts of the library, checked one event after the other:
\* rank arithmetic and hashing (Ids), stored form of numbers (Elen), walking
\* results (Cursor), life and options of sessions (Session), configuration
\* sources (Config), messages (Wire).
EXTENDS Elen, Ids, Session, Wire, Json, IOUtils

C == INSTANCE Cursor

Traces == TLCGet(1)
ASSUME TLCSet(1, JsonDeserialize(IOEnv.HX_INPUT))
NT == Len(Traces)

VARIABLES t, l,
    route,      \* <<hash, subject, predicate>> -> datastore; <<"size", ...>> -> announced size
    held,       \* <<rank, name>> -> the results kept under that name
    cur,        \* <<rank, name>> -> cursor
    life,       \* rank -> state of its session
    opts        \* rank -> its options, once they are known
vars == <<t, l, route, held, cur, life, opts>>

T == Traces[t]
E == T.ev[l]
Ranks == 0..(T.ranks - 1)

Init ==
    /\ t \in 1..NT /\ l = 1
    /\ route = <<>> /\ held = <<>> /\ cur = <<>>
    /\ life = [r \in 0..(Traces[t].ranks - 1) |-> "none"]
    /\ opts = [r \in 0..(Traces[t].ranks - 1) |-> <<>>]

\* ------------------------------------------------------------ rank arithmetic
IdsOk(e) ==
    LET n == e.size  c == e.c  s == e.s  per == e.per  P == per + 1
        in(r) == r \in 0..(n - 1)
        yes(x) == x > 0
        cnt == ServerCount(n, c, s)
    IN  /\ \A r \in 0..(n + 1) :
              /\ IF in(r) THEN yes(e.isrs[r + 1]) = IsServer(r, c, s) /\ e.isrs[r + 1] >= 0 ELSE e.isrs[r + 1] < 0
              /\ yes(e.isrsu[r + 1]) = IsServer(r, c, s)
              /\ e.rsid[r + 1] = IF in(r) THEN ServerId(r, c, s) ELSE -1
              /\ e.rsidu[r + 1] = ServerId(r, c, s)
              /\ e.rsrank[r + 1] = IF r < cnt THEN ServerRank(r, n, c, s) ELSE -1
              /\ e.rsranku[r + 1] = ServerRankOf(r, c, s)
        /\ \A i \in 0..((n + 2) * P - 1) :
              LET r == i \div P  o == i % P IN
              /\ e.dsid[i + 1] = IF in(r) THEN DsOf(r, o, c, s, per) ELSE -1
              /\ e.dsidu[i + 1] = DsOf(r, o, c, s, per)
              /\ e.dsrank[i + 1] = IF i < per * cnt THEN DsRank(i, n, c, s, per) ELSE -1
              /\ e.dsranku[i + 1] = ServerRankOf(i \div per, c, s)
        /\ \A i \in 1..Len(e.bad) : e.bad[i] = -1

\* what a session says about itself
InfoOk(e) ==
    /\ e.rc = (life[e.r] = "open")
    /\ e.rc =>
       /\ e.rs = ServerCount(T.ranks, T.client, T.server)
       /\ e.ds = DsCount(T.ranks, T.client, T.server, T.per)
       /\ e.client = T.client /\ e.server = T.server
       /\ e.rank = e.r /\ e.size = T.ranks
       /\ Len(e.loc) = e.ds
       /\ \A i \in 1..Len(e.loc) : e.loc[i].ok /\ e.loc[i].rank = DsRank(i - 1, T.ranks, T.client, T.server, T.per) /\ e.loc[i].off = DsOffset(i - 1, T.per)
       /\ e.mine = IF IsServer(e.r, T.client, T.server) THEN [i \in 1..T.per |-> DsOf(e.r, i - 1, T.client, T.server, T.per)] ELSE <<>>
    /\ ~e.neg /\ ~e.over

\* ------------------------------------------------------------ hashing
Total == DsCount(T.ranks, T.client, T.server, T.per)
RECURSIVE Sum(_)
Sum(b) == IF b = <<>> THEN 0 ELSE b[1] + Sum(SubSeq(b, 2, Len(b)))

HashOk(e, h) ==
    /\ h.ok                                     \* the keys are not changed
    /\ h.x = h.y                                \* only the contents matter
    /\ h.x \in 0..(Total - 1)
    /\ CASE h.n = "ZERO" -> h.x = 0
         [] h.n = "RANK" -> h.x = e.r % Total
         [] h.n = "SUM" -> (e.sb = <<>> /\ e.pb = <<>>) \/ h.x = (Sum(e.sb) + Sum(e.pb)) % Total
         [] OTHER -> TRUE
    /\ h.n # "RANK" /\ <<h.n, e.s, e.p>> \in DOMAIN route => route[<<h.n, e.s, e.p>>] = h.x
HashesOk(e) == \A i \in 1..Len(e.h) : HashOk(e, e.h[i])
Routes(e) == [k \in {<<e.h[i].n, e.s, e.p>> : i \in 1..Len(e.h)} |-> (CHOOSE i \in 1..Len(e.h) : e.h[i].n = k[1]) ]
LearnHashes(e) == LET R == Routes(e) IN [k \in DOMAIN R |-> e.h[R[k]].x] @@ route

\* the pairs an operation hashes, and where they went
OpPairs(e) ==
    IF e.k = "PUT" THEN << <<e.s, e.p>>, <<e.s, e.o>>, <<e.p, e.s>>, <<e.p, e.o>>, <<e.o, e.s>>, <<e.o, e.p>> >>
    ELSE IF e.k = "HIST" THEN <<>> ELSE << <<e.s, e.p>> >>
OpRoutes(e) == LET P == OpPairs(e)
                   I == {i \in 1..Len(P) : e.h[i] # -9}
               IN  {<< <<T.hash, P[i][1], P[i][2]>>, e.h[i]>> : i \in I}
OpOk(e) ==
    /\ e.open = (life[e.r] = "open")
    /\ e.rc => e.open
    /\ e.open /\ T.hash \notin {"RANK", "user"} =>
         /\ \A x \in OpRoutes(e) : x[2] \in 0..(Total - 1) /\ (x[1] \in DOMAIN route => route[x[1]] = x[2])
         /\ \A x, y \in OpRoutes(e) : x[1] = y[1] => x[2] = y[2]
    /\ e.open /\ T.hash = "RANK" => \A x \in OpRoutes(e) : x[2] = e.r % Total
LearnOp(e) ==
    IF e.open /\ T.hash \notin {"RANK", "user"}
    THEN [k \in {x[1] : x \in OpRoutes(e)} |-> (CHOOSE x \in OpRoutes(e) : x[1] = k)[2]] @@ route
    ELSE route

\* ------------------------------------------------------------ stored form of numbers
IsFloat(v) == v.t \in {5, 6}
Signed(v) == v.t \in {1, 2}
\* big endian, ordered like the numbers
FloatKey(b) == LET r == Reverse(b) IN
               IF IsZero([b EXCEPT ![Len(b)] = @ % 128]) THEN [i \in 1..Len(b) |-> IF i = 1 THEN 128 ELSE 0]
               ELSE IF r[1] >= 128 THEN [i \in 1..Len(b) |-> 255 - r[i]] ELSE [r EXCEPT ![1] = @ + 128]
Minus(a, b) ==       \* big endian, a >= b
    LET n == Len(a)
        step(acc, i) == LET v == a[i] - b[i] - acc.c IN [o |-> <<(v + 256) % 256>> \o acc.o, c |-> IF v < 0 THEN 1 ELSE 0]
    IN  FoldLeft(step, [o |-> <<>>, c |-> 0], [i \in 1..n |-> n + 1 - i]).o
RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN 0 ELSE 1 + Bits(x \div 2)
BitLen(a) == LET I == {i \in 1..Len(a) : a[i] # 0} IN
             IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j IN 8 * (Len(a) - i) + Bits(a[i])
Distance(a, b) == LET x == FloatKey(a) y == FloatKey(b) IN IF BLess(x, y) THEN BitLen(Minus(y, x)) ELSE BitLen(Minus(x, y))
MaxOf(a, b) == IF a > b THEN a ELSE b
\* values that agree in all digits kept are at most this many bits of units in the last place apart
Tolerance(v, e) == IF v.t = 5 THEN MaxOf(2, 29 - (33219 * e.fp) \div 10000) ELSE MaxOf(2, 58 - (33219 * e.dp) \div 10000)

ValueOk(e, v) ==
    /\ v.ok
    /\ IF IsFloat(v) THEN Distance(v.b, v.dec) <= Tolerance(v, e)
       ELSE v.enc = EncInt(v.b, Signed(v), e.neg, e.pos) /\ v.dec = v.b
PairOk(e, a, b) ==
    a.t = b.t =>
    IF IsFloat(a)
    THEN LET x == FloatKey(a.b) y == FloatKey(b.b) IN
         /\ x = y => a.enc = b.enc
         /\ BLess(x, y) => BLeq(a.enc, b.enc)
         /\ BLess(x, y) /\ Distance(a.b, b.b) > Tolerance(a, e) + 1 => BLess(a.enc, b.enc)
    ELSE /\ (a.b = b.b) = (a.enc = b.enc)
         /\ NumLess(a.b, b.b, Signed(a)) = BLess(a.enc, b.enc)
ElensOk(e) ==
    /\ \A i \in 1..Len(e.vs) : ValueOk(e, e.vs[i])
    /\ \A i, j \in 1..Len(e.vs) : i # j => PairOk(e, e.vs[i], e.vs[j])

\* floating point values used in a history come back as precisely as configured
ElenOk(e) == LET p == IF opts[e.r] = <<>> THEN [fp |-> T.fp, dp |-> T.dp] ELSE [fp |-> opts[e.r][1].fp, dp |-> opts[e.r][1].dp] IN
             IsFloat(e.v) => Distance(e.v.b, e.dec) <= Tolerance(e.v, p)

\* ------------------------------------------------------------ results
Key(e) == <<e.r, e.hold>>
Known(e) == Key(e) \in DOMAIN held
Rl(e) ==
    IF ~e.list THEN ~e.rc /\ ~e.touched /\ UNCHANGED cur
    ELSE /\ Known(e)
         /\ LET L == held[Key(e)]  c == cur[Key(e)] IN
            CASE e.what = "list" -> e.rc /\ UNCHANGED cur
              [] e.what = "size" -> e.rc /\ (e.touched => e.v = Len(L)) /\ (~e.nul => e.touched) /\ UNCHANGED cur
              [] e.what = "head" -> e.rc = C!Valid(L, C!Head_(L)) /\ cur' = (Key(e) :> C!Head_(L)) @@ cur
              [] e.what = "next" -> c # 0 => e.rc = C!Valid(L, C!Next_(L, c)) /\ cur' = (Key(e) :> C!Next_(L, c)) @@ cur
              [] e.what = "valid" -> e.rc = C!Valid(L, c) /\ UNCHANGED cur
              [] OTHER -> C!Access(L, c, e) /\ UNCHANGED cur

\* ------------------------------------------------------------ one event
Keep(X) == UNCHANGED X
Others == <<route, held, cur, life, opts>>

Ret(e) ==
    /\ e.null = (life[e.r] # "open")
    /\ IF e.hold # "" THEN held' = (Key(e) :> e.res) @@ held /\ cur' = (Key(e) :> Len(e.res) + 1) @@ cur ELSE Keep(<<held, cur>>)
    /\ Keep(<<route, life>>)
    \* another data set, and perhaps another hash; nothing else
    /\ opts' = IF e.null \/ opts[e.r] = <<>> THEN opts
               ELSE CASE e.f = "chname" -> [opts EXCEPT ![e.r][1].basename = e.a[1]]
                      [] e.f = "chhash" -> [opts EXCEPT ![e.r][1].basename = e.a[1], ![e.r][1].hash = e.a[1], ![e.r][1].hashfn = HashName(e.a[2])]
                      [] OTHER -> opts

Append_(e) ==        \* two recorded lists, one moved to the end of the other; reading them left both cursors at the end
    LET a == <<e.r, e.to>>  b == <<e.r, e.from>> IN
    /\ a \in DOMAIN held /\ b \in DOMAIN held
    /\ held' = (b :> <<>>) @@ (a :> held[a] \o held[b]) @@ held
    /\ cur' = (b :> IF e.e = "append" THEN 1 ELSE 0) @@ (a :> IF e.e = "append" THEN Len(held[a] \o held[b]) + 1 ELSE 0) @@ cur
    /\ Keep(<<route, life, opts>>)

\* Datastores on disk that do not exist are only created on request; another backend may not understand existing ones.
OnDisk(r) == opts[r] = <<>> \/ opts[r][1].type # "IN_MEMORY"
MayFail(r) == OnDisk(r) /\ (opts[r] = <<>> \/ ~opts[r][1].create \/ T.backends > 1)
MustFail(r) == /\ OnDisk(r) /\ opts[r] # <<>> /\ ~opts[r][1].create /\ opts[r][1].openinit
               /\ IsServer(r, opts[r][1].client, opts[r][1].server)
               /\ \A i \in 1..(l - 1) : T.ev[i].e = "life" /\ T.ev[i].r = r => ~(T.ev[i].f \in {"open", "openone"} /\ T.ev[i].rc)

Life(e) ==
    LET s == life[e.r] IN
    /\ CASE e.f = "init" -> /\ e.rc = InitOk(s)
                            /\ life' = [life EXCEPT ![e.r] = "init"]
         [] e.f = "open" -> /\ e.rc => OpenOk(s) /\ ~MustFail(e.r)
                            /\ OpenOk(s) /\ ~e.rc => MayFail(e.r)
                            /\ life' = [life EXCEPT ![e.r] = IF e.rc THEN "open" ELSE IF OpenOk(s) THEN "closed" ELSE s]
         [] e.f = "openone" -> \* only for one rank; the datastore may not exist
                            /\ e.rc => OpenOk(s) /\ T.ranks = 1
                            /\ life' = [life EXCEPT ![e.r] = IF e.rc THEN "open" ELSE IF s = "init" THEN "closed" ELSE s]
         [] e.f = "close" -> /\ e.rc = CloseOk(s)
                             /\ life' = [life EXCEPT ![e.r] = IF CloseOk(s) THEN "closed" ELSE s]
    \* opening keeps the options
    /\ opts' = IF e.f = "init" \/ ~Alive(life'[e.r]) THEN [opts EXCEPT ![e.r] = <<>>] ELSE opts
    /\ Keep(<<route, held, cur>>)

Cfg(e) ==
    /\ e.has = Alive(life[e.r])
    /\ IF ~e.has THEN Keep(opts)
       ELSE IF opts[e.r] = <<>> /\ life[e.r] = "init" /\ e.first
       THEN SettingsOk(T, e.c) /\ opts' = [opts EXCEPT ![e.r] = <<Norm(e.c)>>]
       ELSE IF opts[e.r] = <<>> THEN opts' = [opts EXCEPT ![e.r] = <<Norm(e.c)>>]
       ELSE opts[e.r][1] = Norm(e.c) /\ Keep(opts)
    /\ Keep(<<route, held, cur, life>>)

Set(e) ==
    LET s == life[e.r]
        O == opts[e.r]
        w == IF O = <<>> THEN <<>> ELSE Set_(O[1], e.o, e.a, e.n, T.ranks)
    IN  /\ e.has = Alive(s)
        /\ IF s # "init" THEN ~e.rc ELSE O # <<>> => e.rc = (w # <<>>)
        /\ O # <<>> /\ e.has => Norm(e.c) = IF e.rc THEN w[1] ELSE O[1]
        /\ opts' = IF e.has THEN [opts EXCEPT ![e.r] = <<Norm(e.c)>>] ELSE opts
        /\ Keep(<<route, held, cur, life>>)

Step(e) ==
    CASE e.e = "ids" -> IdsOk(e) /\ Keep(Others)
      [] e.e = "info" -> InfoOk(e) /\ Keep(Others)
      [] e.e = "hashes" -> HashesOk(e) /\ route' = LearnHashes(e) /\ Keep(<<held, cur, life, opts>>)
      [] e.e = "op" -> OpOk(e) /\ route' = LearnOp(e) /\ Keep(<<held, cur, life, opts>>)
      [] e.e = "wire" -> LET key == <<"size", e.req, e.k, e.in>> IN
                         /\ WireOk(e)
                         /\ key \in DOMAIN route => route[key] = e.size     \* however it was built
                         /\ route' = (key :> e.size) @@ route
                         /\ Keep(<<held, cur, life, opts>>)
      [] e.e = "elens" -> ElensOk(e) /\ Keep(Others)
      [] e.e = "elen" -> ElenOk(e) /\ Keep(Others)
      [] e.e = "ret" -> Ret(e)
      [] e.e \in {"append", "rlappend"} -> Append_(e)
      [] e.e = "recheck" -> cur' = (Key(e) :> Len(held[Key(e)]) + 1) @@ cur /\ Keep(<<route, held, life, opts>>)
      [] e.e = "newres" -> held' = (Key(e) :> <<>>) @@ held /\ cur' = (Key(e) :> 1) @@ cur /\ Keep(<<route, life, opts>>)
      [] e.e = "rl" -> Rl(e) /\ Keep(<<route, held, life, opts>>)
      [] e.e = "life" -> Life(e)
      [] e.e = "cfg" -> Cfg(e)
      [] e.e = "set" -> Set(e)
      [] e.e = "havehist" -> /\ e.rc = (life[e.r] = "open")
                             /\ e.ex = IF ~e.rc THEN -1
                                       ELSE IF opts[e.r] # <<>> THEN IF e.text \in opts[e.r][1].names THEN 1 ELSE 0
                                       ELSE IF e.name \in {T.hnames[i] : i \in 1..Len(T.hnames)} THEN 1 ELSE 0
                             /\ Keep(Others)
      [] e.e = "nullcalls" -> e.accepted = 0 /\ Keep(Others)
      [] e.e = "badargs" -> e.accepted = 0 /\ e.before = e.after /\ Keep(Others)
      [] e.e = "bufs" -> e.ok /\ Keep(Others)
      [] e.e \in {"crash", "hang"} -> FALSE
      [] e.e = "phase" -> /\ life' = [r \in Ranks |-> "none"] /\ opts' = [r \in Ranks |-> <<>>]
                          /\ held' = <<>> /\ cur' = <<>> /\ Keep(route)
      [] OTHER -> Keep(Others)

Next == l <= Len(T.ev) /\ Step(E) /\ l' = l + 1 /\ UNCHANGED t

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ checking
Reg(i) == 100 + i
ASSUME \A i \in 1..NT : TLCSet(Reg(i), 0)
Progress == IF l > TLCGet(Reg(t)) THEN TLCSet(Reg(t), l) ELSE TRUE
Report ==
    /\ \A i \in 1..NT : LET g == TLCGet(Reg(i)) IN
          IF g = Len(Traces[i].ev) + 1 THEN TRUE ELSE PrintT(<<"REJECT", Traces[i].id, -1, g, Traces[i].ev[g].no>>)
    /\ PrintT(<<"CHECKED", NT>>)
=============================================================================
