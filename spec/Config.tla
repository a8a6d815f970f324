------------------------------- MODULE Config -------------------------------
\* How the settings of a session follow from the configuration sources.
\*
\* Sources, lowest precedence first: built-in defaults, the file hxhim.conf, the
\* file named by HXHIM_CONFIG, environment variables HXHIM_<option>. Text is
\* handled one character at a time, as TLA+ strings.
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
Blank == {" ", "\t", "\n", "\r", "\f"}

RECURSIVE DropLeft(_)
DropLeft(s) == IF s # "" /\ Ch(s, 1) \in Blank THEN DropLeft(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE DropRight(_)
DropRight(s) == IF s # "" /\ Ch(s, Len(s)) \in Blank THEN DropRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == DropLeft(DropRight(s))

\* pieces between separators
Split(s, c) ==
    LET n == Len(s)
        I == TLCEval(SelectSeq([i \in 1..n |-> i], LAMBDA i : Ch(s, i) = c))
        m == Len(I)
    IN  TLCEval([k \in 1..(m + 1) |-> SubSeq(s, IF k = 1 THEN 1 ELSE I[k - 1] + 1, IF k > m THEN n ELSE I[k] - 1)])

\* ------------------------------------------------------------ key-value text
\* The first word of a line is the key, the rest its value. Lines starting with # are comments.
LineKey(x) == LET s == DropLeft(x)
                  B == {i \in 1..Len(s) : Ch(s, i) \in Blank}
              IN  IF B = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in B : \A j \in B : i <= j) - 1)
IsEntry(x) == LineKey(x) # "" /\ Ch(LineKey(x), 1) # "#"
LineValue(x) == LET s == DropLeft(x) k == LineKey(x) IN Trim(SubSeq(s, Len(k) + 1, Len(s)))

\* the entries of a text: the last line of a key counts
Entries(text) ==
    LET L == TLCEval(SelectSeq(Split(text, "\n"), IsEntry))
        LK == TLCEval([i \in 1..Len(L) |-> LineKey(L[i])])
        K == {LK[i] : i \in 1..Len(L)}
    IN  TLCEval([k \in K |-> LineValue(L[CHOOSE i \in 1..Len(L) : LK[i] = k /\ \A j \in (i + 1)..Len(L) : LK[j] # k])])

\* ------------------------------------------------------------ values
Digit == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
              [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
IsDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in DOMAIN Digit
Big == 1000000000       \* larger numbers are recorded as this
RECURSIVE ToNat(_)
ToNat(s) == IF s = "" THEN 0
            ELSE LET x == ToNat(SubSeq(s, 1, Len(s) - 1)) IN IF x >= 100000000 THEN Big ELSE 10 * x + Digit[Ch(s, Len(s))]

Bad == <<>>             \* the value cannot be read
Good(x) == <<x>>

\* (numbers of more than 19 digits do not fit)
Nat_(s) == LET x == Trim(s) IN IF IsDigits(x) /\ Len(x) <= 19 THEN Good(ToNat(x)) ELSE Bad
Pos_(s) == IF Nat_(s) = Good(0) THEN Bad ELSE Nat_(s)

Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
RECURSIVE ToLower(_)
ToLower(s) == IF s = "" THEN ""
              ELSE LET c == Ch(s, 1)
                       I == {i \in 1..26 : Ch(Upper, i) = c}
                   IN  (IF I = {} THEN c ELSE Ch(Lower, CHOOSE i \in I : TRUE)) \o ToLower(SubSeq(s, 2, Len(s)))
Bool_(s) == CASE ToLower(Trim(s)) = "true" -> Good(TRUE) [] ToLower(Trim(s)) = "false" -> Good(FALSE) [] OTHER -> Bad
Text_(s) == IF s = "" THEN Bad ELSE Good(s)
OneOf(S, s) == IF s \in S THEN Good(s) ELSE Bad
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Char_(s) == LET x == Trim(s) IN
            IF Len(x) = 1 THEN Good(31 + CHOOSE i \in 1..Len(Printable) : Ch(Printable, i) = x) ELSE Bad

DebugLevels == [EMERGENCY |-> 7340032, ALERT |-> 6291456, CRITICAL |-> 5242880, ERROR |-> 4194304, WARNING |-> 3145728, NOTICE |-> 2097152,
                INFO |-> 1048576, DEBUG |-> 983040, DEBUG0 |-> 524288, DEBUG1 |-> 262144, DEBUG2 |-> 131072, DEBUG3 |-> 65536]
Types == {"IN_MEMORY", "LEVELDB", "ROCKSDB"}
Hashes == {"DATASTORE_0", "RANK_MOD_DATASTORES", "SUM_MOD_DATASTORES", "UTHASH_BER", "UTHASH_SAX", "UTHASH_FNV", "UTHASH_OAT", "UTHASH_JEN", "UTHASH_SFH"}
Transports == {"NULL", "MPI"}
Generators == {"10_BUCKETS", "SQUARE_ROOT_CHOICE", "STURGES_FORMULA", "RICE_RULE", "SCOTTS_NORMAL_REFERENCE_RULE", "UNIFORM_LOG2", "UNIFORM_LOG10"}

\* a list of ranks, or ALL of them
Group_(s, size) ==
    IF s = "ALL" THEN Good(0..(size - 1))
    ELSE LET W == SelectSeq(Split(s, " "), LAMBDA x : x # "") IN
         IF \A i \in 1..Len(W) : IsDigits(W[i]) /\ Len(W[i]) <= 9 THEN Good({ToNat(W[i]) : i \in 1..Len(W)}) ELSE Bad

\* names separated by commas
Names(s) == LET P == Split(s, ",") n == Len(P)
            IN  {P[i] : i \in 1..(IF P[n] = "" THEN n - 1 ELSE n)}

\* ------------------------------------------------------------ precedence
Defaults == [DEBUG_LEVEL |-> "CRITICAL", CLIENT_RATIO |-> "2", SERVER_RATIO |-> "1", DATASTORES_PER_SERVER |-> "1",
             DATASTORE_PREFIX |-> ".", DATASTORE_BASENAME |-> "hxhim", DATASTORE |-> "LEVELDB", LEVELDB_CREATE_IF_MISSING |-> "true", ROCKSDB_CREATE_IF_MISSING |-> "true",
             TRANSPORT |-> "NULL", HASH |-> "RANK_MOD_DATASTORES", ENDPOINT_GROUP |-> "ALL", START_ASYNC_PUTS_AT |-> "0",
             MAXIMUM_OPS_PER_REQUEST |-> "128", MAXIMUM_SIZE_PER_REQUEST |-> "1048576", HISTOGRAM_FIRST_N |-> "10",
             HISTOGRAM_BUCKET_GEN_NAME |-> "10_BUCKETS", HISTOGRAM_READ_EXISTING |-> "true", HISTOGRAM_WRITE_AT_EXIT |-> "true",
             ELEN_NEG_SYMBOL |-> "/", ELEN_POS_SYMBOL |-> ":", ELEN_ENCODE_FLOAT_PRECISION |-> "8", ELEN_ENCODE_DOUBLE_PRECISION |-> "16"]

Lookup(L, k) == LET I == {i \in 1..Len(L) : L[i][1] = k} IN
                IF I = {} THEN <<>> ELSE <<L[CHOOSE i \in I : \A j \in I : j <= i][2]>>
FileNamed(T, n) == LET x == Lookup(T.files, n) IN IF x = <<>> THEN [k \in {} |-> ""] ELSE Entries(x[1])
Read(T) == TLCEval([conf |-> FileNamed(T, "hxhim.conf"),
            named |-> LET n == Lookup(T.env, "HXHIM_CONFIG") IN IF n = <<>> THEN [k \in {} |-> ""] ELSE FileNamed(T, n[1]),
            env |-> T.env])

\* the texts given for an option, lowest precedence first (defaults not included)
Given(S, k) == TLCEval((IF k \in DOMAIN S.conf THEN <<S.conf[k]>> ELSE <<>>)
            \o (IF k \in DOMAIN S.named THEN <<S.named[k]>> ELSE <<>>)
            \o Lookup(S.env, "HXHIM_" \o k))

\* The value in effect. When the text that takes precedence cannot be read the option keeps
\* its default or what the next readable source says, but never becomes anything else.
InEffect(S, k, P(_)) ==
    LET G == Given(S, k)
        D == IF k \in DOMAIN Defaults THEN {P(Defaults[k])[1]} ELSE {}
    IN  IF G = <<>> THEN D
        ELSE LET n == Len(G) IN
             IF P(G[n]) # Bad THEN {P(G[n])[1]}
             ELSE D \cup {P(G[i])[1] : i \in {i \in 1..(n - 1) : P(G[i]) # Bad}}
Readable(S, k, P(_)) == LET G == Given(S, k) IN G = <<>> \/ P(G[Len(G)]) # Bad

\* ------------------------------------------------------------ the settings of a new session
\* c: the settings found; size: number of ranks
SettingsOk(T, c) ==
    LET S == Read(T)
        E(k, P(_)) == InEffect(S, k, P)
        group(s) == Group_(s, T.ranks)
        type(s) == OneOf(Types, s)
        trans(s) == OneOf(Transports, s)
        hash(s) == OneOf(Hashes, s)
        gen(s) == OneOf(Generators, s)
        debug(s) == IF s \in DOMAIN DebugLevels THEN Good(DebugLevels[s]) ELSE Bad
        dsgood == Readable(S, "DATASTORE", type) /\ Readable(S, "DATASTORE_PREFIX", Text_) /\ Readable(S, "DATASTORE_BASENAME", Text_)
        create == CASE c.type = "LEVELDB" -> E("LEVELDB_CREATE_IF_MISSING", Bool_)
                    [] c.type = "ROCKSDB" -> E("ROCKSDB_CREATE_IF_MISSING", Bool_)
                    [] OTHER -> {FALSE}
        creategood == Readable(S, "LEVELDB_CREATE_IF_MISSING", Bool_) /\ Readable(S, "ROCKSDB_CREATE_IF_MISSING", Bool_)
        mpigood == Given(S, "NUM_LISTENERS") # <<>> /\ Readable(S, "NUM_LISTENERS", Nat_)
        elen == {"ELEN_NEG_SYMBOL", "ELEN_POS_SYMBOL"}
        neg == E("ELEN_NEG_SYMBOL", Char_)  pos == E("ELEN_POS_SYMBOL", Char_)
        fp == E("ELEN_ENCODE_FLOAT_PRECISION", Nat_)  dp == E("ELEN_ENCODE_DOUBLE_PRECISION", Nat_)
        elenread == /\ Readable(S, "ELEN_NEG_SYMBOL", Char_) /\ Readable(S, "ELEN_POS_SYMBOL", Char_)
                    /\ Readable(S, "ELEN_ENCODE_FLOAT_PRECISION", Nat_) /\ Readable(S, "ELEN_ENCODE_DOUBLE_PRECISION", Nat_)
        elengood == elenread /\ (\A a \in neg, b \in pos : a < b) /\ (\A a \in fp, b \in dp : a < b)
    IN  /\ c.debug \in E("DEBUG_LEVEL", debug)
        /\ c.client \in E("CLIENT_RATIO", Pos_)
        /\ c.server \in E("SERVER_RATIO", Pos_)
        /\ c.per \in E("DATASTORES_PER_SERVER", Pos_)
        /\ c.prefix \in E("DATASTORE_PREFIX", Text_)
        /\ c.basename \in E("DATASTORE_BASENAME", Text_)
        /\ c.postfix \in {""} \cup E("DATASTORE_POSTFIX", Text_)
        /\ Readable(S, "DATASTORE_POSTFIX", Text_) /\ Given(S, "DATASTORE_POSTFIX") # <<>> => c.postfix \in E("DATASTORE_POSTFIX", Text_)
        \* the backend and how it is opened
        /\ IF dsgood /\ creategood THEN c.type \in E("DATASTORE", type) /\ c.create \in create
           ELSE c.type \in E("DATASTORE", type) \cup {"LEVELDB"} /\ c.create \in create \cup {TRUE}
        \* Without a transport every rank uses its own datastores. MPI needs a number of listeners.
        /\ IF ~Readable(S, "TRANSPORT", trans) THEN c.transport \in E("TRANSPORT", trans)
           ELSE IF c.transport = "NULL"
           THEN /\ "NULL" \in E("TRANSPORT", trans) \/ ~mpigood
                /\ "NULL" \in E("TRANSPORT", trans) => c.hash = "RANK_MOD_DATASTORES"
           ELSE c.transport \in E("TRANSPORT", trans) /\ c.listeners \in E("NUM_LISTENERS", Nat_)
        /\ c.hash \in E("HASH", hash) \cup (IF c.transport = "NULL" THEN {"RANK_MOD_DATASTORES"} ELSE {})
        /\ c.hashfn = c.hash
        /\ {c.eps[i] : i \in 1..Len(c.eps)} \in E("ENDPOINT_GROUP", group)
        /\ c.asyncn \in E("START_ASYNC_PUTS_AT", Nat_)
        /\ c.async = (c.asyncn > 0)
        /\ c.ops \in E("MAXIMUM_OPS_PER_REQUEST", Pos_)
        /\ c.size \in E("MAXIMUM_SIZE_PER_REQUEST", Nat_)
        /\ c.firstn \in E("HISTOGRAM_FIRST_N", Nat_)
        /\ c.gen \in E("HISTOGRAM_BUCKET_GEN_NAME", gen)
        /\ c.read \in E("HISTOGRAM_READ_EXISTING", Bool_)
        /\ c.write \in E("HISTOGRAM_WRITE_AT_EXIT", Bool_)
        /\ {c.names[i] : i \in 1..Len(c.names)} =
             LET G == Given(S, "HISTOGRAM_TRACK_PREDICATES") IN IF G = <<>> THEN {} ELSE Names(G[Len(G)])
        \* the symbols and precisions only make sense together
        /\ IF elengood THEN c.neg \in neg /\ c.pos \in pos /\ c.fp \in fp /\ c.dp \in dp
           ELSE /\ c.neg \in neg \cup {47} /\ c.pos \in pos \cup {58} /\ c.neg < c.pos
                /\ c.fp \in fp \cup {8} /\ c.dp \in dp \cup {16} /\ c.fp < c.dp
        /\ c.openinit
        /\ \A i \in 1..Len(c.xf) : c.xf[i] = ""      \* none replaced
=============================================================================
