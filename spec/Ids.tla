-------------------------------- MODULE Ids ---------------------------------
\* Range servers and datastores: how many there are and where they live.
\* c, s: client and server part of the ratio; per: datastores per range server.
EXTENDS Integers, FiniteSets, Sequences

IsServer(rank, c, s) == s >= c \/ rank % c < s

\* range servers are numbered in rank order
Servers(size, c, s) == {r \in 0..(size - 1) : IsServer(r, c, s)}
ServerCount(size, c, s) == Cardinality(Servers(size, c, s))
ServerId(rank, c, s) == IF IsServer(rank, c, s) THEN Cardinality({r \in 0..(rank - 1) : IsServer(r, c, s)}) ELSE -1
ServerRank(id, size, c, s) == IF \E r \in Servers(size, c, s) : ServerId(r, c, s) = id
                              THEN CHOOSE r \in Servers(size, c, s) : ServerId(r, c, s) = id
                              ELSE -1

\* the same without a limit on the number of ranks
ServerRankOf(id, c, s) == IF s >= c THEN id ELSE ((id \div s) * c) + (id % s)

\* datastores are numbered range server by range server
DsCount(size, c, s, per) == per * ServerCount(size, c, s)
DsOf(rank, off, c, s, per) == IF IsServer(rank, c, s) /\ off < per THEN ServerId(rank, c, s) * per + off ELSE -1
DsRank(ds, size, c, s, per) == ServerRank(ds \div per, size, c, s)
DsOffset(ds, per) == ds % per

\* the two directions are inverse to each other
Bijective(size, c, s, per) ==
    /\ \A ds \in 0..(DsCount(size, c, s, per) - 1) :
          LET r == DsRank(ds, size, c, s, per) IN
          r \in 0..(size - 1) /\ DsOf(r, DsOffset(ds, per), c, s, per) = ds
    /\ \A r \in 0..(size - 1), o \in 0..(per - 1) :
          LET ds == DsOf(r, o, c, s, per) IN
          ds # -1 => DsRank(ds, size, c, s, per) = r /\ DsOffset(ds, per) = o
=============================================================================
