-------------------------------- MODULE IdsMC --------------------------------
\* All layouts up to a size: datastores and range servers are numbered without
\* gaps, every number belongs to one rank and offset, and back.
EXTENDS Ids
CONSTANTS MaxSize, MaxRatio, MaxPer
VARIABLES size, c, s, per
vars == <<size, c, s, per>>

Init == size \in 1..MaxSize /\ c \in 1..MaxRatio /\ s \in 1..MaxRatio /\ per \in 1..MaxPer
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Inverse == Bijective(size, c, s, per)
\* numbers follow the order of ranks and offsets, starting with 0
Dense ==
    LET D == {DsOf(r, o, c, s, per) : r \in 0..(size - 1), o \in 0..(per - 1)} \ {-1}
    IN  D = 0..(DsCount(size, c, s, per) - 1)
Ordered ==
    \A r, q \in 0..(size - 1), o, p \in 0..(per - 1) :
        (DsOf(r, o, c, s, per) # -1 /\ DsOf(q, p, c, s, per) # -1 /\ (r < q \/ (r = q /\ o < p)))
            => DsOf(r, o, c, s, per) < DsOf(q, p, c, s, per)
\* the closed form agrees with counting
Closed == \A id \in 0..(ServerCount(size, c, s) - 1) : ServerRankOf(id, c, s) = ServerRank(id, size, c, s)
\* there is a range server in every group of c ranks
Enough == ServerCount(size, c, s) >= 1 /\ \A r \in 0..(size - 1) : r % c = 0 => IsServer(r, c, s)
=============================================================================
