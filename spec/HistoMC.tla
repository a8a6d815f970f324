------------------------------- MODULE HistoMC -------------------------------
\* Histograms under all sequences of a few values: nothing is counted twice or lost.
EXTENDS Histo
CONSTANTS Gens, Firsts, Vals, Length
VARIABLES cfg, h, seen
vars == <<cfg, h, seen>>
Init == cfg \in [first : Firsts, gen : Gens] /\ h = NewHist /\ seen = <<>>
Next == Len(seen) < Length /\ \E v \in Vals : h' = Add(cfg, h, v) /\ seen' = Append(seen, v) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars

In(S) == Cardinality({i \in 1..Len(seen) : S[i]})
\* every value is in the bucket between its edges; values below the first edge are in none
Counted ==
    (h.edges # <<>> /\ h.den > 0) =>
        \A b \in 1..Len(h.edges) :
            h.counts[b] = In([i \in 1..Len(seen) |-> /\ seen[i] * h.den >= h.edges[b]
                                                     /\ \A c \in (b + 1)..Len(h.edges) : seen[i] * h.den < h.edges[c] \/ h.edges[c] < h.edges[b]])
Summed == h.edges # <<>> => SumSeq(h.counts) = In([i \in 1..Len(seen) |-> seen[i] * (IF h.den = -1 THEN 1 ELSE h.den) >= h.edges[1]])
\* edges are chosen when there are enough values, from exactly those, and never change
Chosen == /\ Len(seen) < cfg.first => h.edges = <<>> /\ h.counts = <<>>
          /\ Len(seen) >= cfg.first => (h.edges # <<>> \/ Generate(cfg.gen, SubSeq(seen, 1, cfg.first)).den = 0)
          /\ h.edges # <<>> => h.edges = Generate(cfg.gen, SubSeq(seen, 1, IF cfg.first = 0 THEN 1 ELSE cfg.first)).edges
Sorted == h.edges # <<>> => \A i \in 2..Len(h.edges) : h.edges[i - 1] <= h.edges[i]
Steady == [][h.edges # <<>> => h'.edges = h.edges /\ h'.n = h.n + 1 /\ \A i \in 1..Len(h.counts) : h'.counts[i] >= h.counts[i]]_vars
=============================================================================
