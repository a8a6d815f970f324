-------------------------------- MODULE Histo --------------------------------
\* Histograms of observations in eighths (80 stands for 10.0): exact where the edges are not whole.
\* A histogram collects `first` values, then chooses bucket edges from them and
\* counts every value in the last bucket whose left edge is not larger.
\*   h = [n, cache, den, edges, counts]; edges are numerators over den
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

NewHist == [n |-> 0, cache |-> <<>>, den |-> 0, edges |-> <<>>, counts |-> <<>>]

SMin(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x <= s[i]
SMax(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x >= s[i]

CeilDiv(a, b) == (a + b - 1) \div b
FloorSqrt(n) == CHOOSE k \in 0..n : k * k <= n /\ (k + 1) * (k + 1) > n
FloorCbrt(n) == CHOOSE k \in 0..n : k * k * k <= n /\ (k + 1) * (k + 1) * (k + 1) > n
RECURSIVE FloorLog2(_)
FloorLog2(n) == IF n < 2 THEN 0 ELSE 1 + FloorLog2(n \div 2)

RECURSIVE OddPart(_)
OddPart(n) == IF n % 2 = 0 THEN OddPart(n \div 2) ELSE n
Unspecified(mn) == [den |-> -1, edges |-> <<mn>>]
\* evenly spaced edges; they are sums of steps, so where a step is not exact in binary floating point an edge
\* that should be a possible value may be a little off: such edges are not specified
Even(mn, mx, bins) ==
    IF (mx - mn) % OddPart(bins) # 0 /\ (\E i \in 1..(bins - 1) : (i * (mx - mn)) % bins = 0) THEN Unspecified(mn)
    ELSE [den |-> bins, edges |-> [i \in 1..bins |-> mn * bins + (i - 1) * (mx - mn)]]

\* Scott's rule, bins of width 3.5 * stdev / cbrt(n), when half of the n values are at either end: the
\* standard deviation is range * sqrt(n / (4 * (n - 1))), so there are k bins for the least k with
\* (3.5 * k)^6 * n >= 64 * (n - 1)^3
TwoEnds(s) == LET n == Len(s) IN
    /\ n % 2 = 0 /\ n > 1 /\ n <= 24 /\ SMin(s) < SMax(s)
    /\ 2 * Cardinality({i \in 1..n : s[i] = SMin(s)}) = n /\ 2 * Cardinality({i \in 1..n : s[i] = SMax(s)}) = n
ScottBins(n) == CHOOSE k \in 1..4 : /\ (k^6) * 117649 * n >= 4096 * ((n - 1)^3)
                                    /\ \A j \in 1..(k - 1) : (j^6) * 117649 * n < 4096 * ((n - 1)^3)

\* bins = range * log(b) / log(range), rounded up: the least k with range^k >= b^range
\* (where they are equal, rounding of the logarithms decides); a range of 1 has no such number
LogDefined(b, R) == /\ R \in (IF b = 2 THEN {3, 5, 6, 12, 20, 24} ELSE {5, 6})
LogBins(b, R) == CHOOSE k \in 1..9 : R^k > b^R /\ R^(k - 1) < b^R
LogEdges(b, s) == LET R == (SMax(s) - SMin(s)) \div 8 IN
    IF SMax(s) - SMin(s) = 8 THEN [den |-> 0, edges |-> <<>>]
    ELSE IF LogDefined(b, R) /\ (SMax(s) - SMin(s)) % 8 = 0 THEN Even(SMin(s), SMax(s), LogBins(b, R)) ELSE Unspecified(SMin(s))

\* edges chosen by generator g for the first values s; den = 0: the generator fails;
\* den = -1: edges are not specified, except that they start at the minimum
Generate(g, s) ==
    CASE g = "tens"  -> [den |-> 1, edges |-> <<0, 80, 160, 240, 320>>]
      [] g = "tens3" -> [den |-> 1, edges |-> <<0, 80, 160>>]
      [] g = "10_BUCKETS" ->
            [den |-> 1, edges |-> [i \in 1..10 |-> SMin(s) + (i - 1) * 8 * CeilDiv(SMax(s) - SMin(s), 80)]]
      [] g = "SQUARE_ROOT_CHOICE" -> Even(SMin(s), SMax(s), FloorSqrt(Len(s)))
      [] g = "STURGES_FORMULA"    -> Even(SMin(s), SMax(s), FloorLog2(Len(s)) + 2)
      [] g = "RICE_RULE"          -> Even(SMin(s), SMax(s), FloorCbrt(Len(s)) + 2)
      [] g = "SCOTTS_NORMAL_REFERENCE_RULE" ->
            IF TwoEnds(s) THEN Even(SMin(s), SMax(s), ScottBins(Len(s))) ELSE Unspecified(SMin(s))
      [] g = "UNIFORM_LOG2"  -> LogEdges(2, s)
      [] g = "UNIFORM_LOG10" -> LogEdges(10, s)
      [] OTHER -> [den |-> 0, edges |-> <<>>]

\* bucket of a value (0: below the first edge)
Bucket(den, edges, v) == Cardinality({i \in 1..Len(edges) : edges[i] <= v * den})
Count(den, edges, counts, v) ==
    LET i == IF den = -1 THEN (IF v >= edges[1] THEN 1 ELSE 0) ELSE Bucket(den, edges, v)
    IN  IF i = 0 THEN counts ELSE [counts EXCEPT ![i] = @ + 1]

Add(cfg, h, v) ==
    LET cache == IF h.n < cfg.first THEN Append(h.cache, v) ELSE h.cache
        n == h.n + 1
    IN  IF n < cfg.first THEN [h EXCEPT !.n = n, !.cache = cache]
        ELSE IF h.edges = <<>> THEN
            LET g == Generate(cfg.gen, cache)
                zero == [i \in 1..Len(g.edges) |-> 0]
                vals == IF n > cfg.first THEN Append(cache, v) ELSE cache
            IN  IF g.den = 0 THEN [h EXCEPT !.n = n, !.cache = cache]
                ELSE [h EXCEPT !.n = n, !.cache = cache, !.den = g.den, !.edges = g.edges,
                               !.counts = FoldLeft(LAMBDA c, x : Count(g.den, g.edges, c, x), zero, vals)]
        ELSE [h EXCEPT !.n = n, !.counts = Count(h.den, h.edges, @, v)]

Ready(cfg, h) == h.n >= cfg.first

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))

\* b: reported edges (in eighths; NotInt where they are not), c: reported counts
NotInt == 99999999
Reports(h, b, c) ==
    CASE h.edges = <<>> -> b = <<>> /\ c = <<>>
      [] h.den = -1 -> /\ Len(b) = Len(c) /\ Len(b) > 0
                       /\ b[1] = h.edges[1]
                       /\ SumSeq(c) = h.counts[1]
      [] OTHER -> /\ Len(b) = Len(h.edges)
                  /\ c = h.counts
                  /\ (\A i \in 1..Len(b) : h.edges[i] % h.den = 0) =>
                        \A i \in 1..Len(b) : b[i] = h.edges[i] \div h.den
=============================================================================
