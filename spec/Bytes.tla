------------------------------- MODULE Bytes -------------------------------
\* Byte strings are sequences of 0..255.
EXTENDS Integers, Sequences, FiniteSets

LOCAL MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* lexicographic order of unsigned bytes
BLess(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        D == {i \in 1..n : a[i] # b[i]}
    IN  IF D = {} THEN Len(a) < Len(b)
        ELSE LET i == MinOf(D) IN a[i] < b[i]

BLeq(a, b) == a = b \/ BLess(a, b)

BPrefix(p, s) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : p[i] = s[i]

\* 8 byte little endian representation of a length
LE64(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, 0, 0, 0, 0, 0>>

\* the smallest string larger than every string with the prefix p (<<>>: there is none)
RECURSIVE Past(_)
Past(p) == IF p = <<>> THEN <<>>
           ELSE LET n == Len(p) IN
                IF p[n] = 255 THEN Past(SubSeq(p, 1, n - 1))
                ELSE [p EXCEPT ![n] = @ + 1]
=============================================================================
