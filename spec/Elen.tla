-------------------------------- MODULE Elen --------------------------------
\* Order preserving decimal encoding of integers ("Efficient Lexicographic
\* Encoding of Numbers"), defined over the machine representation of the
\* numbers (little endian bytes), so that it is not limited by TLC's integers.
EXTENDS Bytes, SequencesExt

RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<n>> ELSE Append(NatDigits(n \div 10), n % 10)

\* ds: decimal digits, least significant first; result: ds * 256 + b
MulAdd(ds, b) ==
    LET step(acc, x) == LET v == x * 256 + acc.c
                        IN  [o |-> Append(acc.o, v % 10), c |-> v \div 10]
        r == FoldLeft(step, [o |-> <<>>, c |-> b], ds)
    IN  IF r.c = 0 THEN r.o ELSE r.o \o Reverse(NatDigits(r.c))

\* decimal digits (most significant first) of an unsigned little endian number
Digits(bs) ==
    LET r == Reverse(FoldLeft(MulAdd, <<>>, Reverse(bs)))
    IN  IF r = <<>> THEN <<0>> ELSE r

Negate(bs) ==        \* two's complement
    LET step(acc, x) == LET v == (255 - x) + acc.c
                        IN  [o |-> Append(acc.o, v % 256), c |-> v \div 256]
    IN  FoldLeft(step, [o |-> <<>>, c |-> 1], bs).o

IsNeg(bs) == bs[Len(bs)] >= 128
IsZero(bs) == \A i \in 1..Len(bs) : bs[i] = 0

Flip(ds) == [i \in 1..Len(ds) |-> 9 - ds[i]]
Ascii(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]

\* prefix character, the encoded number of digits if there is more than one, the digits
RECURSIVE Positive(_, _)
Positive(ds, pos) ==
    <<pos>> \o (IF Len(ds) > 1 THEN Positive(NatDigits(Len(ds)), pos) ELSE <<>>) \o Ascii(ds)

RECURSIVE Negative(_, _)
Negative(ds, neg) ==
    <<neg>> \o (IF Len(ds) > 1 THEN Negative(NatDigits(Len(ds)), neg) ELSE <<>>) \o Ascii(Flip(ds))

EncInt(bs, signed, neg, pos) ==
    IF IsZero(bs) THEN <<48>>
    ELSE IF signed /\ IsNeg(bs) THEN Negative(Digits(Negate(bs)), neg)
    ELSE Positive(Digits(bs), pos)

\* order of the numbers themselves (signed or unsigned, little endian)
NumLess(a, b, signed) ==
    LET key(x) == LET r == Reverse(x)
                  IN  IF signed THEN [r EXCEPT ![1] = (@ + 128) % 256] ELSE r
    IN  BLess(key(a), key(b))
=============================================================================
