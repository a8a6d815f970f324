-------------------------------- MODULE ElenMC -------------------------------
\* The encoding of integers keeps their order, is injective, and none is the
\* beginning of another, for all numbers of a group of bytes, in every position.
EXTENDS Elen
CONSTANTS
    Width,      \* bytes of the numbers
    Signed,
    Step,       \* every how manyeth two-byte number is taken
    At          \* position (0..Width - 2) of the two bytes that vary
VARIABLES k, n    \* (numbers are chosen in two steps only so that the search can be shared out)
Init == k \in 0..63 /\ n = -1
Next == n = -1 /\ n' \in {x \in (k * 1024)..(k * 1024 + 1023) : x % Step = 0} /\ UNCHANGED k
Spec == Init /\ [][Next]_<<k, n>>

Number(x) == [i \in 1..Width |-> IF i = At + 1 THEN x % 256 ELSE IF i = At + 2 THEN x \div 256 ELSE IF Signed /\ i > At + 2 /\ x >= 32768 THEN 255 ELSE 0]
Enc(x) == EncInt(Number(x), Signed, 47, 58)
Others == {x \in {0, 1, 2, 9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 9999, 10000, 32766, 32767, 32768, 32769, 65534, 65535,
                  (n + 1) % 65536, (n + 65535) % 65536, (n + 10) % 65536, (n * 10) % 65536, n \div 10} : x # n}
Keeps == n >= 0 =>
    \A x \in Others :
        /\ NumLess(Number(n), Number(x), Signed) = BLess(Enc(n), Enc(x))
        /\ Enc(n) # Enc(x)
        /\ ~BPrefix(Enc(n), Enc(x))
=============================================================================
