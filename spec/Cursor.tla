------------------------------- MODULE Cursor -------------------------------
\* Walking a list of results: the list L and the cursor c in 1..Len(L) + 1
\* (Len(L) + 1 is the end; 0 means it is not defined, which is so for a list that
\* was just returned or added to, until the cursor is moved to the head).
EXTENDS Integers, Sequences

Valid(L, c) == c \in 1..Len(L)
Head_(L) == 1
Next_(L, c) == IF Valid(L, c) THEN c + 1 ELSE c

Keyed == {"PUT", "GET", "GETOP", "DELETE"}
\* which accessors a result allows (histp: the histogram itself, even if it has no buckets yet)
Carries(a, what) ==
    CASE what \in {"op", "st", "rs", "ts"} -> TRUE
      [] what \in {"subj", "pred"} -> a.k \in Keyed
      [] what = "obj" -> a.k \in {"GET", "GETOP"} /\ a.st
      [] what = "hist" -> a.k = "HIST" /\ a.st /\ a.hok
      [] what = "histp" -> a.k = "HIST" /\ a.st

\* the call e on list L with the cursor at c
Access(L, c, e) ==
    LET ok == Valid(L, c) /\ Carries(L[c], e.what)
        a == L[c]
    IN  /\ e.rc = ok
        /\ ~ok => ~e.touched
        /\ e.nul => ~e.touched
        /\ ok /\ ~e.nul =>
             /\ e.touched
             /\ CASE e.what = "op" -> e.k = a.k
                  [] e.what = "st" -> e.v = IF a.st THEN 1 ELSE 0
                  [] e.what = "rs" -> e.v = a.rs
                  [] e.what = "subj" -> e.x = a.s
                  [] e.what = "pred" -> e.x = a.p
                  [] e.what = "obj" -> e.x = a.o
                  [] e.what = "hist" -> e.hn = a.hn /\ e.hb = a.hb /\ e.hc = a.hc
                  [] e.what = "histp" -> a.hok => e.hn = a.hn
                  [] OTHER -> TRUE
=============================================================================
