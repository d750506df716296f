------------------------------- MODULE Places -------------------------------
(* The order of places: <<con, loc, seq, oseq>>, all 32 bit words; con and   *)
(* oseq are signed, loc and seq are not.                                     *)
EXTENDS Words, FiniteSets
Lt(i, a, b) == IF i \in {1, 4} THEN a < b ELSE W_ULt(a, b)
Less(a, b) == \E i \in 1..4 : Lt(i, a[i], b[i]) /\ \A j \in 1..(i - 1) : a[j] = b[j]
Equal(a, b) == \A i \in 1..4 : a[i] = b[i]
\* The locations a board uses.
Locations == {0, 1, 2, 4, 8, 16, 32, 64, 256, 512, 1024}
Class(l) == IF l = 0 THEN "empty" ELSE IF l \in {1, 2, 16, 32, 64} THEN "pile" ELSE "zone"
=============================================================================
