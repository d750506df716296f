-------------------------------- MODULE Bits --------------------------------
(* Choosing bits.  A value of width w is the set of its set bits.            *)
EXTENDS Words, FiniteSets, FiniteSetsExt
Count(S) == Cardinality(S)
\* The c highest (lowest) members, or all.
Highest(S, c) == {b \in S : Cardinality({d \in S : d > b}) < c}
Lowest(S, c) == {b \in S : Cardinality({d \in S : d < b}) < c}
Word(S) == LET v == FoldSet(LAMBDA b, a : a + W_Pow2[b], 0, S \ {31}) IN IF 31 \in S THEN IntMin + v ELSE v
Lo(S) == Word({b \in S : b < 32})
Hi(S) == Word({b - 32 : b \in {d \in S : d >= 32}})
=============================================================================
