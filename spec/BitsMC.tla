------------------------------- MODULE BitsMC -------------------------------
(* Choosing goes bit by bit from one end until there are enough; that is     *)
(* choosing the highest (lowest).  Every value of W bits and every count;    *)
(* each final state is a case for the real functions.                        *)
EXTENDS Bits, TLC, Json
CONSTANT W
VARIABLES S, c, i, got, up
vars == <<S, c, i, got, up>>
Init == S \in SUBSET (0..(W - 1)) /\ c \in 0..(W + 1) /\ up \in BOOLEAN /\ i = 0 /\ got = {}
Step == /\ i < W /\ Cardinality(got) < c
        /\ LET b == IF up THEN i ELSE W - 1 - i
           IN got' = IF b \in S THEN got \cup {b} ELSE got
        /\ i' = i + 1 /\ UNCHANGED <<S, c, up>>
Done == i = W \/ Cardinality(got) >= c
Spec == Init /\ [][Step]_vars
Law == Done => /\ got = IF up THEN Lowest(S, c) ELSE Highest(S, c)
               /\ got \subseteq S
               /\ Cardinality(got) = (IF c < Cardinality(S) THEN c ELSE Cardinality(S))
               /\ \A a \in got, b \in S \ got : IF up THEN a < b ELSE a > b
Emit == Done /\ up => PrintT(ToJson([w |-> W, x |-> ToString(Lo(S)) \o ":" \o ToString(Hi(S)), c |-> ToString(c), pop |-> Count(S),
           l |-> ToString(Lo(Highest(S, c))) \o ":" \o ToString(Hi(Highest(S, c))),
           r |-> ToString(Lo(Lowest(S, c))) \o ":" \o ToString(Hi(Lowest(S, c)))]))
=============================================================================
