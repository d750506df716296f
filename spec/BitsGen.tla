------------------------------ MODULE BitsGen -------------------------------
(* Random cases for every width.                                             *)
EXTENDS Bits, Rand, Json
VARIABLES n, x
Pick(w) == LET r == RandomElement(1..8) IN
           CASE r = 1 -> {} [] r = 2 -> 0..(w - 1) [] r = 3 -> {RandomElement(0..(w - 1))}
             [] r = 4 -> (0..(w - 1)) \ {RandomElement(0..(w - 1))}
             [] r = 5 -> (RandomElement(0..(w - 1)))..(w - 1) [] r = 6 -> 0..RandomElement(0..(w - 1))
             [] OTHER -> RandomSubset(RandomElement(1..w), 0..(w - 1))
\* Counts beyond the width, too.
PickCount(w, S) == ROf(<<RandomElement(0..w), RandomElement(0..w), RandomElement(0..(Cardinality(S) + 1)), Cardinality(S),
                         0, 1, w, w + 1, 255, 256, 65536, IntMax, 0 - 1>>)
Up(c) == IF c < 0 THEN 65 ELSE c
Init == n = 0 /\ x = <<>>
Choose == x = <<>> /\ UNCHANGED n
          /\ \E w \in {RandomElement({8, 16, 32, 64, 64})} : \E S \in {Pick(w)} : x' = <<w, S, PickCount(w, S)>>
Show(S) == ToString(Lo(S)) \o ":" \o ToString(Hi(S))
Send == /\ x # <<>> /\ x' = <<>> /\ n' = n + 1
        /\ PrintT(ToJson([n |-> n', w |-> x[1], x |-> Show(x[2]), c |-> ToString(x[3]), pop |-> Count(x[2]),
                          l |-> Show(Highest(x[2], Up(x[3]))), r |-> Show(Lowest(x[2], Up(x[3])))]))
Next == Choose \/ Send
=============================================================================
