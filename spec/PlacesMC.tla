------------------------------ MODULE PlacesMC ------------------------------
(* Three places of a few values: the order is a strict total order whose     *)
(* "neither" is equality.  Pairs are cases for the real comparison.          *)
EXTENDS Places, TLC, Json
CONSTANTS Signed, Unsigned
S3 == {0 - 1, 0, IntMax}
S5 == {IntMin, 0 - 1, 0, 1, IntMax}
S2 == {0 - 1, 2}
VARIABLES a, b, c
P == Signed \X Unsigned \X Unsigned \X Signed
Init == a \in P /\ b \in P /\ c \in P
Spec == Init /\ [][FALSE]_<<a, b, c>>
Law == /\ ~Less(a, a)
       /\ ~(Less(a, b) /\ Less(b, a))
       /\ Less(a, b) /\ Less(b, c) => Less(a, c)
       /\ Less(a, b) \/ Less(b, a) \/ Equal(a, b)
       /\ Equal(a, b) => ~Less(a, b)
PInit == a \in P /\ b \in P /\ c = <<>>
Pairs == PInit /\ [][FALSE]_<<a, b, c>>
Emit == PrintT(ToJson([a |-> a, b |-> b, lt |-> Less(a, b), eq |-> Equal(a, b)]))
=============================================================================
