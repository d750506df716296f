----------------------------- MODULE PlacesGen ------------------------------
(* Random lists of places, sorted; and their neighbours compared.            *)
EXTENDS Places, Rand, SequencesExt, Json
VARIABLES n, x
Word(u) == R32(u)
RSmall(u) == RandomElement({0, 1, 2, 0 - 1})
RPlace(u) == <<IF RPct(60) THEN RSmall(1) ELSE Word(1), IF RPct(70) THEN RandomElement(Locations) ELSE Word(2),
               IF RPct(60) THEN RSmall(2) ELSE Word(3), IF RPct(60) THEN RSmall(3) ELSE Word(4)>>
RNear(p) == LET i == RandomElement(1..4) IN [p EXCEPT ![i] = RSmall(i)]
Init == n = 0 /\ x = <<>>
Choose == /\ x = <<>> /\ UNCHANGED n
          /\ \E p \in {RPlace(0)} : \E k \in {RandomElement(2..14)} :
             x' = <<p>> \o TLCEval([i \in 1..k |-> IF RPct(60) THEN RNear(p) ELSE RPlace(i)])
Sorted(s) == SetToSortSeq(ToSet(s), Less)
Send == /\ x # <<>> /\ x' = <<>> /\ n' = n + 1
        /\ PrintT(ToJson([n |-> n', list |-> x, sorted |-> Sorted(x),
                          cmp |-> [i \in 1..(Len(x) - 1) |-> <<Less(x[i], x[i + 1]), Less(x[i + 1], x[i]), Equal(x[i], x[i + 1])>>]]))
Next == Choose \/ Send
=============================================================================
