------------------------------ MODULE QueryGen ------------------------------
(* Random query sequences over a few cards.                                  *)
EXTENDS Query, Json, FiniteSets, Words
CONSTANTS NCards
VARIABLES n, cards

Pick(s) == s[RandomElement(1..Len(s))]
Chance(p) == RandomElement(1..100) <= p
RW(x) == RandomElement({0, 1, 2, 3, 4, 8, 255, 256, 65535, 65536, IntMax, IntMin, 0 - 1,
                        RandomElement(1..IntMax), 0 - RandomElement(1..IntMax), RandomElement(1..5000)})
RPlace(x) == <<RandomElement({0, 1}), RandomElement({1, 2, 4, 8, 16, 32, 64, 256, 512}), RandomElement(0..6),
               RandomElement({0 - 1, 0, 1, 2})>>
RK(x) == IF Chance(2) THEN RandomElement(30..40) ELSE RandomElement(0..3)
RVal(f) == IF f \in BoolFields THEN RandomElement({0, 1})
           ELSE IF f = "owner" THEN RandomElement({0, 1})
           ELSE IF f = "race" THEN ToString(RW(0)) \o ":" \o ToString(RW(1))
           ELSE IF f = "equipped_to" THEN RPlace(0)
           ELSE IF f = "targets" THEN LET k == RK(0) IN [i \in 1..k |-> RPlace(i)]
           ELSE IF f = "counters" THEN LET k == RK(0)
                                       IN [i \in 1..k |-> [type |-> RandomElement(1..70000), count |-> RandomElement(1..9)]]
           ELSE RW(0)
RElem(f) == IF f = "targets" THEN RPlace(0) ELSE [type |-> RandomElement(1..70000), count |-> RandomElement(1..9)]
\* A list differing in one component of one entry, in length by one, or in order only.
NearElem(f, e) == IF f = "targets" THEN LET i == RandomElement(1..4) IN [e EXCEPT ![i] = IF @ = 1 THEN IF i = 2 THEN 2 ELSE 0 ELSE 1]
                  ELSE IF Chance(50) THEN [e EXCEPT !.count = @ + 1] ELSE [e EXCEPT !.type = @ + 1]
NearList(f, v) == LET i == RandomElement(1..Len(v))  how == Pick(<<"elem", "elem", "more", "less", "order">>) IN
                  CASE how = "elem" -> [v EXCEPT ![i] = NearElem(f, @)]
                    [] how = "more" -> Append(v, RElem(f))
                    [] how = "less" -> SubSeq(v, 1, Len(v) - 1)
                    [] how = "order" -> SubSeq(v, i, Len(v)) \o SubSeq(v, 1, i - 1)
\* A near miss: a place or race differing in one component only.
Near(f, v) == IF f \in ListFields /\ Len(v) > 0 THEN NearList(f, v)
              ELSE IF f = "equipped_to" THEN LET i == RandomElement(1..4) IN [v EXCEPT ![i] = IF @ = 1 THEN 0 ELSE 1]
              ELSE IF f \in WordFields THEN W_Add(v, Pick(<<1, IntMin, 65536, 256>>))
              ELSE RVal(f)
RData(card, pct) ==
    LET S == {f \in Fields : Chance(pct)}
    IN [f \in S |-> LET r == RandomElement(1..10)
                    IN IF r <= 4 THEN card[f] ELSE IF r <= 6 THEN Near(f, card[f]) ELSE RVal(f)]

Init == n = 0 /\ cards = [c \in 1..NCards |-> Blank]
Diff(c) == LET S == {f \in Fields : cards'[c][f] # BlankValue(f)} IN [f \in S |-> cards'[c][f]]
Start == n = 0 /\ n' = 1 /\ cards' = cards /\ PrintT(ToJson([n |-> 1]))
Step == /\ n > 0 /\ n' = n + 1
        /\ \E c \in {RandomElement(1..NCards)} :
           \E pct \in {Pick(<<5, 20, 50, 100>>)} :
           \E d \in {RData(cards[c], pct)} :
             /\ cards' = ApplyQuery(cards, c, d)
             /\ PrintT(ToJson([n |-> n', c |-> c, data |-> d, hits |-> Hits(cards, c, d),
                               post |-> [x \in 1..NCards |-> Diff(x)]]))
Next == Start \/ Step
=============================================================================
