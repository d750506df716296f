------------------------------ MODULE QueryMC ------------------------------
EXTENDS Query, FiniteSets
CONSTANTS Probe  \* the fields explored
VARIABLES cards, last
Val(f) == IF f = "race" THEN {"0:0", "1:0", "0:1"} ELSE IF f = "equipped_to" THEN {<<0, 0, 0, 0>>, <<0, 4, 1, 0>>}
          ELSE IF f = "targets" THEN {<<>>, <<<<0, 4, 1, 0>>>>} ELSE {0, 1}
RECURSIVE Datas(_)
Datas(S) == IF S = {} THEN {[x \in {} |-> 0]}
            ELSE LET f == CHOOSE f \in S : TRUE
                     R == Datas(S \ {f})
                 IN R \cup {d @@ (f :> v) : d \in R, v \in Val(f)}
All == Datas(Probe)
Init == cards = [c \in 1..2 |-> Blank] /\ last = <<>>
Next == \E c \in 1..2, d \in All : cards' = ApplyQuery(cards, c, d) /\ last' = <<>>
Spec == Init /\ [][Next]_<<cards, last>>
Law == \A c \in 1..2, d \in All :
    LET x == ApplyQuery(cards, c, d) IN
    /\ x[3 - c] = cards[3 - c]
    /\ \A f \in Fields : f \notin DOMAIN d => x[c][f] = cards[c][f]
    /\ \A f \in DOMAIN d : x[c][f] = d[f]
    /\ Hits(x, c, d) = DOMAIN d \cap ScalarFields       \* asking again hits everything
    /\ ApplyQuery(x, c, d) = x
    /\ \A f \in Hits(cards, c, d) : x[c][f] = cards[c][f]
=============================================================================
