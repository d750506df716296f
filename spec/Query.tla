------------------------------- MODULE Query -------------------------------
(* What a query does to the cards: it writes exactly the fields it carries   *)
(* of exactly the card it names.  A card is a record of all its fields; the  *)
(* data of a query is a record of the fields it carries.                     *)
EXTENDS Integers, Sequences, TLC

\* Scalar fields by type: 32 bit words, booleans, controllers; race is a
\* 64 bit word written "low:high"; equipped_to is a place; targets are
\* places, counters [type, count].
WordFields == {"code", "position", "alias", "type", "level", "xyz_rank", "attribute", "atk", "def",
               "base_atk", "base_def", "status", "pend_l_scale", "pend_r_scale", "cover", "link_rate",
               "link_arrow"}
BoolFields == {"is_public", "is_hidden"}
ScalarFields == WordFields \cup BoolFields \cup {"owner", "race", "equipped_to"}
ListFields == {"targets", "counters"}
Fields == ScalarFields \cup ListFields

BlankValue(f) == IF f = "race" THEN "0:0" ELSE IF f = "equipped_to" THEN <<0, 0, 0, 0>>
                 ELSE IF f \in ListFields THEN <<>> ELSE 0
Blank == [f \in Fields |-> BlankValue(f)]

ApplyQuery(cards, c, data) ==
    [cards EXCEPT ![c] = [f \in Fields |-> IF f \in DOMAIN data THEN data[f] ELSE @[f]]]
\* With caching on, the scalar fields that already had the value.
Hits(cards, c, data) == {f \in DOMAIN data \cap ScalarFields : cards[c][f] = data[f]}
=============================================================================
