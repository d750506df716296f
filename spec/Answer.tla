------------------------------- MODULE Answer -------------------------------
(* What a player answers to a request, and the response the engine reads.    *)
(*                                                                           *)
(* A choice is a record [k |-> kind, ...] of what the player chose:          *)
(*   attribute, position, card_code [v: word]     a set of bits, a code      *)
(*   effect, number, chain          [i]           an option by index         *)
(*   race                           [lo, hi]                                 *)
(*   rps [v], yes_no [v: 0/1], no_chain                                      *)
(*   cancel, finish                               of a card selection        *)
(*   cards [how, idx: indexes]      how the request offers them              *)
(*   zones [bits: sequence of <<viewer, bit>>]    bits of the engine's mask  *)
(*   sort_skip, sort [idx]                                                   *)
(*   shuffle, phase [battle, v], action [battle, a, i]                       *)
(*   nothing [what]                               nothing is chosen          *)
(* Asks(x), Ans(x) are the messages; Response(x) the bytes.                   *)
EXTENDS Core

Actions == <<"activate", "summon", "spsummon", "reposition", "mset", "sset", "attack">>
ActionNo(a) == CHOOSE i \in 0..6 : Actions[i + 1] = a
\* The engine's number of an action.
EngAction(battle, a) ==
    IF battle = 1 THEN (IF a = "activate" THEN 0 ELSE 1)
    ELSE CASE a = "summon" -> 0 [] a = "spsummon" -> 1 [] a = "reposition" -> 2
           [] a = "mset" -> 3 [] a = "sset" -> 4 [] a = "activate" -> 5
EngPhase(battle, v) == IF battle = 1 THEN (IF v = 256 THEN 2 ELSE 3) ELSE (IF v = 128 THEN 6 ELSE 7)
\* The zone of a bit, to the player and to the engine.
ZonePlace(z) == HalfPlace(IF z[2] < 16 THEN z[1] ELSE 1 - z[1], z[2] % 16)
ZoneBytes(z) == <<IF z[2] < 16 THEN z[1] ELSE 1 - z[1],
                  IF z[2] % 16 < 8 THEN 4 ELSE 8, z[2] % 8>>

Void == [u \in {"_"} |-> 0]
Nothing == <<"", "select_card", "select_idle", "select_to_chain", "select_counter">>
Asks(x) ==
    CASE x.k \in {"attribute", "race", "effect", "number", "position"} -> ("select_" \o x.k :> Void)
      [] x.k = "card_code" -> [select_card_code |-> Void]
      [] x.k = "yes_no" -> [select_yes_no |-> Void]
      [] x.k = "rps" -> [select_rock_paper_scissors |-> <<1>>]
      [] x.k \in {"chain", "no_chain"} -> [select_to_chain |-> Void]
      [] x.k \in {"cancel", "finish", "cards"} -> [select_card |-> (x.how :> Void)]
      [] x.k = "zones" -> [select_zone |-> Void]
      [] x.k \in {"sort_skip", "sort"} -> [sort |-> Void]
      [] x.k \in {"shuffle", "phase", "action"} -> [select_idle |-> [is_battle_cmd |-> x.battle]]
      [] x.k = "nothing" -> IF x.what = "" THEN [select_yes_no |-> Void]
                            ELSE IF x.what = "select_idle" THEN [select_idle |-> [is_battle_cmd |-> 0]]
                            ELSE (x.what :> Void)
Ans(x) ==
    CASE x.k \in {"attribute", "position", "card_code"} -> ("select_" \o x.k :> <<x.v>>)
      [] x.k \in {"effect", "number"} -> ("select_" \o x.k :> <<x.i>>)
      [] x.k = "race" -> [select_race |-> <<Str64(x.lo, x.hi)>>]
      [] x.k = "rps" -> [select_rock_paper_scissors |-> <<x.v>>]
      [] x.k = "yes_no" -> [select_yes_no |-> <<x.v>>]
      [] x.k = "chain" -> [select_to_chain |-> [index |-> <<x.i>>]]
      [] x.k = "no_chain" -> [select_to_chain |-> [no_op |-> <<1>>]]
      [] x.k \in {"cancel", "finish"} -> [select_card |-> (x.k :> <<1>>)]
      [] x.k = "cards" -> [select_card |-> [indexes |-> [values |-> x.idx]]]
      [] x.k = "zones" -> [select_zone |-> [places |-> Map(x.bits, ZonePlace)]]
      [] x.k = "sort_skip" -> [sort |-> [skip |-> <<1>>]]
      [] x.k = "sort" -> [sort |-> [indexes |-> [values |-> x.idx]]]
      [] x.k = "shuffle" -> [select_idle |-> [shuffle |-> <<1>>]]
      [] x.k = "phase" -> [select_idle |-> [phase |-> <<x.v>>]]
      [] x.k = "action" -> [select_idle |-> [card_action |-> [action |-> ActionNo(x.a), index |-> x.i]]]
      [] x.k = "nothing" -> IF x.what = "" THEN Void ELSE (x.what :> Void)

Touches(x) == x.k # "nothing"
Response(x) ==
    CASE x.k \in {"attribute", "position", "card_code", "rps", "yes_no"} -> B4(x.v)
      [] x.k \in {"effect", "number", "chain"} -> B4(x.i)
      [] x.k = "race" -> B8(<<x.lo, x.hi>>)
      [] x.k \in {"no_chain", "cancel", "finish", "sort_skip"} -> B4(0 - 1)
      [] x.k = "cards" -> IF x.how = "recursive" THEN B4(1) \o B4(x.idx[1])
                          ELSE B4(1) \o B4(Len(x.idx)) \o FlattenSeq(Map(x.idx, B2))
      [] x.k = "zones" -> FlattenSeq(Map(x.bits, ZoneBytes))
      [] x.k = "sort" -> B1(Len(x.idx)) \o FlattenSeq(Map(x.idx, B1))
      [] x.k = "shuffle" -> B4(8)
      [] x.k = "phase" -> B4(EngPhase(x.battle, x.v))
      [] x.k = "action" -> B2(EngAction(x.battle, x.a)) \o B2(x.i)
=============================================================================
