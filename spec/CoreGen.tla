------------------------------ MODULE CoreGen -------------------------------
(* Random streams of engine messages with their translation.  Between        *)
(* messages the sizes of piles and the holders of materials change: they are *)
(* what the board says at that moment.                                       *)
EXTENDS CoreRand, Json
CONSTANTS Kinds      \* a sequence of kinds to choose from
VARIABLES n, c, m

AllSeq(S) == SetToSeq(S)
K_event == AllSeq(EventKinds \cup {"WIN", "MATCH_KILL"}) \o <<"WIN", "MATCH_KILL", "RELOAD_FIELD", "RELOAD_FIELD", "HINT", "CARD_HINT", "PLAYER_HINT", "PLAYER_HINT", "CHAINING", "HINT">>
K_request == AllSeq(RequestKinds) \o <<"SELECT_CARD", "SELECT_CARD", "SELECT_PLACE", "SELECT_IDLECMD", "SELECT_BATTLECMD">>
K_query == <<"UPDATE_DATA", "UPDATE_CARD", "UPDATE_DATA">>
K_pile == AllSeq(PileKinds) \o <<"SWAP_GRAVE_DECK", "SWAP_GRAVE_DECK", "RELOAD_FIELD", "DRAW">>
K_move == <<"MOVE">>
K_all == AllSeq(DOMAIN Op \cup {"UNKNOWN"}) \o <<"MOVE", "MOVE", "MOVE", "UPDATE_DATA", "SELECT_CARD", "RELOAD_FIELD">>
K_stream == AllSeq(DOMAIN Op) \o <<"MOVE", "MOVE", "MOVE">>
Placeless == {"NEW_TURN", "NEW_PHASE", "CHAINED", "CHAIN_SOLVING", "CHAIN_NEGATED", "CHAIN_DISABLED", "CHAIN_SOLVED",
              "DAMAGE", "RECOVER", "LPUPDATE", "PAY_LPCOST", "TOSS_COIN", "TOSS_DICE", "HAND_RES", "PLAYER_HINT",
              "SHUFFLE_DECK", "SHUFFLE_HAND", "SHUFFLE_EXTRA", "ANNOUNCE_ATTRIB", "ANNOUNCE_RACE", "ANNOUNCE_NUMBER",
              "ROCK_PAPER_SCISSORS", "SELECT_OPTION", "SELECT_POSITION", "SELECT_YESNO", "MATCH_KILL", "WIN",
              "START", "TAG_SWAP", "DRAW", "REVERSE_DECK"}
K_place == AllSeq(DOMAIN Op \ (Placeless \cup SwallowedKinds)) \o
           <<"MOVE", "MOVE", "UPDATE_DATA", "RELOAD_FIELD", "SELECT_PLACE", "SELECT_DISFIELD", "FIELD_DISABLED">>

RSizes(x) == TLCEval([k \in {0, 1} \X EngPileLocs |-> IF RPct(4) THEN RandomElement({128, 255, 256, 300}) ELSE RandomElement({0, 1, RandomElement(0..20), RandomElement(0..70)})])
RMats(x) == LET Z == {<<con, 4, s>> : con \in {0, 1}, s \in 0..6} \cup {<<con, 8, s>> : con \in {0, 1}, s \in 0..4}
            IN RandomSubset(RandomElement(0..8), Z)
\* Now and then the board looks different.
RShift(cc) == IF RPct(70) THEN cc ELSE [cc EXCEPT !.sizes = RSizes(0), !.mats = RMats(0)]

BoardOf(x) == [sizes |-> [i \in 1..10 |-> x.sizes[<<(i - 1) \div 5, <<1, 2, 16, 32, 64>>[((i - 1) % 5) + 1]>>]],
               mats |-> SetToSeq(x.mats)]
\* Choosing and doing are two steps.
Init == n = 0 /\ c = EmptyC /\ m = [k |-> ""]
Start == /\ n = 0 /\ n' = 1 /\ m' = m
         /\ c' = [EmptyC EXCEPT !.sizes = RSizes(0), !.mats = RMats(0)]
         /\ PrintT(ToJson([n |-> 1, act |-> "new"]))
Choose == /\ n > 0 /\ m.k = "" /\ UNCHANGED <<n, c>>
          /\ \E k \in {ROf(Kinds)} : m' = IF WFGen(k, c) THEN Gen(k, c) ELSE [k |-> "RETRY"]
Send == /\ m.k # "" /\ m' = [k |-> ""] /\ n' = n + 1
        /\ LET t == Tr(m, c) IN
           /\ c' = RShift(t.c)
           /\ PrintT(ToJson([n |-> n', act |-> "msg", k |-> m.k, b |-> BoardOf(c), wire |-> Wire(m),
                             size |-> WireSize(Wire(m)), st |-> t.st, msg |-> t.msg]))
Next == Start \/ Choose \/ Send
=============================================================================
