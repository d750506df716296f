------------------------------ MODULE FrameGen ------------------------------
(* Long random behaviours of the full-size board, one operation per step.    *)
EXTENDS FrameRand, Json

CONSTANTS Weights, Cap,
          Big      \* whether to start on a board with large piles and stacks
VARIABLES n, b, nid, act

FullPiles == <<1, 2, 16, 32, 64>>
FullZones == <<4, 8, 256, 512, 1024>>
FullZoneLim == (4 :> 7) @@ (8 :> 5) @@ (256 :> 1) @@ (512 :> 2) @@ (1024 :> 1)

W_all == <<"add", "add", "remove", "move", "move", "swap", "swap", "shuffle", "resize", "splice", "pswap", "add", "move">>
W_move == <<"add", "add", "remove", "move", "move", "move", "move", "move">>
W_swap == <<"add", "add", "add", "move", "swap", "swap", "swap", "swap", "shuffle", "shuffle", "shuffle">>
W_pile == <<"add", "move", "resize", "resize", "splice", "splice", "splice", "splice", "pswap">>
W_wipe == <<"clear", "clear", "move", "swap", "splice", "pswap", "shuffle", "add", "remove">>
W_clear == <<"add", "add", "add", "add", "move", "move", "resize", "clear", "splice">>

Sizes == <<0, 1, 5, 126, 127, 128, 200, 254, 255, 256, 257, 300>>
BigPile(k) == LET len == Pick(Sizes) IN [i \in 1..len |-> <<k[1], k[2], i - 1, NoOseq>>]
BigStack(k) == LET len == Pick(Sizes) IN <<<<k[1], k[2], k[3], NoOseq>>>> \o [i \in 1..len |-> <<k[1], k[2], k[3], i - 1>>]
\* The cards there are in the beginning, as places to add them at.
\* Everywhere: some cards in every pile and most zones.
Everywhere(x) == FlattenSeq([i \in 1..Cardinality(PileKeys) |-> LET k == SetToSeq(PileKeys)[i] IN [j \in 1..RandomElement(0..60) |-> <<k[1], k[2], j - 1, NoOseq>>]])
                 \o FlattenSeq([i \in 1..Cardinality(ZoneKeys) |-> LET k == SetToSeq(ZoneKeys)[i] IN
                                    IF Chance(25) THEN <<>>
                                    ELSE <<<<k[1], k[2], k[3], NoOseq>>>> \o [j \in 1..RandomElement({0, 0, 1, 2, 3, 20}) |-> <<k[1], k[2], k[3], j - 1>>]])
Before(a) == IF ~Big THEN <<>>
             ELSE IF Chance(50) THEN Everywhere(0)
             ELSE FlattenSeq([i \in 1..Len(a.piles) |-> BigPile(a.piles[i])]) \o BigStack(a.zones[1]) \o BigStack(a.zones[2])
Filled(pre) == FoldLeftDomain(LAMBDA x, i : PutCard(x, pre[i], i), EmptyFrame, pre)
Init == n = 0 /\ b = EmptyFrame /\ nid = 1 /\ act = <<>>
Start == /\ n = 0 /\ n' = 1
         /\ \E a \in {RandAct(n)} : \E pre \in {TLCEval(Before(a))} :
              /\ act' = a /\ b' = Filled(pre) /\ nid' = Len(pre) + 1
              /\ PrintT(ToJson([n |-> 1, op |-> [k |-> "new", pre |-> pre], post |-> Dump(b')]))
Step == /\ n > 0 /\ n' = n + 1 /\ act' = act
        /\ \E D \in {Dump(b)} : \E op \in {GenOp(b, act, D, Weights, Cap)} :
             LET grow == NewCards(b, op)
             IN /\ b' = ApplyOp(b, op, [i \in 1..grow |-> nid + i - 1])
                /\ nid' = nid + grow
                /\ PrintT(ToJson([n |-> n', op |-> op, post |-> Dump(b')]))
Next == Start \/ Step
Spec == Init /\ [][Next]_<<n, b, nid, act>>
Sane == SinglePlace(b)
=============================================================================
