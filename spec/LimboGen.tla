------------------------------ MODULE LimboGen ------------------------------
(* Random histories of frame operations on the full-size board with undoing, *)
(* redoing and forgetting the undone future.                                 *)
EXTENDS Limbo, FrameRand, Json

CONSTANTS Weights, Cap, BackPct, ErasePct
VARIABLES n, L, i, past, script, nid, act, goal, gone   \* gone: the first operation just forgotten

FullPiles == <<1, 2, 16, 32, 64>>
FullZones == <<4, 8, 256, 512, 1024>>
FullZoneLim == (4 :> 7) @@ (8 :> 5) @@ (256 :> 1) @@ (512 :> 2) @@ (1024 :> 1)
W_limbo == <<"add", "add", "add", "remove", "remove", "resize", "resize", "move", "move", "swap", "splice", "pswap",
             "clear", "add", "remove", "shuffle">>

Out(what, bb) == PrintT(ToJson([n |-> n'] @@ what @@ [post |-> Dump(bb)]))
Init == n = 0 /\ L = EmptyLimbo /\ i = 0 /\ past = <<EmptyFrame>> /\ script = <<>> /\ nid = 1
        /\ act = <<>> /\ goal = 0 /\ gone = <<>>
Start == /\ n = 0 /\ n' = 1
         /\ \E a \in {RandAct(n)} : act' = a
         /\ UNCHANGED <<L, i, past, script, nid, goal, gone>>
         /\ Out([act |-> "new", i |-> 0], EmptyFrame)
\* A new future that resembles the forgotten one: the same operation, or one
\* that creates as many cards elsewhere.
Resembling(x) ==
    LET o == gone[1] IN
    IF o.k = "resize" /\ Chance(60)
    THEN LET k == Pick(act.piles)
             more == o.n - Len(L.b.p[PK(o.a)])
         IN IF more > 0 THEN [o EXCEPT !.a = <<k[1], k[2], Len(L.b.p[k]), NoOseq>>, !.n = Len(L.b.p[k]) + more] ELSE o
    ELSE IF o.k = "add" /\ Chance(60) THEN GenAdd(L.b, act)
    ELSE o
Forward == \E o \in {IF gone # <<>> /\ Chance(60) THEN Resembling(0)
                     ELSE GenOp(L.b, act, Dump(L.b), Weights, Cap)} :
    LET g == NewCards(L.b, o)
        ids == [j \in 1..g |-> nid + j - 1]
        bb == ApplyOp(L.b, o, ids)
    IN /\ L' = L_Do(L, o, ids) /\ past' = Append(past, bb) /\ script' = Append(script, o)
       /\ nid' = nid + g /\ i' = i + 1 /\ goal' = i + 1 /\ gone' = <<>>
       /\ Out([act |-> "op", op |-> o, i |-> i + 1], bb)
Undo(g) == /\ L' = L_Undo(L, script[i]) /\ i' = i - 1 /\ goal' = g /\ UNCHANGED <<past, script, nid, gone>>
           /\ Out([act |-> "undo", op |-> script[i], i |-> i - 1], past[i])
Redo(g) == /\ L' = L_Do(L, script[i + 1], <<>>) /\ i' = i + 1 /\ goal' = g /\ UNCHANGED <<past, script, nid, gone>>
           /\ Out([act |-> "redo", op |-> script[i + 1], i |-> i + 1], past[i + 2])
Erase == /\ L' = L_Erase(L) /\ past' = SubSeq(past, 1, i + 1) /\ script' = SubSeq(script, 1, i)
         /\ goal' = i /\ UNCHANGED <<i, nid>>
         /\ gone' = IF i < Len(script) THEN <<script[i + 1]>> ELSE <<>>
         /\ Out([act |-> "erase", i |-> i, undone |-> Len(script) - i], past[i + 1])
Step == /\ n > 0 /\ n' = n + 1 /\ act' = act
        /\ IF Chance(IF i < Len(script) /\ goal = i THEN ErasePct * 6 ELSE ErasePct) THEN Erase
           ELSE \E g \in {IF goal # i THEN goal
                          ELSE IF Chance(BackPct)
                               THEN Pick(<<0, Len(script), RandomElement(0..Len(script)),
                                           IF i > 0 THEN i - 1 ELSE 0, IF i > 2 THEN i - 3 ELSE 0>>)
                               ELSE IF i < Len(script) THEN i + 1 ELSE i} :
                   IF g < i THEN Undo(g)
                   ELSE IF g > i THEN Redo(g)
                   ELSE IF i = Len(script) THEN Forward
                   ELSE Redo(i + 1)
Next == Start \/ Step
Cursor == L.b = past[i + 1]
=============================================================================
