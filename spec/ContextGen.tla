----------------------------- MODULE ContextGen -----------------------------
EXTENDS Context, BoardRand, Json
CONSTANTS Weights, Cap
VARIABLES n, C, act, known

FullPiles == <<1, 2, 16, 32, 64>>
FullZones == <<4, 8, 256, 512, 1024>>
FullZoneLim == (4 :> 7) @@ (8 :> 5) @@ (256 :> 1) @@ (512 :> 2) @@ (1024 :> 1)
W_ctx == <<"add", "add", "add", "remove", "move", "move", "move", "swap", "splice", "pswap", "exchange",
           "state", "other", "lp", "chain", "turn", "phase", "block", "shuffle">>

\* Places differing in few components, so that they are easily mixed up.
RKey(x) == <<RandomElement({0, 1}), RandomElement({16, 32}), RandomElement({0, 1, 2}), RandomElement({0 - 1, 0, 1})>>

Out(what) == PrintT(ToJson([n |-> n'] @@ what @@ [mwr |-> C'.mwr, piles |-> PileSizes(C'), mats |-> HasMats(C')]))
Init == n = 0 /\ C = EmptyCtx /\ act = <<>> /\ known = <<>>
Start == /\ n = 0 /\ n' = 1 /\ C' = C /\ known' = <<>>
         /\ \E a \in {RandAct(n)} : act' = a
         /\ Out([act |-> "new"])
Ev == \E kind \in {IF Len(Dump(C.B.f)) < 4 THEN "add" ELSE Pick(Weights)} :
      \E ev \in {EvKind(kind, C.B, act, Cap)} :
         C' = CtxParse(C, ev) /\ known' = known /\ Out([act |-> "ev", ev |-> ev])
Win == \E r \in {RandomElement({0, 1, 16, 0 - 1, RandomElement(1..100)})} :
         C' = CtxWin(C, r) /\ known' = known /\ Out([act |-> "win", r |-> r])
Defer == \E p \in {RAnyPlace(0)} :
         C' = CtxDefer(C, p) /\ known' = known /\ Out([act |-> "defer", p |-> p])
Take == C' = CtxTake(C) /\ known' = known /\ Out([act |-> "take", r |-> C.deferred])
Left == \E l \in {RKey(0)} : \E f \in {RAnyPlace(1)} :
         C' = CtxLeft(C, l, f) /\ known' = Append(known, l) /\ Out([act |-> "left", l |-> l, f |-> f])
Get == IF known = <<>> THEN Left
       ELSE \E l \in {Pick(known)} :
         C' = C /\ known' = known /\ Out([act |-> "get", l |-> l, r |-> CtxGet(C, l)])
Step == /\ n > 0 /\ n' = n + 1 /\ act' = act
        /\ \E r \in {RandomElement(1..100)} :
             IF r <= 50 THEN Ev ELSE IF r <= 55 THEN Win ELSE IF r <= 68 THEN Defer
             ELSE IF r <= 74 THEN Take ELSE IF r <= 86 THEN Left ELSE Get
Next == Start \/ Step
=============================================================================
