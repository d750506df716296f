----------------------------- MODULE ContextMC -----------------------------
(* The context as its own small state machine: what it remembers is exactly  *)
(* what it was told, in order, once.                                         *)
EXTENDS Context
CONSTANTS MaxSteps
VARIABLES C, told, taken, k
TinyPiles == <<1>>
TinyZones == <<4>>
TinyZoneLim == (4 :> 1)
P == {<<0, 16, 0, 0 - 1>>, <<0, 16, 1, 0 - 1>>, <<1, 16, 0, 0 - 1>>}
Evs == {[card |-> [add |-> [places |-> <<p>>]]] : p \in {<<0, 1, 0, NoOseq>>, <<0, 4, 0, NoOseq>>, <<0, 4, 0, 0>>}}
       \cup {[card |-> [remove |-> [places |-> <<p>>]]] : p \in {<<0, 1, 0, NoOseq>>, <<0, 4, 0, 0>>}}
Init == C = EmptyCtx /\ told = <<>> /\ taken = <<>> /\ k = 0
Next == /\ k < MaxSteps /\ k' = k + 1
        /\ \/ \E ev \in Evs : WFEvent(C.B, ev) /\ C' = CtxParse(C, ev) /\ UNCHANGED <<told, taken>>
           \/ \E p \in P : C' = CtxDefer(C, p) /\ told' = Append(told, p) /\ UNCHANGED taken
           \/ C' = CtxTake(C) /\ taken' = taken \o C.deferred /\ UNCHANGED told
           \/ \E l, f \in P : C' = CtxLeft(C, l, f) /\ UNCHANGED <<told, taken>>
           \/ \E r \in {0, 7} : C' = CtxWin(C, r) /\ UNCHANGED <<told, taken>>
Spec == Init /\ [][Next]_<<C, told, taken, k>>
Once == told = taken \o C.deferred
Latest == \A l \in DOMAIN C.left : C.left[l] \in P
Sizes == PileSizes(C)[1] = Len(C.B.f.p[<<0, 1>>]) /\ HasMats(C)[1] = (IF C.B.f.z[<<0, 4, 0>>].m = <<>> THEN 0 ELSE 1)
=============================================================================
