------------------------------ MODULE Context ------------------------------
(* The duel-tracking context of the encoder: a board following every message *)
(* produced, plus what the encoder asks it to remember.                      *)
EXTENDS Board

EmptyCtx == [B |-> EmptyBoard, mwr |-> 0, deferred |-> <<>>, left |-> [p \in {} |-> <<>>]]

CtxParse(C, ev) == [C EXCEPT !.B = ParseEvent(C.B, ev)]
CtxWin(C, r) == [C EXCEPT !.mwr = r]
CtxDefer(C, p) == [C EXCEPT !.deferred = Append(@, p)]
CtxTake(C) == [C EXCEPT !.deferred = <<>>]            \* answers C.deferred
CtxLeft(C, l, f) == [C EXCEPT !.left = (l :> f) @@ @]
CtxGet(C, l) == C.left[l]                             \* defined on remembered places

PileSizes(C) == [i \in 1..Len(PileKeySeq) |-> Len(C.B.f.p[PileKeySeq[i]])]
HasMats(C) == [i \in 1..Len(ZoneKeySeq) |-> IF C.B.f.z[ZoneKeySeq[i]].m # <<>> THEN 1 ELSE 0]
=============================================================================
