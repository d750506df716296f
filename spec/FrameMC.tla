------------------------------ MODULE FrameMC ------------------------------
(* Exhaustive exploration of the board operations at small constants: checks *)
(* the laws of the operations on every transition, and prints every      *)
(* transition [pre, op, post] of EmitKinds for replay in the real code.                   *)
EXTENDS Frame, Json, FiniteSetsExt

CONSTANTS MaxCards,  \* cards alive at a time
          Kinds,     \* operation kinds explored
          EmitKinds  \* kinds of transition printed

VARIABLES b

SmallPiles == <<1, 16>>
SmallZones == <<4, 8>>
SmallZoneLim == (4 :> 2) @@ (8 :> 1)

FreeIds == LET used == CardsOf(b)
           IN SetToSortSeq({i \in 1..(2 * MaxCards + 1) : i \notin used}, LAMBDA x, y : x < y)

PileSlots(bb) == UNION {{<<k[1], k[2], i, NoOseq>> : i \in 0..Len(bb.p[k])} : k \in PileKeys}
ZoneSlots(bb) == {<<k[1], k[2], k[3], NoOseq>> : k \in ZoneKeys}
MatSlots(bb) == UNION {{<<k[1], k[2], k[3], i>> : i \in 0..Len(bb.z[k].m)} : k \in ZoneKeys}
Slots(bb) == PileSlots(bb) \cup ZoneSlots(bb) \cup MatSlots(bb)
Occ(bb) == {p \in Slots(bb) : Has(bb, p)}
PileIdx == {<<k[1], k[2], 0, NoOseq>> : k \in PileKeys}
N == Cardinality(CardsOf(b))

Rows == {<<c, l>> : c \in Ctrls, l \in ToSet(ZoneLocSeq)}
RowCards(bb, r) == {s \in 0..(ZoneLim[r[2]] - 1) : bb.z[<<r[1], r[2], s>>].c # 0}
Perms(S) == SetToSeqs(S)
\* New places for a shuffle of the zones S: none, or any zones of the row.
CurFor(r, S) == [1..Cardinality(S) -> {<<0, 0, 0, 0>>} \cup {<<r[1], r[2], s, NoOseq>> : s \in 0..(ZoneLim[r[2]] - 1)}]

Ops ==
    (IF "add" \in Kinds /\ N < MaxCards
     THEN {[k |-> "add", a |-> p] : p \in {q \in Slots(b) : Free(b, q)}} ELSE {})
    \cup (IF "remove" \in Kinds THEN {[k |-> "remove", a |-> p] : p \in Occ(b)} ELSE {})
    \cup (IF "move" \in Kinds
          THEN UNION {{[k |-> "move", a |-> p, b |-> q] :
                         q \in {r \in Slots(TakeCard(b, p)) : WFMove(b, p, r)}} : p \in Occ(b)}
          ELSE {})
    \cup (IF "swap" \in Kinds
          THEN {[k |-> "swap", a |-> pq[1], b |-> pq[2]] :
                  pq \in {x \in Occ(b) \X Occ(b) : WFSwap(b, x[1], x[2])}} ELSE {})
    \cup (IF "shuffle" \in Kinds
          THEN UNION {UNION {{[k |-> "shuffle",
                               prev |-> [i \in 1..Len(t) |-> <<r[1], r[2], t[i], NoOseq>>],
                               cur |-> c] : c \in CurFor(r, S), t \in Perms(S)} :
                      S \in SUBSET RowCards(b, r)} : r \in Rows}
          ELSE {})
    \cup (IF "resize" \in Kinds
          THEN {o \in {[k |-> "resize", a |-> p, n |-> n] : p \in PileIdx, n \in 0..MaxCards} :
                  N + Grows(b, o.a, o.n) <= MaxCards} ELSE {})
    \cup (IF "splice" \in Kinds
          THEN {o \in {[k |-> "splice", a |-> p, n |-> n, b |-> q, rev |-> v] :
                         p \in PileSlots(b), q \in PileSlots(b), n \in 0..N, v \in {0, 1}} :
                  WFSplice(b, o.a, o.n, o.b, o.rev = 1)} ELSE {})
    \cup (IF "pswap" \in Kinds
          THEN {[k |-> "pswap", a |-> p, b |-> q] : p \in PileIdx, q \in PileIdx} ELSE {})
    \cup (IF "clear" \in Kinds THEN {[k |-> "clear"]} ELSE {})

Init == b = EmptyFrame
Next == \E op \in Ops :
    /\ b' = ApplyOp(b, op, FreeIds)
    /\ op.k \in EmitKinds => PrintT(ToJson([pre |-> Dump(b), op |-> op, post |-> Dump(b')]))
Spec == Init /\ [][Next]_b

\* States differing only in card names are one state.
View == LET D == Dump(b) IN [i \in 1..Len(D) |-> SubSeq(D[i], 1, 4)]

-----------------------------------------------------------------------------
(* Invariants and laws *)

InvSinglePlace == SinglePlace(b)

\* Order in which the cards other than X are met when scanning the board.
OrderWithout(bb, X) == LET D == Dump(bb)
                       IN SelectSeq([i \in 1..Len(D) |-> D[i][5]], LAMBDA id : id \notin X)
AtKey(bb, id) == SubSeq(PlaceOf(bb, id), 1, 3)
HolderKey(bb, id) == LET p == PlaceOf(bb, id)
                     IN IF IsPile(p) THEN <<p[1], p[2], 0, 0>> ELSE <<p[1], p[2], p[3], IF IsMat(p) THEN 1 ELSE 0>>

LawOf(op) ==
    LET b1 == ApplyOp(b, op, FreeIds)
        stay(X) == \A id \in CardsOf(b) \ X : HolderKey(b1, id) = HolderKey(b, id)
    IN
    /\ SinglePlace(b1)
    /\ Conserves(op) => CardsOf(b1) = CardsOf(b)
    /\ CASE op.k = "add" ->
              /\ CardAt(b1, op.a) = FreeIds[1]
              /\ CardsOf(b1) = CardsOf(b) \cup {FreeIds[1]}
              /\ stay({}) /\ OrderWithout(b1, {FreeIds[1]}) = OrderWithout(b, {})
              /\ DelCard(b1, op.a) = b
         [] op.k = "remove" ->
              LET x == CardAt(b, op.a) IN
              /\ CardsOf(b1) = CardsOf(b) \ {x}
              /\ stay({x}) /\ OrderWithout(b1, {}) = OrderWithout(b, {x})
              /\ AddCard(b1, op.a, x) = b
         [] op.k = "move" ->
              LET x == CardAt(b, op.a)
                  carried == IF WithMats(op.a, op.b) THEN ToSet(b.z[ZK(op.a)].m) ELSE {}
                  X == {x} \cup carried
              IN
              /\ CardAt(b1, op.b) = x
              /\ stay(X) /\ OrderWithout(b1, X) = OrderWithout(b, X)
              /\ \A m \in carried : SubSeq(PlaceOf(b1, m), 1, 3) = ZK(op.b)
              /\ carried # {} => b1.z[ZK(op.b)].m = b.z[ZK(op.a)].m
              /\ WFMove(b1, op.b, op.a) /\ MoveCard(b1, op.b, op.a) = b
         [] op.k = "swap" ->
              LET x == CardAt(b, op.a)
                  y == CardAt(b, op.b)
                  carried == IF WithMats(op.a, op.b)
                             THEN ToSet(b.z[ZK(op.a)].m) \cup ToSet(b.z[ZK(op.b)].m) ELSE {}
              IN
              /\ CardAt(b1, op.a) = y /\ CardAt(b1, op.b) = x
              /\ \A id \in CardsOf(b) \ ({x, y} \cup carried) : PlaceOf(b1, id) = PlaceOf(b, id)
              /\ SwapCards(b1, op.a, op.b) = b
         [] op.k = "shuffle" ->
              LET I == {i \in 1..Len(op.prev) : ~EmptyPlace(op.cur[i])} IN
              \* Everyone arrives, unless a later entry goes to the same place.
              /\ \A i \in I : (\A j \in I : j > i => op.cur[j] # op.cur[i]) =>
                    b1.z[ZK(op.cur[i])] = b.z[ZK(op.prev[i])]
              /\ \A k \in ZoneKeys : (\A i \in 1..Len(op.prev) : k # ZK(op.prev[i]) /\ (i \in I => k # ZK(op.cur[i])))
                                     => b1.z[k] = b.z[k]
              /\ \A k \in ZoneKeys : \E k2 \in ZoneKeys : b1.z[k2] = b.z[k]
              /\ b1.p = b.p
              /\ UnShuffle(b1, op.prev, op.cur) = b
         [] op.k = "resize" ->
              /\ Len(b1.p[PK(op.a)]) = op.n
              /\ IsPrefix(b1.p[PK(op.a)], b.p[PK(op.a)]) \/ IsPrefix(b.p[PK(op.a)], b1.p[PK(op.a)])
              /\ [b1 EXCEPT !.p[PK(op.a)] = <<>>] = [b EXCEPT !.p[PK(op.a)] = <<>>]
         [] op.k = "splice" ->
              /\ Splice(b1, op.b, op.n, op.a, op.rev = 1) = b
              /\ \A j \in 0..(op.n - 1) :
                    b1.p[PK(op.b)][op.b[3] + 1 + j] =
                      b.p[PK(op.a)][op.a[3] + 1 + (IF op.rev = 1 THEN op.n - 1 - j ELSE j)]
         [] op.k = "pswap" ->
              /\ b1.p[PK(op.a)] = b.p[PK(op.b)] /\ b1.p[PK(op.b)] = b.p[PK(op.a)]
              /\ PileSwap(b1, op.a, op.b) = b
         [] op.k = "clear" -> CardsOf(b1) = {}
Laws == \A op \in Ops : WFOp(b, op) /\ LawOf(op)
=============================================================================
