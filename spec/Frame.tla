------------------------------- MODULE Frame -------------------------------
(* The client's board: piles and field zones holding cards.                  *)
(*                                                                           *)
(* A board is a record [p, z]:                                               *)
(*   p[<<con, loc>>]      a sequence of card identities                      *)
(*   z[<<con, loc, seq>>] [c, m]: the card in the zone (0: none) and the     *)
(*                        sequence of materials under it                     *)
(* A place is <<con, loc, seq, oseq>>; oseq < 0 means "not a material".      *)
(* Every operation is a function from boards to boards; WF... is its         *)
(* precondition (what a well-formed caller guarantees).                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Ctrls,        \* controllers, a subset of {0, 1}
          PileLocSeq,  \* the pile locations, as a sequence (canonical order)
          ZoneLocSeq,  \* the zone locations, as a sequence
          ZoneLim      \* number of zones per zone location

LOC_MAIN == 1   LOC_HAND == 2   LOC_MZONE == 4   LOC_SZONE == 8
LOC_GRAVE == 16 LOC_BANISHED == 32 LOC_EXTRA == 64
LOC_FZONE == 256 LOC_PZONE == 512 LOC_SKILL == 1024
NoOseq == 0 - 1

AllPileLocs == {LOC_MAIN, LOC_HAND, LOC_GRAVE, LOC_BANISHED, LOC_EXTRA}
AllZoneLocs == {LOC_MZONE, LOC_SZONE, LOC_FZONE, LOC_PZONE, LOC_SKILL}

PileKeys == Ctrls \X ToSet(PileLocSeq)
ZoneKeys == UNION {{<<c, l, s>> : s \in 0..(ZoneLim[l] - 1)} :
                     <<c, l>> \in Ctrls \X ToSet(ZoneLocSeq)}

PK(p) == <<p[1], p[2]>>
ZK(p) == <<p[1], p[2], p[3]>>
IsPile(p) == p[2] \in AllPileLocs
IsZone(p) == p[2] \in AllZoneLocs
IsMat(p) == p[4] >= 0

NoZone == [c |-> 0, m |-> <<>>]
EmptyFrame == [p |-> [k \in PileKeys |-> <<>>], z |-> [k \in ZoneKeys |-> NoZone]]

-----------------------------------------------------------------------------
(* Views *)

WFPlace(p) == \/ IsPile(p) /\ PK(p) \in PileKeys /\ p[3] >= 0 /\ p[4] < 0
              \/ IsZone(p) /\ ZK(p) \in ZoneKeys

Has(b, p) == IF IsPile(p) THEN p[3] < Len(b.p[PK(p)])
             ELSE IF IsMat(p) THEN p[4] < Len(b.z[ZK(p)].m)
             ELSE b.z[ZK(p)].c # 0

CardAt(b, p) == IF IsPile(p) THEN b.p[PK(p)][p[3] + 1]
                ELSE IF IsMat(p) THEN b.z[ZK(p)].m[p[4] + 1]
                ELSE b.z[ZK(p)].c

\* All occupied places with their cards, in canonical order: the observable
\* state of a board, and the form in which the real board is compared.
DumpPile(b, k) == [i \in 1..Len(b.p[k]) |-> <<k[1], k[2], i - 1, NoOseq, b.p[k][i]>>]
DumpZone(b, k) == LET z == b.z[k] IN
    (IF z.c # 0 THEN <<<<k[1], k[2], k[3], NoOseq, z.c>>>> ELSE <<>>)
    \o [i \in 1..Len(z.m) |-> <<k[1], k[2], k[3], i - 1, z.m[i]>>]

ConSeq == SetToSortSeq(Ctrls, LAMBDA x, y : x < y)
PileKeySeq == FlattenSeq([i \in 1..Len(ConSeq) |->
                 [j \in 1..Len(PileLocSeq) |-> <<ConSeq[i], PileLocSeq[j]>>]])
ZoneKeySeq == FlattenSeq([i \in 1..Len(ConSeq) |->
                 FlattenSeq([j \in 1..Len(ZoneLocSeq) |->
                   [s \in 1..ZoneLim[ZoneLocSeq[j]] |-> <<ConSeq[i], ZoneLocSeq[j], s - 1>>]])])

UsedPiles(b) == SelectSeq(PileKeySeq, LAMBDA k : b.p[k] # <<>>)
UsedZones(b) == SelectSeq(ZoneKeySeq, LAMBDA k : b.z[k] # NoZone)
Dump(b) == LET P == UsedPiles(b)  Z == UsedZones(b)
           IN FlattenSeq([i \in 1..Len(P) |-> DumpPile(b, P[i])])
              \o FlattenSeq([i \in 1..Len(Z) |-> DumpZone(b, Z[i])])

-----------------------------------------------------------------------------
(* Sequences, 0-based positions *)

Without(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
With(s, i, e) == SubSeq(s, 1, i) \o <<e>> \o SubSeq(s, i + 1, Len(s))
WithAll(s, i, t) == SubSeq(s, 1, i) \o t \o SubSeq(s, i + 1, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

-----------------------------------------------------------------------------
(* Placing and taking single cards *)

Free(b, p) == IF IsPile(p) THEN p[3] <= Len(b.p[PK(p)])
              ELSE IF IsMat(p) THEN p[4] <= Len(b.z[ZK(p)].m)
              ELSE b.z[ZK(p)].c = 0

PutCard(b, p, id) ==
    IF IsPile(p) THEN [b EXCEPT !.p[PK(p)] = With(@, p[3], id)]
    ELSE IF IsMat(p) THEN [b EXCEPT !.z[ZK(p)].m = With(@, p[4], id)]
    ELSE [b EXCEPT !.z[ZK(p)].c = id]

TakeCard(b, p) ==
    IF IsPile(p) THEN [b EXCEPT !.p[PK(p)] = Without(@, p[3])]
    ELSE IF IsMat(p) THEN [b EXCEPT !.z[ZK(p)].m = Without(@, p[4])]
    ELSE [b EXCEPT !.z[ZK(p)].c = 0]

SetCard(b, p, id) ==
    IF IsPile(p) THEN [b EXCEPT !.p[PK(p)][p[3] + 1] = id]
    ELSE IF IsMat(p) THEN [b EXCEPT !.z[ZK(p)].m[p[4] + 1] = id]
    ELSE [b EXCEPT !.z[ZK(p)].c = id]

-----------------------------------------------------------------------------
(* Operations *)

WFAdd(b, p) == WFPlace(p) /\ Free(b, p)
AddCard(b, p, id) == PutCard(b, p, id)

WFRemove(b, p) == WFPlace(p) /\ Has(b, p)
DelCard(b, p) == TakeCard(b, p)

\* A zone card going to another zone takes its materials along.
WithMats(a, b) == IsZone(a) /\ ~IsMat(a) /\ IsZone(b) /\ ~IsMat(b)
WFMove(b, from, to) ==
    /\ WFPlace(from) /\ WFPlace(to) /\ Has(b, from)
    /\ Free(TakeCard(b, from), to)
    /\ WithMats(from, to) => ZK(from) # ZK(to) /\ b.z[ZK(to)] = NoZone
MoveCard(b, from, to) ==
    IF WithMats(from, to)
    THEN [b EXCEPT !.z = [@ EXCEPT ![ZK(to)] = b.z[ZK(from)], ![ZK(from)] = NoZone]]
    ELSE PutCard(TakeCard(b, from), to, CardAt(b, from))

\* A zone card with materials is not exchanged with a card in a pile.
WFSwap(b, x, y) ==
    /\ WFPlace(x) /\ WFPlace(y) /\ Has(b, x) /\ Has(b, y)
    /\ IsZone(x) /\ ~IsMat(x) /\ IsPile(y) => b.z[ZK(x)].m = <<>>
    /\ IsZone(y) /\ ~IsMat(y) /\ IsPile(x) => b.z[ZK(y)].m = <<>>
SwapCards(b, x, y) ==
    IF WithMats(x, y)
    THEN [b EXCEPT !.z = [@ EXCEPT ![ZK(x)] = b.z[ZK(y)], ![ZK(y)] = b.z[ZK(x)]]]
    ELSE SetCard(SetCard(b, x, CardAt(b, y)), y, CardAt(b, x))

\* Shuffle within one row: entry by entry, the zone now holding the card that
\* was at prev[i] is exchanged with the zone cur[i]; empty places are skipped.
EmptyPlace(p) == p[2] = 0
WFShuffle(b, prev, cur) ==
    /\ Len(prev) = Len(cur) /\ Len(prev) <= 7
    /\ \A i \in 1..Len(prev) :
         /\ IsZone(prev[i]) /\ ~IsMat(prev[i]) /\ WFPlace(prev[i]) /\ Has(b, prev[i])
         /\ PK(prev[i]) = PK(prev[1])
         /\ \A j \in 1..(i - 1) : prev[i][3] # prev[j][3]
         /\ ~EmptyPlace(cur[i]) => IsZone(cur[i]) /\ ~IsMat(cur[i]) /\ WFPlace(cur[i]) /\ PK(cur[i]) = PK(prev[1])
RECURSIVE ShuffleFrom(_, _, _, _)
ShuffleFrom(b, at, cur, i) ==
    IF i > Len(cur) THEN b
    ELSE IF EmptyPlace(cur[i]) THEN ShuffleFrom(b, at, cur, i + 1)
    ELSE LET s == cur[i][3]
             o == at[i]
             kx == <<cur[i][1], cur[i][2], o>>
             ky == ZK(cur[i])
             nb == [b EXCEPT !.z = [@ EXCEPT ![kx] = b.z[ky], ![ky] = b.z[kx]]]
             nat == [j \in 1..Len(at) |-> IF j = i THEN s ELSE IF at[j] = s THEN o ELSE at[j]]
         IN ShuffleFrom(nb, nat, cur, i + 1)
Shuffle(b, prev, cur) == ShuffleFrom(b, [i \in 1..Len(prev) |-> prev[i][3]], cur, 1)
\* The trades a shuffle amounts to, which do not depend on the cards.
RECURSIVE TradesFrom(_, _, _)
TradesFrom(at, cur, i) ==
    IF i > Len(cur) THEN <<>>
    ELSE IF EmptyPlace(cur[i]) THEN TradesFrom(at, cur, i + 1)
    ELSE LET s == cur[i][3]
             nat == [j \in 1..Len(at) |-> IF j = i THEN s ELSE IF at[j] = s THEN at[i] ELSE at[j]]
         IN <<<<<<cur[i][1], cur[i][2], at[i]>>, ZK(cur[i])>>>> \o TradesFrom(nat, cur, i + 1)
Trades(prev, cur) == TradesFrom([i \in 1..Len(prev) |-> prev[i][3]], cur, 1)
Trade(b, t) == [b EXCEPT !.z = [@ EXCEPT ![t[1]] = b.z[t[2]], ![t[2]] = b.z[t[1]]]]
UnShuffle(b, prev, cur) == FoldRight(LAMBDA t, acc : Trade(acc, t), Trades(prev, cur), b)

\* ids: identities for new cards (as many as the pile grows).
Grows(b, p, n) == IF n > Len(b.p[PK(p)]) THEN n - Len(b.p[PK(p)]) ELSE 0
WFResize(b, p, n) == IsPile(p) /\ PK(p) \in PileKeys /\ n >= 0
Resize(b, p, n, ids) ==
    [b EXCEPT !.p[PK(p)] = IF n >= Len(@) THEN @ \o SubSeq(ids, 1, n - Len(@)) ELSE SubSeq(@, 1, n)]

WFSplice(b, from, n, to, rev) ==
    /\ IsPile(from) /\ IsPile(to) /\ PK(from) \in PileKeys /\ PK(to) \in PileKeys
    /\ n >= 0 /\ from[3] >= 0 /\ from[3] + n <= Len(b.p[PK(from)])
    /\ to[3] >= 0
    /\ to[3] <= Len(b.p[PK(to)]) - (IF PK(from) = PK(to) THEN n ELSE 0)
Splice(b, from, n, to, rev) ==
    LET s == b.p[PK(from)]
        run == SubSeq(s, from[3] + 1, from[3] + n)
        rest == SubSeq(s, 1, from[3]) \o SubSeq(s, from[3] + n + 1, Len(s))
        b1 == [b EXCEPT !.p[PK(from)] = rest]
    IN [b1 EXCEPT !.p[PK(to)] = WithAll(@, to[3], IF rev THEN Rev(run) ELSE run)]

WFPileSwap(b, x, y) == IsPile(x) /\ IsPile(y) /\ PK(x) \in PileKeys /\ PK(y) \in PileKeys
PileSwap(b, x, y) ==
    [b EXCEPT !.p = [@ EXCEPT ![PK(x)] = b.p[PK(y)], ![PK(y)] = b.p[PK(x)]]]

ClearAll(b) == EmptyFrame

-----------------------------------------------------------------------------
(* Operations as data, so that behaviours can be replayed in the real code *)

WFOp(b, op) ==
    CASE op.k = "add" -> WFAdd(b, op.a)
      [] op.k = "remove" -> WFRemove(b, op.a)
      [] op.k = "move" -> WFMove(b, op.a, op.b)
      [] op.k = "swap" -> WFSwap(b, op.a, op.b)
      [] op.k = "shuffle" -> WFShuffle(b, op.prev, op.cur)
      [] op.k = "resize" -> WFResize(b, op.a, op.n)
      [] op.k = "splice" -> WFSplice(b, op.a, op.n, op.b, op.rev = 1)
      [] op.k = "pswap" -> WFPileSwap(b, op.a, op.b)
      [] op.k = "clear" -> TRUE

NewCards(b, op) == CASE op.k = "add" -> 1
                     [] op.k = "resize" -> Grows(b, op.a, op.n)
                     [] OTHER -> 0

\* ids is a sequence of at least NewCards(b, op) unused identities.
ApplyOp(b, op, ids) ==
    CASE op.k = "add" -> AddCard(b, op.a, ids[1])
      [] op.k = "remove" -> DelCard(b, op.a)
      [] op.k = "move" -> MoveCard(b, op.a, op.b)
      [] op.k = "swap" -> SwapCards(b, op.a, op.b)
      [] op.k = "shuffle" -> Shuffle(b, op.prev, op.cur)
      [] op.k = "resize" -> Resize(b, op.a, op.n, ids)
      [] op.k = "splice" -> Splice(b, op.a, op.n, op.b, op.rev = 1)
      [] op.k = "pswap" -> PileSwap(b, op.a, op.b)
      [] op.k = "clear" -> ClearAll(b)

-----------------------------------------------------------------------------
(* What must hold of every board, and of every operation *)

CardsOf(b) == LET D == Dump(b) IN {D[i][5] : i \in 1..Len(D)}
\* No card is in two places, and looking up finds what the dump lists.
SinglePlace(b) == LET D == Dump(b) IN
    /\ \A i, j \in 1..Len(D) : i # j => D[i][5] # D[j][5]
    /\ \A i \in 1..Len(D) : LET p == SubSeq(D[i], 1, 4) IN Has(b, p) /\ CardAt(b, p) = D[i][5]

\* Where a card is: for stating what operations must not disturb.
PlaceOf(b, id) == LET D == Dump(b)
                      i == CHOOSE i \in 1..Len(D) : D[i][5] = id
                  IN SubSeq(D[i], 1, 4)
Conserves(op) == op.k \in {"move", "swap", "shuffle", "splice", "pswap"}
=============================================================================
