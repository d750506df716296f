------------------------------ MODULE LimboMC ------------------------------
(* The rewindable frame refines a cursor over the boards it went through:    *)
(* whatever mixture of recording, undoing, redoing and forgetting, the board *)
(* is the recorded one, card for card.                                       *)
EXTENDS Limbo, FiniteSetsExt

CONSTANTS MaxCards, MaxLen, MaxSteps, Kinds
VARIABLES L, script, past, i, nid, steps
vars == <<L, script, past, i, nid, steps>>

TinyPiles == <<1, 16>>
TinyZones == <<4>>
TinyZoneLim == (4 :> 2)

b == L.b
N == Cardinality(CardsOf(b))
PileSlots == UNION {{<<k[1], k[2], j, NoOseq>> : j \in 0..Len(b.p[k])} : k \in PileKeys}
ZoneSlots == {<<k[1], k[2], k[3], NoOseq>> : k \in ZoneKeys}
MatSlots(bb) == UNION {{<<k[1], k[2], k[3], j>> : j \in 0..Len(bb.z[k].m)} : k \in ZoneKeys}
Slots == PileSlots \cup ZoneSlots \cup MatSlots(b)
Occ == {p \in Slots : Has(b, p)}
ZSlots0 == {p \in ZoneSlots : p[1] = 0 /\ p[2] = 4}
PileIdx == {<<k[1], k[2], 0, NoOseq>> : k \in PileKeys}

Ops == {o \in
    {[k |-> "add", a |-> p] : p \in {q \in Slots : Free(b, q) /\ N < MaxCards}}
    \cup {[k |-> "remove", a |-> p] : p \in Occ}
    \cup {[k |-> "move", a |-> x[1], b |-> x[2]] : x \in {y \in Occ \X Slots : WFMove(b, y[1], y[2])}}
    \cup {[k |-> "swap", a |-> x[1], b |-> x[2]] : x \in {y \in Occ \X Occ : WFSwap(b, y[1], y[2])}}
    \cup {[k |-> "resize", a |-> p, n |-> m] : p \in PileIdx, m \in 0..MaxCards}
    \cup {[k |-> "splice", a |-> p, n |-> m, b |-> q, rev |-> v] :
            p \in PileSlots, q \in PileSlots, m \in 1..N, v \in {0, 1}}
    \cup {[k |-> "pswap", a |-> x[1], b |-> x[2]] : x \in PileIdx \X PileIdx}
    \cup {[k |-> "clear"]}
    \cup UNION {{[k |-> "shuffle", prev |-> p, cur |-> c] : c \in [1..Len(p) -> ZSlots0 \cup {<<0, 0, 0, 0>>}]} :
                  p \in UNION {SetToSeqs(S) : S \in SUBSET {z \in ZSlots0 : Has(b, z)}}}
    : /\ o.k \in Kinds /\ WFOp(b, o)
      /\ o.k = "resize" => N + Grows(b, o.a, o.n) <= MaxCards}

Init == L = EmptyLimbo /\ script = <<>> /\ past = <<EmptyFrame>> /\ i = 0 /\ nid = 1 /\ steps = 0
Record == /\ i = Len(script) /\ i < MaxLen
          /\ \E o \in Ops :
               LET ids == [j \in 1..MaxCards |-> nid + j - 1] IN
               /\ L' = L_Do(L, o, ids)
               /\ script' = Append(script, o)
               /\ past' = Append(past, ApplyOp(b, o, ids))
               /\ nid' = nid + NewCards(b, o)
          /\ i' = i + 1
Redo == /\ i < Len(script) /\ L' = L_Do(L, script[i + 1], <<>>) /\ i' = i + 1
        /\ UNCHANGED <<script, past, nid>>
Undo == /\ i > 0 /\ L' = L_Undo(L, script[i]) /\ i' = i - 1 /\ UNCHANGED <<script, past, nid>>
Erase == /\ L' = L_Erase(L) /\ script' = SubSeq(script, 1, i) /\ past' = SubSeq(past, 1, i + 1)
         /\ UNCHANGED <<i, nid>>
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Record \/ Redo \/ Undo \/ Erase)
Spec == Init /\ [][Next]_vars

\* The refinement: the board is the history at the cursor.
Cursor == L.b = past[i + 1]
LogSound == /\ L.op = Len(SelectSeq(SubSeq(script, 1, i), Logged))
            /\ L.proc = Len(SelectSeq(script, Logged)) /\ Len(L.log) = L.proc
\* steps does not matter for what can follow, except for the bound.
=============================================================================
