------------------------------ MODULE BoardMC ------------------------------
(* Laws of events on a small board, checked on every reachable state.        *)
EXTENDS Board, FiniteSetsExt
CONSTANTS MaxCards, MaxEvents
VARIABLES B, k

TinyPiles == <<1, 16>>
TinyZones == <<4>>
TinyZoneLim == (4 :> 2)

N == Cardinality(CardsOf(B.f))
PSlots == UNION {{<<x[1], x[2], j, NoOseq>> : j \in 0..Len(B.f.p[x])} : x \in PileKeys}
ZSlots == {<<x[1], x[2], x[3], NoOseq>> : x \in ZoneKeys}
MSlots == UNION {{<<x[1], x[2], x[3], j>> : j \in 0..Len(B.f.z[x].m)} : x \in ZoneKeys}
Slots == PSlots \cup ZSlots \cup MSlots
Occ == {p \in Slots : Has(B.f, p)}
PIdx == {<<x[1], x[2], 0, NoOseq>> : x \in PileKeys}
Amounts == {0, 1, 2, IntMax, 0 - 1, IntMin}
Link(c) == [card_place |-> <<0, 1, 0, NoOseq>>, place |-> <<0, 4, 0, NoOseq>>, effect |-> [code |-> c]]

Lps == {[lp |-> ([controller |-> c] @@ (w :> <<a>>))] :
          c \in {0, 1}, w \in {"become", "damage", "pay", "recover"}, a \in Amounts}
Events ==
    {[card |-> [add |-> [places |-> <<p>>]]] : p \in {q \in Slots : Free(B.f, q) /\ N < MaxCards}}
    \cup {[card |-> [remove |-> [places |-> s]]] :
            s \in {<<p>> : p \in Occ} \cup {<<x[1], x[2]>> : x \in {y \in Occ \X Occ :
                      WFRemove(DelCard(B.f, y[1]), y[2])}}}
    \cup {[card |-> [move |-> [ops |-> <<[old_place |-> x[1], new_place |-> x[2]]>>]]] :
            x \in {y \in Occ \X Slots : WFMove(B.f, y[1], y[2])}}
    \cup {[card |-> [exchange |-> [ops |-> <<[place_a |-> x[1], place_b |-> x[2]]>>]]] :
            x \in {y \in Occ \X Occ : WFSwap(B.f, y[1], y[2])}}
    \cup {[pile |-> [exchange |-> [ops |-> <<[place_a |-> x[1], place_b |-> x[2]]>>]]] : x \in PIdx \X PIdx}
    \cup {[board |-> [exchange |-> [con |-> 0, resize |-> [ops |-> <<[place |-> p, count |-> n]>>],
                                    add |-> [places |-> <<q>>]]]] :
            p \in PIdx, n \in 0..1, q \in {<<0, 4, 1, NoOseq>>, <<0, 1, 0, NoOseq>>}}
    \cup {[board |-> [state |-> [turn_counter |-> t, lps |-> <<5, 0 - 1>>, chains |-> <<Link(7)>>,
                                 add |-> [places |-> <<<<0, 4, 1, NoOseq>>>>]]]] : t \in {0 - 1, 0, 9}}
    \cup Lps
    \cup {[next_turn |-> <<c>>] : c \in {0, 1}} \cup {[next_phase |-> <<p>>] : p \in {1, 512}}
    \cup {[chain_stack |-> [push |-> Link(c)]] : c \in {1, 2}} \cup {[chain_stack |-> [pop |-> <<1>>]]}
    \cup {[zone_block |-> [zones |-> z]] : z \in {<<>>, <<<<0, 4, 1, NoOseq>>>>}}
    \cup {[meta |-> [shuffle_pile |-> [places |-> <<>>]]], [result |-> [coin |-> [actor |-> 1]]]}

Init == B = EmptyBoard /\ k = 0
Next == /\ k < MaxEvents /\ k' = k + 1
        /\ \E ev \in Events : WFEvent(B, ev) /\ B' = ParseEvent(B, ev)
Spec == Init /\ [][Next]_<<B, k>>

\* Unsigned reading in two limbs, for stating order.
ULe(a, b) == a = b \/ W_ULt(a, b)
SameCards(X) == X.f = B.f
Law(ev) ==
    LET X == ParseEvent(B, ev) IN
    /\ SinglePlace(X.f)
    /\ "lp" \in DOMAIN ev =>
         LET c == ev.lp.controller + 1
             v == B.lp[c]
             w == X.lp[c]
         IN /\ X = [B EXCEPT !.lp[c] = w]
            /\ "become" \in DOMAIN ev.lp => w = ev.lp.become[1]
            /\ "recover" \in DOMAIN ev.lp => W_Sub(w, v) = ev.lp.recover[1]
            /\ "damage" \in DOMAIN ev.lp => ULe(w, v) /\ (w = 0 \/ W_Add(w, ev.lp.damage[1]) = v)
                                            /\ (ULe(ev.lp.damage[1], v) => W_Sub(v, w) = ev.lp.damage[1])
            /\ "pay" \in DOMAIN ev.lp => ULe(w, v) /\ (w = 0 \/ W_Add(w, ev.lp.pay[1]) = v)
    /\ "next_turn" \in DOMAIN ev => X = [B EXCEPT !.turn = W_Add(@, 1), !.tc = ev.next_turn[1]]
    /\ "next_phase" \in DOMAIN ev => X = [B EXCEPT !.phase = ev.next_phase[1]]
    /\ "zone_block" \in DOMAIN ev => X = [B EXCEPT !.blocked = ev.zone_block.zones]
    /\ "meta" \in DOMAIN ev \/ "result" \in DOMAIN ev => X = B
    /\ "card" \in DOMAIN ev \/ "pile" \in DOMAIN ev => [X EXCEPT !.f = B.f, !.nid = B.nid] = B
    /\ "chain_stack" \in DOMAIN ev =>
         /\ [X EXCEPT !.chain = B.chain] = B
         /\ "push" \in DOMAIN ev.chain_stack => X.chain = Append(B.chain, ev.chain_stack.push)
         /\ "pop" \in DOMAIN ev.chain_stack => B.chain = Append(X.chain, B.chain[Len(B.chain)])
    /\ "board" \in DOMAIN ev => X.blocked = B.blocked /\ X.phase = B.phase /\ X.tc = B.tc
    \* Nothing that can be undone loses what undoing needs: the frame
    \* operations of the event, undone in reverse, lead back.
    /\ \A o \in {"add", "move", "exchange"} :
         "card" \in DOMAIN ev /\ o \in DOMAIN ev.card =>
           LET op == FrameOps(ev)[1] IN
           CASE op.k = "add" -> DelCard(X.f, op.a) = B.f
             [] op.k = "move" -> MoveCard(X.f, op.b, op.a) = B.f
             [] op.k = "swap" -> SwapCards(X.f, op.a, op.b) = B.f
EventLaws == \A ev \in Events : WFEvent(B, ev) => Law(ev)
=============================================================================
