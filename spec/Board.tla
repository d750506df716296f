------------------------------- MODULE Board -------------------------------
(* The client's board: the frame plus turn, turn player, life points, phase, *)
(* chain and blocked zones, and what each event does to it.                  *)
(*                                                                           *)
(* Events are records in the shape of YGOpen.Proto.Duel.Msg.Event: a message *)
(* is a record of its present fields; a scalar in a oneof is a sequence of   *)
(* one element (so that 0 can be present); a Place is <<con,loc,seq,oseq>>.  *)
(* 32 bit words are signed integers with the same bits (Words).              *)
EXTENDS Frame, Words

Fld(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d

EmptyBoard == [f |-> EmptyFrame, turn |-> 0, tc |-> 0, lp |-> <<0, 0>>, phase |-> 0,
               chain |-> <<>>, blocked |-> <<>>, nid |-> 1]

\* One frame operation; new cards are named by the counter nid.
Do(B, op) == LET g == NewCards(B.f, op)
             IN [B EXCEPT !.f = ApplyOp(B.f, op, [i \in 1..g |-> B.nid + i - 1]), !.nid = @ + g]
DoAll(B, ops) == FoldLeft(Do, B, ops)
WFAll(B, ops) == \A i \in 1..Len(ops) : WFOp(DoAll(B, SubSeq(ops, 1, i - 1)).f, ops[i])

Adds(ps) == [i \in 1..Len(ps) |-> [k |-> "add", a |-> ps[i]]]
Removes(ps) == [i \in 1..Len(ps) |-> [k |-> "remove", a |-> ps[i]]]
Resizes(os) == [i \in 1..Len(os) |-> [k |-> "resize", a |-> os[i].place, n |-> Fld(os[i], "count", 0)]]
Moves(os) == [i \in 1..Len(os) |-> [k |-> "move", a |-> os[i].old_place, b |-> os[i].new_place]]
Swaps(os) == [i \in 1..Len(os) |-> [k |-> "swap", a |-> os[i].place_a, b |-> os[i].place_b]]
PSwaps(os) == [i \in 1..Len(os) |-> [k |-> "pswap", a |-> os[i].place_a, b |-> os[i].place_b]]
Splices(os) == [i \in 1..Len(os) |-> [k |-> "splice", a |-> os[i].from, n |-> Fld(os[i], "count", 0),
                                      b |-> os[i].to, rev |-> Fld(os[i], "reverse", 0)]]
PlacesOf(r, k) == IF k \in DOMAIN r THEN Fld(r[k], "places", <<>>) ELSE <<>>
OpsOf(r, k) == IF k \in DOMAIN r THEN Fld(r[k], "ops", <<>>) ELSE <<>>

\* The frame operations an event stands for, in the order they are applied.
FrameOps(ev) ==
    IF "board" \in DOMAIN ev THEN
        IF "exchange" \in DOMAIN ev.board THEN
            LET x == ev.board.exchange
            IN Resizes(OpsOf(x, "resize")) \o Removes(PlacesOf(x, "remove")) \o Adds(PlacesOf(x, "add"))
        ELSE IF "state" \in DOMAIN ev.board THEN
            LET s == ev.board.state
            IN <<[k |-> "clear"]>> \o Adds(PlacesOf(s, "add")) \o Resizes(OpsOf(s, "resize"))
        ELSE <<>>
    ELSE IF "card" \in DOMAIN ev THEN
        LET c == ev.card IN
        IF "add" \in DOMAIN c THEN Adds(PlacesOf(c, "add"))
        ELSE IF "exchange" \in DOMAIN c THEN Swaps(OpsOf(c, "exchange"))
        ELSE IF "move" \in DOMAIN c THEN Moves(OpsOf(c, "move"))
        ELSE IF "remove" \in DOMAIN c THEN Removes(PlacesOf(c, "remove"))
        ELSE IF "shuffle" \in DOMAIN c THEN
            <<[k |-> "shuffle", prev |-> Fld(c.shuffle, "previous_places", <<>>),
               cur |-> Fld(c.shuffle, "current_places", <<>>)]>>
        ELSE <<>>
    ELSE IF "pile" \in DOMAIN ev THEN
        IF "splice" \in DOMAIN ev.pile THEN Splices(OpsOf(ev.pile, "splice"))
        ELSE IF "exchange" \in DOMAIN ev.pile THEN PSwaps(OpsOf(ev.pile, "exchange"))
        ELSE <<>>
    ELSE <<>>

\* What an event does to the rest of the board.
LPAfter(v, lp) ==
    IF "become" \in DOMAIN lp THEN lp.become[1]
    ELSE IF "damage" \in DOMAIN lp THEN (IF W_ULt(v, lp.damage[1]) THEN 0 ELSE W_Sub(v, lp.damage[1]))
    ELSE IF "pay" \in DOMAIN lp THEN (IF W_ULt(v, lp.pay[1]) THEN 0 ELSE W_Sub(v, lp.pay[1]))
    ELSE IF "recover" \in DOMAIN lp THEN W_Add(v, lp.recover[1])
    ELSE v
Scalars(B, ev) ==
    IF "board" \in DOMAIN ev THEN
        IF "state" \in DOMAIN ev.board THEN
            LET s == ev.board.state
                t == Fld(s, "turn_counter", 0)
            IN [B EXCEPT !.turn = IF t >= 0 THEN t ELSE @, !.lp = s.lps, !.chain = Fld(s, "chains", <<>>)]
        ELSE B
    ELSE IF "chain_stack" \in DOMAIN ev THEN
        IF "push" \in DOMAIN ev.chain_stack THEN [B EXCEPT !.chain = Append(@, ev.chain_stack.push)]
        ELSE IF "pop" \in DOMAIN ev.chain_stack THEN [B EXCEPT !.chain = SubSeq(@, 1, Len(@) - 1)]
        ELSE B
    ELSE IF "next_turn" \in DOMAIN ev THEN [B EXCEPT !.turn = W_Add(@, 1), !.tc = ev.next_turn[1]]
    ELSE IF "next_phase" \in DOMAIN ev THEN [B EXCEPT !.phase = ev.next_phase[1]]
    ELSE IF "lp" \in DOMAIN ev THEN
        [B EXCEPT !.lp[Fld(ev.lp, "controller", 0) + 1] = LPAfter(@, ev.lp)]
    ELSE IF "zone_block" \in DOMAIN ev THEN [B EXCEPT !.blocked = Fld(ev.zone_block, "zones", <<>>)]
    ELSE B

WFEvent(B, ev) ==
    /\ WFAll(B, FrameOps(ev))
    /\ "chain_stack" \in DOMAIN ev /\ "pop" \in DOMAIN ev.chain_stack => B.chain # <<>>
ParseEvent(B, ev) == DoAll(Scalars(B, ev), FrameOps(ev))

\* What an observer of the board sees.
View(B) == [b |-> Dump(B.f), turn |-> B.turn, tc |-> B.tc, lp |-> B.lp, phase |-> B.phase,
            chain |-> B.chain, blocked |-> B.blocked]
=============================================================================
