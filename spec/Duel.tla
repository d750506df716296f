-------------------------------- MODULE Duel --------------------------------
(* The duel end to end: the engine's own field, the engine's actions as the  *)
(* sequences of messages it sends, the translation of those messages (Core)  *)
(* and the client that applies what they were translated to (Board).         *)
(*                                                                           *)
(* The engine's field e:                                                     *)
(*   p[<<con, loc>>]        the piles: sequences of card identities          *)
(*   z[<<con, loc, seq>>]   the zones as the engine numbers them (the spell  *)
(*                          row has field and pendulum zones); 0: empty      *)
(*   m[card]                the materials of a card, wherever that card is   *)
(*   lp, turn, tc, phase, chain (of the engine's records), mask, know: what *)
(*     was told of a card (the fields of queries)                            *)
(* An action is a sequence of steps [m, e]: a message sent and the field     *)
(* then.  It is settled when all materials belong to cards on the field.     *)
(* The client D is [B, c, know]: its board, the encoder's context, and what  *)
(* it was told of cards.                                                     *)
EXTENDS CoreRand

B == INSTANCE Board WITH Ctrls <- {0, 1}, PileLocSeq <- <<1, 2, 16, 32, 64>>,
                         ZoneLocSeq <- <<4, 8, 256, 512, 1024>>,
                         ZoneLim <- (4 :> 7) @@ (8 :> 5) @@ (256 :> 1) @@ (512 :> 2) @@ (1024 :> 1)

EPiles == {0, 1} \X EngPileLocs
EZones == {<<con, 4, s>> : con \in {0, 1}, s \in 0..6} \cup {<<con, 8, s>> : con \in {0, 1}, s \in 0..7}
Nothing == [i \in {} |-> 0]
EmptyField == [p |-> [k \in EPiles |-> <<>>], z |-> [k \in EZones |-> 0], m |-> [i \in {} |-> <<>>],
               lp |-> <<0, 0>>, turn |-> 0, tc |-> 0, phase |-> 0, chain |-> <<>>, mask |-> 0..31,
               know |-> Nothing, nid |-> 1]
EmptyClient == [B |-> B!EmptyBoard, c |-> EmptyC, know |-> Nothing]

-----------------------------------------------------------------------------
(* Cards on the engine's field *)

Mats(e, h) == IF h \in DOMAIN e.m THEN e.m[h] ELSE <<>>
OnField(e) == {e.z[k] : k \in EZones} \ {0}
Holders(e) == {h \in DOMAIN e.m : e.m[h] # <<>>}
FieldHolders(e) == Holders(e) \cap OnField(e)
Settled(e) == Holders(e) \subseteq OnField(e)
Bare(e, id) == Mats(e, id) = <<>>
InPiles(e) == UNION {ToSet(e.p[k]) : k \in EPiles}
AsMats(e) == UNION {ToSet(e.m[h]) : h \in DOMAIN e.m}
Free(e) == {k \in EZones : e.z[k] = 0}
IndexOf(s, x) == (CHOOSE i \in 1..Len(s) : s[i] = x) - 1

\* Where a card is that is not a material.
BasePos(e, id) ==
    LET zs == {k \in EZones : e.z[k] = id} IN
    IF zs # {} THEN LET k == CHOOSE k \in zs : TRUE
                    IN [con |-> k[1], loc |-> k[2], seq |-> k[3], ov |-> FALSE, pos |-> <<1, 4, 8, 10>>[(id % 4) + 1]]
    ELSE LET k == CHOOSE k \in EPiles : id \in ToSet(e.p[k])
         IN [con |-> k[1], loc |-> k[2], seq |-> IndexOf(e.p[k], id), ov |-> FALSE, pos |-> <<1, 10, 5>>[(id % 3) + 1]]
Pos(e, id) == LET hs == {h \in DOMAIN e.m : id \in ToSet(e.m[h])} IN
              IF hs = {} THEN BasePos(e, id)
              ELSE LET h == CHOOSE h \in hs : TRUE
                   IN [BasePos(e, h) EXCEPT !.ov = TRUE, !.pos = IndexOf(e.m[h], id)]
Away(s, id) == SelectSeq(s, LAMBDA x : x # id)
PutIn(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))

Lift(e, id) ==
    LET hs == {h \in DOMAIN e.m : id \in ToSet(e.m[h])} IN
    IF hs # {} THEN LET h == CHOOSE h \in hs : TRUE IN [e EXCEPT !.m[h] = Away(@, id)]
    ELSE LET zs == {k \in EZones : e.z[k] = id} IN
         IF zs # {} THEN LET k == CHOOSE k \in zs : TRUE IN [e EXCEPT !.z[k] = 0]
         ELSE LET k == CHOOSE k \in EPiles : id \in ToSet(e.p[k]) IN [e EXCEPT !.p[k] = Away(@, id)]
\* Destinations: a pile at an index (counted without the card), a zone, the
\* top of another card's materials, or out of the game.
ToPile(k, i) == [t |-> "pile", k |-> k, i |-> i]
ToZone(k) == [t |-> "zone", k |-> k]
Under(h) == [t |-> "mat", h |-> h]
Gone == [t |-> "none"]
Drop(e, id, to) ==
    CASE to.t = "pile" -> [e EXCEPT !.p[to.k] = PutIn(@, to.i, id)]
      [] to.t = "zone" -> [e EXCEPT !.z[to.k] = id]
      [] to.t = "mat" -> [e EXCEPT !.m = (to.h :> Append(Mats(e, to.h), id)) @@ @]
      [] OTHER -> e
NoPos == [con |-> 0, loc |-> 0, seq |-> 0, ov |-> FALSE, pos |-> 0]

-----------------------------------------------------------------------------
(* Steps.  A run r is [e, out]: the field now, the steps so far.             *)

Run(e) == [e |-> e, out |-> <<>>]
Send(r, m, e) == [e |-> e, out |-> Append(r.out, [m |-> m, e |-> e])]
Mv(r, id, to) ==
    LET e2 == Drop(Lift(r.e, id), id, to)
    IN Send(r, [k |-> "MOVE", code |-> 1000 + id, at |-> Pos(r.e, id),
                to |-> IF to.t = "none" THEN NoPos ELSE Pos(e2, id), reason |-> 64 + id], e2)
\* A sequence of <<card, destination>>.
Mvs(r, moves) == FoldLeft(LAMBDA x, y : Mv(x, y[1], y[2]), r, moves)

\* One card moves.
A_Move(e, id, to) == Mv(Run(e), id, to)
\* Holders leave the field one after the other, then their materials go.
A_Leave(e, leaving, after) == Mvs(Mvs(Run(e), leaving), after)
\* A card outside the field gets materials, then it arrives at a zone.  The
\* materials of a card that becomes a material go first.
WithOwn(e, ids) == FlattenSeq([i \in 1..Len(ids) |-> Mats(e, ids[i]) \o <<ids[i]>>])
A_Xyz(e, h, ids, k) == Mv(Mvs(Run(e), Map(WithOwn(e, ids), LAMBDA x : <<x, Under(h)>>)), h, ToZone(k))
\* A token appears.
A_Token(e, k) == LET e2 == [e EXCEPT !.z[k] = e.nid, !.nid = @ + 1]
                 IN Send(Run(e), [k |-> "MOVE", code |-> 7, at |-> NoPos, to |-> BasePos(e2, e.nid), reason |-> 1], e2)

\* Two cards on the field change places, with their materials.
A_Swap(e, k1, k2) ==
    Send(Run(e), [k |-> "SWAP", code |-> 1, x |-> 2, at |-> BasePos(e, e.z[k1]), to |-> BasePos(e, e.z[k2])],
         [e EXCEPT !.z = [@ EXCEPT ![k1] = e.z[k2], ![k2] = e.z[k1]]])
\* The cards in the zones ks of a row are dealt out again: the one from ks[i]
\* is afterwards in to[i].
A_Deal(e, ks, to) ==
    LET z2 == [k \in EZones |-> IF k \in ToSet(to) THEN e.z[ks[IndexOf(to, k) + 1]] ELSE e.z[k]]
        e2 == [e EXCEPT !.z = z2]
    IN Send(Run(e), [k |-> "SHUFFLE_SET_CARD", loc |-> ks[1][2], prev |-> Map(ks, LAMBDA k : BasePos(e, e.z[k])),
                     cur |-> Map(ks, LAMBDA k : BasePos(e2, e.z[k]))], e2)

\* Cards are drawn one by one from the top, which is the end.
RECURSIVE DrawN(_, _, _)
DrawN(e, con, n) ==
    IF n = 0 THEN e
    ELSE LET d == e.p[<<con, 1>>]
         IN DrawN([e EXCEPT !.p[<<con, 1>>] = SubSeq(d, 1, Len(d) - 1), !.p[<<con, 2>>] = Append(@, d[Len(d)])], con, n - 1)
A_Draw(e, con, n) == Send(Run(e), [k |-> "DRAW", con |-> con, count |-> n, code |-> 5000], DrawN(e, con, n))
A_Reverse(e) == Send(Run(e), [k |-> "REVERSE_DECK"],
                     [e EXCEPT !.p = [@ EXCEPT ![<<0, 1>>] = Reverse(@), ![<<1, 1>>] = Reverse(@)]])
\* Graveyard and deck are exchanged; the cards of the graveyard in out go to
\* the extra deck instead, from index at on.
A_GraveDeck(e, con, out, at) ==
    LET g == e.p[<<con, 16>>]  x == e.p[<<con, 64>>]
        stay(id) == id \notin out  leave(id) == id \in out
    IN Send(Run(e), [k |-> "SWAP_GRAVE_DECK", con |-> con, insert |-> at,
                     bits |-> Map(g, LAMBDA id : IF id \in out THEN 1 ELSE 0), nbytes |-> (Len(g) + 7) \div 8],
            [e EXCEPT !.p = [@ EXCEPT ![<<con, 1>>] = SelectSeq(g, stay), ![<<con, 16>>] = e.p[<<con, 1>>],
                                      ![<<con, 64>>] = SubSeq(x, 1, at) \o SelectSeq(g, leave) \o SubSeq(x, at + 1, Len(x))]])

\* Piles get another size: fewer cards, or more, unknown ones.
Size(e, k, n) == LET s == e.p[k]  more == IF n > Len(s) THEN n - Len(s) ELSE 0
                 IN [e EXCEPT !.p[k] = SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s)) \o [i \in 1..more |-> e.nid + i - 1],
                              !.nid = @ + more]
\* The other player of the team takes over.
A_TagSwap(e, con, main, extra, hand) ==
    Send(Run(e), [k |-> "TAG_SWAP", con |-> con, main |-> main, extra |-> extra, extra_p |-> 0, hand |-> hand, top |-> 0, code |-> 77],
         Size(Size(Size(e, <<con, 1>>, main), <<con, 64>>, extra), <<con, 2>>, hand))
A_Start(e, lps, sizes) ==
    LET e0 == [EmptyField EXCEPT !.nid = e.nid, !.tc = e.tc, !.phase = e.phase, !.mask = e.mask, !.lp = lps, !.know = e.know]
    IN Send(Run(e), [k |-> "START", x |-> 0, lps |-> lps, sizes |-> sizes],
            Size(Size(Size(Size(e0, <<0, 1>>, sizes[1]), <<0, 64>>, sizes[2]), <<1, 1>>, sizes[3]), <<1, 64>>, sizes[4]))

\* The whole field is told again; the client gets new cards for all.
RowSeq(con, loc) == [i \in 1..(IF loc = 4 THEN 7 ELSE 8) |-> <<con, loc, i - 1>>]
RowIds(e, con, loc) == FlattenSeq(Map(RowSeq(con, loc), LAMBDA k :
                           IF e.z[k] = 0 THEN <<>> ELSE <<e.z[k]>> \o Mats(e, e.z[k])))
PilesIds(e, con) == e.p[<<con, 1>>] \o e.p[<<con, 2>>] \o e.p[<<con, 16>>] \o e.p[<<con, 32>>] \o e.p[<<con, 64>>]
AllIds(e) == RowIds(e, 0, 4) \o RowIds(e, 0, 8) \o RowIds(e, 1, 4) \o RowIds(e, 1, 8) \o PilesIds(e, 0) \o PilesIds(e, 1)
Renamed(e) ==
    LET all == TLCEval(AllIds(e))
        new == TLCEval([id \in ToSet(all) |-> e.nid + IndexOf(all, id)])
        name(id) == new[id]
    IN [e EXCEPT !.p = TLCEval([k \in EPiles |-> Map(e.p[k], name)]),
                 !.z = [k \in EZones |-> IF e.z[k] = 0 THEN 0 ELSE new[e.z[k]]],
                 !.m = [h \in {new[x] : x \in Holders(e)} |-> Map(e.m[CHOOSE x \in Holders(e) : new[x] = h], name)],
                 !.know = [i \in DOMAIN e.know \ ToSet(all) |-> e.know[i]],
                 !.nid = @ + Len(all)]
RowOf(e, con, loc) == Map(RowSeq(con, loc), LAMBDA k :
                          [has |-> IF e.z[k] = 0 THEN 0 ELSE 1, pos |-> 5, mats |-> IF e.z[k] = 0 THEN 0 ELSE Len(Mats(e, e.z[k]))])
SideOf(e, con) == [lp |-> e.lp[con + 1], mz |-> RowOf(e, con, 4), sz |-> RowOf(e, con, 8),
                   main |-> Len(e.p[<<con, 1>>]), hand |-> Len(e.p[<<con, 2>>]), grave |-> Len(e.p[<<con, 16>>]),
                   banished |-> Len(e.p[<<con, 32>>]), extra |-> Len(e.p[<<con, 64>>]), extra_p |-> 0]
A_Reload(e) == Send(Run(e), [k |-> "RELOAD_FIELD", flags |-> {}, shape |-> [three |-> 0, pz |-> 1, spz |-> 0, emz |-> 1],
                             sides |-> <<SideOf(e, 0), SideOf(e, 1)>>, chains |-> e.chain], Renamed(e))

\* What does not concern cards.
Floor(v) == IF v < 0 THEN 0 ELSE v
A_Lp(e, k, con, v) == Send(Run(e), [k |-> k, con |-> con, v |-> v],
    [e EXCEPT !.lp[con + 1] = CASE k = "LPUPDATE" -> v [] k = "RECOVER" -> @ + v [] OTHER -> Floor(@ - v)])
A_Turn(e, con) == Send(Run(e), [k |-> "NEW_TURN", con |-> con], [e EXCEPT !.turn = @ + 1, !.tc = con])
A_Phase(e, v) == Send(Run(e), [k |-> "NEW_PHASE", v |-> v], [e EXCEPT !.phase = v])
A_Push(e, link) == Send(Run(e), [k |-> "CHAINING", x |-> 1] @@ link, [e EXCEPT !.chain = Append(@, link)])
A_Pop(e) == Send(Run(e), [k |-> "CHAIN_SOLVED", x |-> Len(e.chain)], [e EXCEPT !.chain = SubSeq(@, 1, Len(@) - 1)])
A_Block(e, mask) == Send(Run(e), [k |-> "FIELD_DISABLED", mask |-> mask], [e EXCEPT !.mask = mask])
\* Something is told of cards: a location at a time (items of each card, and
\* the codes of its materials if cs is not empty), or of one card.
Learn(know, id, data) == (id :> IF id \in DOMAIN know THEN data @@ know[id] ELSE data) @@ know
CodeIs(v) == [_ |-> 0, code |-> [value |-> v]]
WithMats(e, id, items, cs) ==
    items \o (IF Bare(e, id) \/ DOMAIN cs = {} THEN <<>> ELSE <<[q |-> "overlays", v |-> Map(Mats(e, id), LAMBDA x : cs[x])]>>)
LocSlots(e, con, loc, it, cs) ==
    LET slot(id) == [k |-> "card", items |-> WithMats(e, id, it[id], cs)]
    IN IF loc \in {4, 8} THEN Map(RowSeq(con, loc), LAMBDA k : IF e.z[k] = 0 THEN [k |-> "gap"] ELSE slot(e.z[k]))
       ELSE Map(e.p[<<con, loc>>], slot)
LocMats(e, con, loc) == IF loc \notin {4, 8} THEN {} ELSE UNION {ToSet(Mats(e, e.z[k])) : k \in ToSet(RowSeq(con, loc))}
LocCards(e, con, loc) == (IF loc \in {4, 8} THEN ToSet(RowIds(e, con, loc)) ELSE ToSet(e.p[<<con, loc>>])) \ LocMats(e, con, loc)
Told(e, top, ms, it, cs) ==
    LET data(i) == TLCEval(IF i \in top THEN QData(it[i]) ELSE CodeIs(cs[i]))
    IN [e EXCEPT !.know = TLCEval([i \in top \cup (ms \cap DOMAIN cs) |-> IF i \in DOMAIN e.know THEN data(i) @@ e.know[i] ELSE data(i)] @@ @)]
A_TellItems(e, con, loc, it, cs) ==
    Send(Run(e), [k |-> "UPDATE_DATA", con |-> con, loc |-> loc, slots |-> LocSlots(e, con, loc, it, cs)],
         Told(e, LocCards(e, con, loc), LocMats(e, con, loc), it, cs))
A_Tell(e, con, loc) == A_TellItems(e, con, loc, [i \in LocCards(e, con, loc) |-> <<[q |-> "code", v |-> 1000 + i]>>],
                                   [i \in LocMats(e, con, loc) |-> 1000 + i])
A_TellOne(e, id, items, cs) == Send(Run(e), [k |-> "UPDATE_CARD", at |-> BasePos(e, id), items |-> WithMats(e, id, items, cs)],
                                    Told(e, {id}, ToSet(Mats(e, id)), id :> items, cs))
\* Anything that tells nothing about the board.
A_Other(e, m) == Send(Run(e), m, e)
NoEffect == (SwallowedKinds \cup RequestKinds \cup
             {"CONFIRM_DECKTOP", "CONFIRM_EXTRATOP", "CONFIRM_CARDS", "SHUFFLE_DECK", "SHUFFLE_HAND", "SHUFFLE_EXTRA",
              "POS_CHANGE", "SET", "ADD_COUNTER", "REMOVE_COUNTER", "SUMMONING", "SPSUMMONING", "FLIPSUMMONING",
              "CHAINED", "CHAIN_SOLVING", "CHAIN_NEGATED", "CHAIN_DISABLED", "RANDOM_SELECTED", "CARD_SELECTED",
              "BECOME_TARGET", "CARD_TARGET", "CANCEL_TARGET", "ATTACK", "TOSS_COIN", "TOSS_DICE", "HAND_RES", "PLAYER_HINT"})

-----------------------------------------------------------------------------
(* The other end *)

\* The context's board is the client's.
CtxOf(D) == [D.c EXCEPT !.sizes = [k \in EPiles |-> Len(D.B.f.p[k])],
                        !.mats = {k \in B!ZoneKeys : D.B.f.z[k].m # <<>>}]
Knows(D, queries) ==
    FoldLeft(LAMBDA a, q : IF B!Has(D.B.f, q.place) THEN Learn(a, B!CardAt(D.B.f, q.place), q.data) ELSE a, D.know, queries)
Receive(D, m) ==
    LET t == Tr(m, CtxOf(D)) IN
    IF t.st # "ok" THEN [D EXCEPT !.c = t.c]
    ELSE IF "event" \in DOMAIN t.msg THEN [D EXCEPT !.c = t.c, !.B = B!ParseEvent(@, t.msg.event)]
    ELSE IF "queries" \in DOMAIN t.msg THEN [D EXCEPT !.c = t.c, !.know = Knows(D, t.msg.queries)]
    ELSE [D EXCEPT !.c = t.c]
\* Every event produced makes sense on the client's board.
Sensible(D, m) == LET t == Tr(m, CtxOf(D)) IN
    /\ m.k = "MOVE" => WFMoveMsg(m, CtxOf(D))
    /\ t.st = "ok" /\ "event" \in DOMAIN t.msg => B!WFEvent(D.B, t.msg.event)
RECURSIVE ReceiveAll(_, _)
ReceiveAll(D, out) == IF out = <<>> THEN D ELSE ReceiveAll(Receive(D, out[1].m), Tail(out))
RECURSIVE AllSensible(_, _)
AllSensible(D, out) == out = <<>> \/ (Sensible(D, out[1].m) /\ AllSensible(Receive(D, out[1].m), Tail(out)))

\* The engine's field as a board.
FieldBoard(e) ==
    [p |-> e.p,
     z |-> [k \in B!ZoneKeys |->
              IF k[2] = 1024 THEN B!NoZone
              ELSE LET q == EngPos(<<k[1], k[2], k[3], NoO>>)  id == e.z[<<q.con, q.loc, q.seq>>]
                   IN [c |-> id, m |-> IF id = 0 THEN <<>> ELSE Mats(e, id)]]]
Live(e) == InPiles(e) \cup OnField(e) \cup AsMats(e)
\* The client follows the engine.
Follows(D, e) == /\ D.B.f = FieldBoard(e)
                 /\ D.B.lp = e.lp /\ D.B.turn = e.turn /\ D.B.tc = e.tc /\ D.B.phase = e.phase
                 /\ D.B.chain = Map(e.chain, ChainMsg)
                 /\ \A i \in Live(e) : (i \in DOMAIN e.know <=> i \in DOMAIN D.know) /\ (i \in DOMAIN e.know => \A x \in DOMAIN e.know[i] \cup DOMAIN D.know[i] : x = "_" \/ (x \in DOMAIN e.know[i] /\ x \in DOMAIN D.know[i] /\ D.know[i][x] = e.know[i][x]))
                 /\ D.B.blocked = Unpack(e.mask, 0)
                 /\ D.c.def = <<>>
=============================================================================
