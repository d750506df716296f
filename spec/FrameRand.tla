----------------------------- MODULE FrameRand -----------------------------
(* Random well-formed board operations, shared by the behaviour generators.  *)
(* RandomElement is only used below operators with parameters: a definition  *)
(* without parameters would be evaluated once and for all by TLC.            *)
EXTENDS Frame

Pick(s) == s[RandomElement(1..Len(s))]
Chance(pct) == RandomElement(1..100) <= pct
RECURSIVE RPerm(_)
RPerm(S) == IF S = {} THEN <<>>
            ELSE LET x == RandomElement(S) IN <<x>> \o RPerm(S \ {x})

\* Every behaviour plays on a few piles and zones of the full board, so that
\* operations meet each other; rows: zones are taken from one or two rows.
RandAct(x) ==
    LET row == <<RandomElement(Ctrls), RandomElement({4, 4, 8, 512})>>
        inrow == RPerm({k \in ZoneKeys : PK(k) = row})
        other == RPerm({k \in ZoneKeys : PK(k) # row})
        np == RandomElement(2..4)
        nz == RandomElement(1..3)
        piles == SubSeq(RPerm(PileKeys), 1, np)
        across == <<1 - piles[1][1], piles[1][2]>>      \* the same pile of the other player
    IN [piles |-> IF across \in PileKeys /\ across \notin ToSet(piles) /\ Chance(50) THEN Append(piles, across) ELSE piles,
        zones |-> SubSeq(inrow, 1, IF Len(inrow) < 6 THEN Len(inrow) ELSE 6) \o SubSeq(other, 1, nz)]

PileDest(b, act) == LET k == Pick(act.piles)
                        len == Len(b.p[k])
                    IN <<k[1], k[2], Pick(<<0, len, RandomElement(0..len), RandomElement(0..len)>>), NoOseq>>
FreeZones(b, act) == SelectSeq(act.zones, LAMBDA k : b.z[k].c = 0)
BareZones(b, act) == SelectSeq(act.zones, LAMBDA k : b.z[k] = NoZone)
ZoneDest(b, act) == LET f == FreeZones(b, act)
                    IN IF f = <<>> THEN PileDest(b, act)
                       ELSE LET k == Pick(f) IN <<k[1], k[2], k[3], NoOseq>>
BareDest(b, act) == LET f == BareZones(b, act)
                    IN IF f = <<>> THEN PileDest(b, act)
                       ELSE LET k == Pick(f) IN <<k[1], k[2], k[3], NoOseq>>
MatDest(b, act) == LET used == SelectSeq(act.zones, LAMBDA k : b.z[k].c # 0)
                       k == IF used # <<>> /\ Chance(80) THEN Pick(used) ELSE Pick(act.zones)
                       len == Len(b.z[k].m)
                   IN <<k[1], k[2], k[3], Pick(<<0, len, RandomElement(0..len)>>)>>
AnyDest(b, act) == LET r == RandomElement(1..10)
                   IN IF r <= 3 THEN PileDest(b, act) ELSE IF r <= 7 THEN ZoneDest(b, act) ELSE MatDest(b, act)

OccPlace(D) == SubSeq(Pick(D), 1, 4)
ZoneOcc(D) == SelectSeq(D, LAMBDA d : d[2] \in AllZoneLocs)
\* Prefer cards on the field, where the interesting cases are.
OccPlaceZ(D) == LET Z == ZoneOcc(D) IN IF Z # <<>> /\ Chance(60) THEN OccPlace(Z) ELSE OccPlace(D)

GenAdd(b, act) == [k |-> "add", a |-> AnyDest(b, act)]
GenRemove(D) == [k |-> "remove", a |-> OccPlaceZ(D)]
GenMove(b, act, D) ==
    LET from == OccPlaceZ(D)
        b0 == TakeCard(b, from)
        to == IF IsZone(from) /\ ~IsMat(from)
              THEN LET r == RandomElement(1..10)
                   IN IF r <= 5 THEN BareDest(b, act) ELSE IF r <= 7 THEN PileDest(b, act) ELSE MatDest(b0, act)
              ELSE AnyDest(b0, act)
    IN [k |-> "move", a |-> from, b |-> to]
GenSwap(b, D) == [k |-> "swap", a |-> OccPlaceZ(D), b |-> OccPlaceZ(D)]
GenShuffle(b, act) ==
    LET r == LET z == FoldLeft(LAMBDA acc, k : IF b.z[k].c # 0 THEN Append(acc, k) ELSE acc, <<>>, act.zones)
             IN IF z = <<>> THEN PK(act.zones[1]) ELSE PK(Pick(z))
        S == {s \in 0..(ZoneLim[r[2]] - 1) : b.z[<<r[1], r[2], s>>].c # 0}
        all == RPerm(S)
        prev == SubSeq(all, 1, IF all = <<>> THEN 0 ELSE IF Chance(60) THEN Len(all) ELSE RandomElement(1..Len(all)))
        row == [i \in 1..ZoneLim[r[2]] |-> i - 1]
        cur == IF Chance(75) THEN RPerm(ToSet(prev))
               ELSE IF Chance(50) THEN SubSeq(RPerm(ToSet(row)), 1, Len(prev))
               ELSE TLCEval([i \in 1..Len(prev) |-> Pick(row)])
        holes == RandomElement({0, 0, 30, 60})
    IN [k |-> "shuffle",
        prev |-> [i \in 1..Len(prev) |-> <<r[1], r[2], prev[i], NoOseq>>],
        cur |-> [i \in 1..Len(cur) |-> IF Chance(holes) THEN <<0, 0, 0, 0>> ELSE <<r[1], r[2], cur[i], NoOseq>>]]
GenResize(b, act, room) ==
    LET k == Pick(act.piles)
        len == Len(b.p[k])
    IN [k |-> "resize", a |-> <<k[1], k[2], Pick(<<0, len, RandomElement(0..(len + 4))>>), NoOseq>>,
        n |-> LET alike == Len(b.p[Pick(act.piles)])    \* as large as another pile
              IN IF alike <= len + room /\ Chance(25) THEN alike
                 ELSE Pick(<<RandomElement(0..(len + room)), RandomElement(0..len), 0>>)]
GenSplice(b, act) ==
    LET kf == Pick(act.piles)
        kt == IF Chance(40) THEN kf ELSE Pick(act.piles)
        lf == Len(b.p[kf])
        f == IF Chance(40) THEN 0 ELSE RandomElement(0..lf)
        n == IF Chance(30) THEN lf - f ELSE RandomElement(0..(lf - f))
        lt == Len(b.p[kt]) - (IF kf = kt THEN n ELSE 0)
    IN [k |-> "splice", a |-> <<kf[1], kf[2], f, NoOseq>>, n |-> n,
        b |-> <<kt[1], kt[2], IF Chance(60) THEN RandomElement(0..lt) ELSE Pick(<<0, lt>>), NoOseq>>,
        rev |-> RandomElement({0, 1})]
GenPileSwap(b, act) == LET x == Pick(act.piles)
                           alike == SelectSeq(act.piles, LAMBDA k : k # x /\ Len(b.p[k]) = Len(b.p[x]))
                           y == IF alike # <<>> /\ Chance(50) THEN Pick(alike) ELSE Pick(act.piles)
                    IN [k |-> "pswap", a |-> <<x[1], x[2], RandomElement(0..3), NoOseq>>,
                                       b |-> <<y[1], y[2], 0, NoOseq>>]

\* D is Dump(b); cap bounds the number of cards alive.
GenKind(kind, b, act, D, cap) ==
    CASE kind = "add" -> GenAdd(b, act)
      [] kind = "remove" /\ D # <<>> -> GenRemove(D)
      [] kind = "move" /\ D # <<>> -> GenMove(b, act, D)
      [] kind = "swap" /\ D # <<>> -> GenSwap(b, D)
      [] kind = "shuffle" -> GenShuffle(b, act)
      [] kind = "resize" -> GenResize(b, act, IF Len(D) < cap THEN RandomElement(0..(cap - Len(D))) ELSE 0)
      [] kind = "splice" -> GenSplice(b, act)
      [] kind = "pswap" -> GenPileSwap(b, act)
      [] kind = "clear" -> [k |-> "clear"]
      [] OTHER -> GenAdd(b, act)
\* The kind wanted, unless it does not apply; keeps boards filled but bounded.
GenOp(b, act, D, weights, cap) ==
    LET want == IF Len(D) < 4 /\ Chance(50) THEN "add" ELSE Pick(weights)
        kind == IF want = "add" /\ Len(D) >= cap THEN "remove" ELSE want
        op == GenKind(kind, b, act, D, cap)
    IN IF WFOp(b, op) THEN op
       ELSE IF D # <<>> /\ Len(D) >= cap THEN [k |-> "remove", a |-> OccPlace(D)]
       ELSE [k |-> "add", a |-> PileDest(b, act)]
=============================================================================
