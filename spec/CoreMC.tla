------------------------------- MODULE CoreMC -------------------------------
(* Laws of the engine's messages and of their translation.  Every state is   *)
(* one case of the laws of Part; the invariant is the law.                   *)
(*   "delimited"  how long a message is can be told from its bytes alone, by *)
(*                a grammar written down independently of Wire               *)
(*   "zones"      every zone mask yields exactly the zones it leaves clear   *)
(*   "places"     engine positions and board places correspond one to one    *)
(*   "query"      decoded card data is what the items say                    *)
(*   "faithful"   what a message means, and nothing else, shows in what it   *)
(*                is translated to                                           *)
(*   "piles"      on the board, whole-pile events do what the engine did     *)
EXTENDS CoreRand
CONSTANTS Part,
          Size         \* how many cases / how big
VARIABLE x

F == INSTANCE Board WITH Ctrls <- {0, 1}, PileLocSeq <- <<1, 2, 16, 32, 64>>,
                         ZoneLocSeq <- <<4, 8, 256, 512, 1024>>,
                         ZoneLim <- (4 :> 7) @@ (8 :> 5) @@ (256 :> 1) @@ (512 :> 2) @@ (1024 :> 1)

Somewhere == TLCEval([EmptyC EXCEPT !.sizes = TLCEval([k \in {0, 1} \X EngPileLocs |-> RandomElement(1..20)])])

-----------------------------------------------------------------------------
(* The grammar: a sequence of segments per opcode.                           *)
(*   <<"n", k>> k bytes      <<"l4", k>> / <<"l1", k>> a counted list of     *)
(*   <<"p1", k>> same, each twice     elements of k bytes                    *)
(*   <<"b4">> <<"s2">> bytes / a terminated string, counted                  *)
(*   <<"q">> card data up to its end marker                                  *)
(*   <<"tag">> <<"side">> the irregular ones                                 *)
Grammar ==
    LET Set(S, g) == [o \in S |-> g] IN
    Set({1, 61, 63, 65, 74, 112, 113, 114, 37}, <<>>) @@
    Set({30, 42, 31}, <<<<"n", 1>>, <<"l4", 10>>>>) @@ Set({32, 40, 132}, <<<<"n", 1>>>>) @@
    Set({33, 39}, <<<<"n", 1>>, <<"l4", 4>>>>) @@ Set({36}, <<<<"n", 1>>, <<"p1", 10>>>>) @@
    Set({41}, <<<<"n", 2>>>>) @@ Set({53}, <<<<"n", 9>>>>) @@ Set({54}, <<<<"n", 14>>>>) @@
    Set({55}, <<<<"n", 28>>>>) @@ Set({56}, <<<<"n", 4>>>>) @@ Set({60, 62, 64}, <<<<"n", 14>>>>) @@
    Set({70}, <<<<"n", 32>>>>) @@ Set({71, 72, 75, 76, 73, 133}, <<<<"n", 1>>>>) @@
    Set({91, 92, 94, 100}, <<<<"n", 5>>>>) @@ Set({81}, <<<<"n", 1>>, <<"l4", 10>>>>) @@
    Set({80, 83}, <<<<"l4", 10>>>>) @@ Set({96, 97, 93, 110}, <<<<"n", 20>>>>) @@
    Set({101, 102}, <<<<"n", 7>>>>) @@ Set({130, 131}, <<<<"n", 1>>, <<"l1", 1>>>>) @@
    Set({4}, <<<<"n", 17>>>>) @@ Set({161}, <<<<"tag">>>>) @@
    Set({162}, <<<<"n", 4>>, <<"side">>, <<"side">>, <<"l4", 28>>>>) @@ Set({165}, <<<<"n", 10>>>>) @@
    Set({6}, <<<<"n", 2>>, <<"b4">>>>) @@ Set({7}, <<<<"n", 3>>, <<"q">>>>) @@
    Set({141}, <<<<"n", 6>>>>) @@ Set({140}, <<<<"n", 10>>>>) @@ Set({143}, <<<<"n", 1>>, <<"l1", 8>>>>) @@
    Set({15}, <<<<"n", 10>>, <<"l4", 14>>>>) @@ Set({26}, <<<<"n", 11>>, <<"l4", 14>>, <<"l4", 14>>>>) @@
    Set({20}, <<<<"n", 10>>, <<"l4", 11>>>>) @@ Set({14}, <<<<"n", 1>>, <<"l1", 8>>>>) @@
    Set({10}, <<<<"n", 1>>, <<"l4", 19>>, <<"l4", 8>>, <<"n", 2>>>>) @@
    Set({11}, <<<<"n", 1>>, <<"l4", 10>>, <<"l4", 10>>, <<"l4", 7>>, <<"l4", 10>>, <<"l4", 10>>,
                <<"l4", 19>>, <<"n", 3>>>>) @@
    Set({19}, <<<<"n", 6>>>>) @@ Set({16}, <<<<"n", 11>>, <<"l4", 23>>>>) @@ Set({12}, <<<<"n", 23>>>>) @@
    Set({13}, <<<<"n", 9>>>>) @@ Set({18, 24}, <<<<"n", 6>>>>) @@ Set({21, 25}, <<<<"n", 1>>, <<"l4", 13>>>>) @@
    Set({5}, <<<<"n", 2>>>>) @@ Set({2}, <<<<"n", 10>>>>) @@ Set({38}, <<<<"n", 13>>>>) @@
    Set({50}, <<<<"n", 28>>>>) @@ Set({35}, <<<<"n", 5>>, <<"b4">>>>) @@ Set({90}, <<<<"n", 1>>, <<"l4", 8>>>>) @@
    Set({170}, <<<<"n", 4>>>>) @@ Set({160}, <<<<"n", 19>>>>) @@ Set({111}, <<<<"n", 38>>>>) @@
    Set({120}, <<<<"n", 14>>>>) @@ Set({163}, <<<<"s2">>>>)

Bytes(w) == FlattenSeq([i \in 1..Len(w) |->
    LET f == w[i] IN CASE f[1] = 1 -> B1(f[2]) [] f[1] = 2 -> B2(f[2]) [] f[1] = 4 -> B4(f[2])
                       [] f[1] = 8 -> B4(f[2]) \o B4(f[3])])
N2(b, at) == b[at] + 256 * b[at + 1]
N4(b, at) == N2(b, at) + 65536 * N2(b, at + 2)
RECURSIVE QEnd(_, _), Zones(_, _, _), Eat(_, _, _)
QEnd(b, at) == IF N2(b, at) = 4 /\ b[at + 2] = 0 /\ b[at + 3] = 0 /\ b[at + 4] = 0 /\ b[at + 5] = 128
               THEN at + 6 ELSE QEnd(b, at + 2 + N2(b, at))
Zones(b, at, n) == IF n = 0 THEN at ELSE Zones(b, IF b[at] = 0 THEN at + 1 ELSE at + 6, n - 1)
Eat(b, at, segs) ==
    IF segs = <<>> THEN at
    ELSE LET s == Head(segs)
             to == CASE s[1] = "n" -> at + s[2]
                     [] s[1] = "l4" -> at + 4 + N4(b, at) * s[2]
                     [] s[1] = "l1" -> at + 1 + b[at] * s[2]
                     [] s[1] = "p1" -> at + 1 + 2 * b[at] * s[2]
                     [] s[1] = "b4" -> at + 4 + N4(b, at)
                     [] s[1] = "s2" -> at + 3 + N2(b, at)
                     [] s[1] = "q" -> QEnd(b, at)
                     [] s[1] = "side" -> Zones(b, at + 4, 15) + 24
                     [] s[1] = "tag" -> at + 21 + 8 * (N4(b, at + 5) + N4(b, at + 13))
         IN Eat(b, to, Tail(segs))
Length(b) == Eat(b, 2, Grammar[b[1]]) - 1

DelimitedCases(u) == {<<k, i>> : k \in DOMAIN Op, i \in 1..Size}
Delimited == LET m == TLCEval(IF WFGen(x[1], Somewhere) THEN Gen(x[1], Somewhere) ELSE [k |-> "RETRY"])
                 b == Bytes(Wire(m))
             IN Length(b \o <<9, 9, 9, 9>>) = Len(b) /\ Len(b) = WireSize(Wire(m))

-----------------------------------------------------------------------------
(* Zone masks: [viewer, half, set of the bits set in that half] *)
FewOrMany(u) == {S \in SUBSET (0..15) : Cardinality(S) <= Size \/ Cardinality(S) >= 16 - Size}
ZoneCases(u) == {0, 1} \X {0, 16} \X FewOrMany(0)
BitOf(viewer, p) == LET e == EngPos(p)
                    IN (IF e.con = viewer THEN 0 ELSE 16) + (IF e.loc = 4 THEN e.seq ELSE 8 + e.seq)
BoardZones == {<<con, l, s, NoO>> : con \in {0, 1}, l \in {4}, s \in 0..6}
              \cup {<<con, 8, s, NoO>> : con \in {0, 1}, s \in 0..4}
              \cup {<<con, 256, 0, NoO>> : con \in {0, 1}}
              \cup {<<con, 512, s, NoO>> : con \in {0, 1}, s \in 0..1}
ZonesLaw == LET mask == {b + x[2] : b \in x[3]} \cup (IF x[2] = 0 THEN {17, 30} ELSE {0, 15})
                zs == Unpack(mask, x[1])
            IN /\ ToSet(zs) = {p \in BoardZones : BitOf(x[1], p) \notin mask}
               /\ Len(zs) = Cardinality(ToSet(zs))
               /\ \A b \in 0..31 : W_Bit(MaskWord(mask), b) = (IF b \in mask THEN 1 ELSE 0)

-----------------------------------------------------------------------------
(* Positions *)
EngPlaces == {[con |-> con, loc |-> l, seq |-> s, ov |-> o, pos |-> p] :
                con \in {0, 1}, l \in {1, 2, 4, 8, 16, 32, 64}, s \in 0..7, o \in BOOLEAN, p \in 0..2}
PlaceCases == {e \in EngPlaces : (e.loc = 4 => e.seq <= 6) /\ (~e.ov => e.pos = 1)}
PlacesLaw == /\ EngPos(Pl(x)) = x
             /\ F!WFPlace(Pl(x)) \/ (F!IsPile(Pl(x)) /\ x.ov)
             /\ Cardinality({e \in PlaceCases : Pl(e) = Pl(x)}) = 1

-----------------------------------------------------------------------------
(* Card data *)
QueryLaw == LET items == RItems(0)
                d == QData(items)
                given == {items[i].q : i \in 1..Len(items)}
                last(q) == LET s == SelectSeq(items, LAMBDA i : i.q = q) IN s[Len(s)]
                names == DOMAIN d \ {"_"}
            IN /\ names = (given \ {"overlays", "unknown", "link"})
                          \cup (IF "link" \in given THEN {"link_rate", "link_arrow"} ELSE {})
               /\ \A q \in names \cap (QU32 \cup {"owner"}) : d[q].value = last(q).v
               /\ "link" \in given => d["link_rate"].value = last("link").v /\ d["link_arrow"].value = last("link").arrow
               /\ "overlays" \in given => QOverlays(items) = last("overlays").v
               /\ LET qs == QueriesOf(<<0, 4, 3, NoO>>, items)
                  IN Len(qs) = 1 + Len(QOverlays(items))
                     /\ \A i \in 1..Len(QOverlays(items)) : qs[i + 1].place = <<0, 4, 3, i - 1>>

-----------------------------------------------------------------------------
(* Faithfulness: the fields of messages, what they mean, and what does not   *)
(* matter.                                                                   *)
KeepsCode == {"SELECT_CARD", "SELECT_UNSELECT_CARD", "SELECT_TRIBUTE", "SELECT_POSITION", "SELECT_EFFECTYN"}
NoMatter(k) ==
    CASE k \in {"CONFIRM_DECKTOP", "CONFIRM_EXTRATOP", "CONFIRM_CARDS", "RANDOM_SELECTED",
                "CARD_SELECTED", "BECOME_TARGET"} -> {"con"}
      [] k \in {"SHUFFLE_HAND", "SHUFFLE_EXTRA"} -> {"codes"}
      [] k = "SHUFFLE_SET_CARD" -> {"loc"}
      [] k \in {"POS_CHANGE", "SET", "SWAP", "CHAINING", "ADD_COUNTER", "REMOVE_COUNTER"} -> {"code", "x", "y"}
      [] k \in {"SUMMONING", "SPSUMMONING", "FLIPSUMMONING"} -> {"code"}
      [] k \in {"CHAINED", "CHAIN_SOLVING", "CHAIN_NEGATED", "CHAIN_DISABLED", "CHAIN_SOLVED"} -> {"x"}
      [] k = "SELECT_CHAIN" -> {"h1", "h2"}
      [] k = "START" -> {"x"}
      [] k = "TAG_SWAP" -> {"extra_p", "top", "code"}
      [] k = "RELOAD_FIELD" -> {"flags"}
      [] k = "DECK_TOP" -> {"code", "x"}
      [] k = "DRAW" -> {"code"}
      [] k = "SWAP_GRAVE_DECK" -> {"nbytes"}
      [] OTHER -> {}
ListElem(k, e) == <<Pl(e.at), IF k \in KeepsCode THEN e.code ELSE 0, IF k = "SELECT_TRIBUTE" THEN e.flag ELSE 0>>
Side(s) == <<s.lp, Map(s.mz, LAMBDA z : IF z.has = 0 THEN 0 - 1 ELSE z.mats),
             Map(s.sz, LAMBDA z : IF z.has = 0 THEN 0 - 1 ELSE z.mats), s.main, s.hand, s.grave, s.banished, s.extra>>
Meaning(m, f) ==
    LET v == m[f] IN
    CASE m.k = "ATTACK" /\ f = "to" -> IF v.loc = 0 THEN <<"none">> ELSE Pl(v)
      [] f \in {"at", "to", "card"} -> Pl(v)
      [] f \in {"ats", "prev", "cur"} -> Map(v, Pl)
      [] m.k = "SELECT_CARD" /\ f = "cards" /\ v[1].at.loc = 0 -> Map(v, LAMBDA e : <<e.code>>)
      [] f \in {"cards", "cards2"} -> Map(v, LAMBDA e : ListElem(m.k, e))
      [] f = "act" -> Map(v, LAMBDA e : <<Pl(e.at), e.eff>>)
      [] f = "atk" -> Map(v, LAMBDA e : <<Pl(e.at), Bool(e.direct)>>)
      [] f \in {"sum", "sps", "rep", "mset", "sset"} -> Map(v, LAMBDA e : Pl(e.at))
      [] f = "mask" -> v \ {7, 23}
      [] f \in {"cancel", "finish", "accept", "p1", "p2", "shuffle", "forced"} -> Bool(v)
      [] m.k = "TOSS_COIN" /\ f = "vals" -> Map(v, Bool)
      [] m.k = "HAND_RES" -> v % 16
      [] m.k = "SELECT_CHAIN" /\ f = "x" -> IF v % 128 > 0 THEN 1 ELSE 0
      [] f = "sides" -> Map(v, Side)
      [] f = "chains" -> Map(v, LAMBDA e : <<Pl(e.card), Pl(e.at), e.eff>>)
      [] f = "slots" -> Map(v, LAMBDA s : IF s.k = "gap" THEN <<>> ELSE <<QData(s.items), QOverlays(s.items)>>)
      [] f = "items" -> <<QData(v), QOverlays(v)>>
      [] OTHER -> v
\* Trailing empty slots do not show.
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = <<>> THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Means(m, f) == ToString(IF f = "slots" THEN Trim(Meaning(m, f)) ELSE Meaning(m, f))
FaithKinds == (EventKinds \ {"MATCH_KILL"}) \cup RequestKinds \cup {"WIN", "START", "TAG_SWAP", "RELOAD_FIELD", "DRAW", "UPDATE_DATA",
                                                 "UPDATE_CARD", "DECK_TOP"}
FaithCases(u) == {<<k, i>> : k \in FaithKinds, i \in 1..Size}
Faithful ==
    LET c == Somewhere
        m == TLCEval(Gen(x[1], c))
        o == TLCEval(Gen(x[1], c))
        t(mm) == ToString(Tr(mm, c).msg)
        ok(f) ==
            LET n == [m EXCEPT ![f] = o[f]]
                same == IF f \in NoMatter(m.k) THEN TRUE ELSE Means(n, f) = Means(m, f)
                \* These only matter together with others.
                tied == \/ m.k = "UPDATE_DATA" /\ f \in {"con", "loc"}
                           /\ \A i \in 1..Len(m.slots) : m.slots[i].k = "gap"
                        \/ m.k = "UPDATE_DATA" /\ f \in {"loc", "slots"} /\ (n.loc \in {4, 8} /\ Len(n.slots) # (IF n.loc = 4 THEN 7 ELSE 8))
                        \/ m.k = "UPDATE_DATA" /\ f = "slots"
                        \/ m.k \in {"SELECT_PLACE", "SELECT_DISFIELD"} /\ f = "con" /\ m.mask = 0..31
                        \/ m.k = "DECK_TOP" /\ f = "con"
                        \/ m.k = "DRAW" /\ f = "con"
            IN tied \/ (t(n) = t(m)) = same
    IN \A f \in DOMAIN m \ {"k"} : ok(f)

-----------------------------------------------------------------------------
(* Whole piles: x = [d, g, e] sizes of deck, graveyard, extra deck of player *)
(* 0, bits the marks (one per graveyard card), ins the insert position, n a  *)
(* number of cards                                                           *)
PileCases(u) == UNION {[d : {d}, g : {g}, e : {e}, bits : [1..g -> {0, 1}], ins : 0..e, n : 0..d] :
                      d \in 0..Size, g \in 0..Size, e \in 0..1}
Cards(from, n) == [i \in 1..n |-> from + i]
Board0 == LET E == F!EmptyFrame
              P == [E.p EXCEPT ![<<0, 1>>] = Cards(0, x.d), ![<<0, 16>>] = Cards(100, x.g),
                               ![<<0, 64>>] = Cards(200, x.e), ![<<0, 2>>] = Cards(300, 2),
                               ![<<1, 1>>] = Cards(400, 2), ![<<1, 16>>] = Cards(500, 1)]
          IN [F!EmptyBoard EXCEPT !.f.p = P, !.nid = 1000]
C0 == [EmptyC EXCEPT !.sizes = [k \in {0, 1} \X EngPileLocs |-> Len(Board0.f.p[k])]]
After(m) == F!ParseEvent(Board0, Tr(m, C0).msg.event).f.p
Fine(m) == F!WFEvent(Board0, Tr(m, C0).msg.event)
Unrev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Picked(s, bits, v) == LET idx == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : bits[i] = v)
                      IN [i \in 1..Len(idx) |-> s[idx[i]]]
PilesLaw ==
    LET b == Board0.f.p
        D == b[<<0, 1>>]  G == b[<<0, 16>>]  X == b[<<0, 64>>]  H == b[<<0, 2>>]
        draw == [k |-> "DRAW", con |-> 0, count |-> x.n, code |-> 0]
        swp == [k |-> "SWAP_GRAVE_DECK", con |-> 0, insert |-> x.ins, bits |-> x.bits, nbytes |-> 1]
        rev == [k |-> "REVERSE_DECK"]
        tag == [k |-> "TAG_SWAP", con |-> 0, main |-> x.g, extra |-> x.d, extra_p |-> 0, hand |-> x.n, top |-> 0, code |-> 0]
        start == [k |-> "START", x |-> 0, lps |-> <<7, 8>>, sizes |-> <<x.d, x.g, x.e, x.n>>]
    IN
    \* The last card of the deck, then the one before, ... are added to the hand.
    /\ Fine(draw)
    /\ After(draw) = [b EXCEPT ![<<0, 1>>] = SubSeq(D, 1, x.d - x.n),
                               ![<<0, 2>>] = H \o Unrev(SubSeq(D, x.d - x.n + 1, x.d))]
    \* The piles trade places; marked cards go to the extra deck instead.
    /\ Fine(swp)
    /\ After(swp) = [b EXCEPT ![<<0, 16>>] = D,
                              ![<<0, 1>>] = Picked(G, x.bits, 0),
                              ![<<0, 64>>] = SubSeq(X, 1, x.ins) \o Picked(G, x.bits, 1) \o SubSeq(X, x.ins + 1, x.e)]
    /\ Fine(rev)
    /\ After(rev) = [b EXCEPT ![<<0, 1>>] = Unrev(D), ![<<1, 1>>] = Unrev(@)]
    \* The n-th card from the top is the one named.
    /\ x.n < x.d => LET p == Tr([k |-> "DECK_TOP", con |-> 0, v |-> x.n, code |-> 0, x |-> 0], C0).msg.event.meta.update.places[1]
                    IN p = <<0, 1, x.d - 1 - x.n, NoO>>
    /\ Fine(tag)
    /\ LET a == After(tag) IN Len(a[<<0, 1>>]) = x.g /\ Len(a[<<0, 64>>]) = x.d /\ Len(a[<<0, 2>>]) = x.n
                              /\ a[<<0, 16>>] = G /\ a[<<1, 1>>] = b[<<1, 1>>]
    /\ Fine(start)
    /\ LET a == After(start) IN [k \in DOMAIN a |-> Len(a[k])] =
            [k \in DOMAIN a |-> CASE k = <<0, 1>> -> x.d [] k = <<0, 64>> -> x.g [] k = <<1, 1>> -> x.e
                                  [] k = <<1, 64>> -> x.n [] OTHER -> 0]

-----------------------------------------------------------------------------
Cases == CASE Part = "delimited" -> DelimitedCases(0)
           [] Part = "zones" -> ZoneCases(0)
           [] Part = "places" -> PlaceCases
           [] Part = "query" -> 1..Size
           [] Part = "faithful" -> FaithCases(0)
           [] Part = "piles" -> PileCases(0)
Law == CASE Part = "delimited" -> Delimited
         [] Part = "zones" -> ZonesLaw
         [] Part = "places" -> PlacesLaw
         [] Part = "query" -> QueryLaw
         [] Part = "faithful" -> Faithful
         [] Part = "piles" -> PilesLaw
Init == x \in Cases
Spec == Init /\ [][FALSE]_x
=============================================================================
