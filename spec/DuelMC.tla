------------------------------- MODULE DuelMC -------------------------------
(* Every action from every small settled field: wherever the client follows  *)
(* the engine before it, it does after it.  Since every duel is a sequence   *)
(* of such actions, this is the inductive step for duels of any length (at   *)
(* these sizes).  What the context remembers from earlier is arbitrary: it   *)
(* starts out with places nothing ever left from.                            *)
EXTENDS Duel
CONSTANTS MaxPile,   \* cards per pile, at most
          MaxMats,   \* materials per stack, at most
          MaxCards,  \* cards in all, at most
          Kinds      \* the kinds of actions looked at
VARIABLES e, D, ok

MPiles == <<<<0, 64>>, <<0, 16>>, <<1, 1>>>>
MZones == <<<<0, 4, 0>>, <<0, 4, 1>>, <<0, 8, 6>>>>
MPSet == ToSet(MPiles)
MZSet == ToSet(MZones)

\* Fields by their shape, cards numbered in order.
Shapes == {<<ps, zs>> \in [1..3 -> 0..MaxPile] \X [1..3 -> 0..(MaxMats + 1)] :
             LET n == ps[1] + ps[2] + ps[3] + zs[1] + zs[2] + zs[3] IN n > 0 /\ n <= MaxCards}
Build(sh) ==
    LET ps == sh[1]  zs == sh[2]
        pn(i) == IF i = 1 THEN 0 ELSE IF i = 2 THEN ps[1] ELSE IF i = 3 THEN ps[1] + ps[2] ELSE ps[1] + ps[2] + ps[3]
        zn(i) == pn(4) + (IF i = 1 THEN 0 ELSE IF i = 2 THEN zs[1] ELSE IF i = 3 THEN zs[1] + zs[2] ELSE zs[1] + zs[2] + zs[3])
        hs == {i \in 1..3 : zs[i] > 0}
    IN [EmptyField EXCEPT
          !.p = [k \in EPiles |-> IF k \in MPSet THEN LET i == IndexOf(MPiles, k) + 1 IN [j \in 1..ps[i] |-> pn(i) + j] ELSE <<>>],
          !.z = [k \in EZones |-> IF k \in MZSet THEN LET i == IndexOf(MZones, k) + 1 IN IF zs[i] > 0 THEN zn(i) + 1 ELSE 0 ELSE 0],
          !.m = [h \in {zn(i) + 1 : i \in hs} |-> LET i == CHOOSE i \in hs : zn(i) + 1 = h IN [j \in 1..(zs[i] - 1) |-> zn(i) + 1 + j]],
          !.lp = <<8, 8>>, !.nid = zn(4) + 1, !.know = [i \in {j \in 1..zn(4) : j % 2 = 1} |-> [_ |-> 0, atk |-> [value |-> 10 + i]]]]
Stale == [p \in {<<k[1], k[2], i, NoO>> : k \in EPiles, i \in 0..9} |-> <<1, 4, 6, NoO>>]
ClientOf(x) == [EmptyClient EXCEPT !.B.f = FieldBoard(x), !.B.lp = x.lp, !.B.nid = x.nid, !.know = x.know, !.c.left = Stale]

-----------------------------------------------------------------------------
Cards(x) == Live(x)
PileDests(x) == UNION {{ToPile(k, i) : i \in 0..Len(x.p[k])} : k \in MPSet}
Ends(x) == {ToPile(k, Len(x.p[k])) : k \in MPSet}
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : f[i] = f[j] => i = j}
\* All lists of distinct elements, at most n.
Lists(S, n) == UNION {Perms(T) : T \in {U \in SUBSET S : Cardinality(U) <= n}}
FreeZ(x) == {k \in MZSet : x.z[k] = 0}
\* A card taken out: the pile dests count without it.
Dests(x, id) == LET y == Lift(x, id) IN
    (IF id \in OnField(x) /\ ~Bare(x, id) THEN {} ELSE PileDests(y)) \cup {ToZone(k) : k \in FreeZ(x)}
    \cup (IF Bare(x, id) THEN {Under(h) : h \in (OnField(x) \cap {x.z[k] : k \in MZSet}) \ {id}} ELSE {})
A1(x) == {A_Move(x, id, to) : <<id, to>> \in UNION {{id} \X Dests(x, id) : id \in Cards(x)}}
         \cup {A_Move(x, id, Gone) : id \in {i \in Cards(x) : Bare(x, i)}}
         \cup {A_Token(x, k) : k \in FreeZ(x)}
\* One or two holders leave; their materials go to the ends of piles or under
\* a holder still there, in any order.
AfterSets(x, hs) ==
    LET ms == UNION {ToSet(Mats(x, h)) : h \in hs}
        rest == OnField(x) \ hs
        dest == MPSet \cup {<<h>> : h \in rest}
    IN {<<o, d>> \in Perms(ms) \X [ms -> dest] : TRUE}
LeaveRun(x, hs, piles, o, d) ==
    LET step(r, h) == Mv(r, h, ToPile(piles[h], Len(r.e.p[piles[h]])))
        go(r, id) == Mv(r, id, IF Len(d[id]) = 1 THEN Under(d[id][1]) ELSE ToPile(d[id], Len(r.e.p[d[id]])))
    IN FoldLeft(go, FoldLeft(step, Run(x), hs), o)
A2(x) == UNION {LET S == ToSet(hs) IN
            UNION {{LeaveRun(x, hs, piles, a[1], a[2]) : a \in AfterSets(x, S)} :
                     piles \in [S -> {<<0, 64>>, <<0, 16>>}]} :
              hs \in Lists(FieldHolders(x), 2) \ {<<>>}}
\* A card of a pile arrives with materials from anywhere.
Ms(x, h) == LET own == {hh \in OnField(x) : ~Bare(x, hh)}
                all == Cards(x) \ {h}
            IN {ids \in Lists(all, 2) : \A i, j \in 1..Len(ids) : ~(ids[i] \in own /\ ids[j] \in ToSet(Mats(x, ids[i])))}
ZAfter(x, ids) == {k \in MZSet : x.z[k] = 0 \/ x.z[k] \in ToSet(ids)}
A3(x) == UNION {UNION {{A_Xyz(x, h, ids, k) : k \in ZAfter(x, ids)} : ids \in Ms(x, h) \ {<<>>}} :
                  h \in UNION {ToSet(x.p[k]) : k \in MPSet}}
A4(x) == LET occ == {k \in MZSet : x.z[k] # 0}
             row == {k \in occ : k[2] = 4}
         IN {A_Swap(x, a, b) : <<a, b>> \in {ab \in occ \X occ : ab[1] # ab[2]}}
            \cup {A_Deal(x, ks, to) : <<ks, to>> \in UNION {Perms(S) \X Perms(S) : S \in (SUBSET row) \ {{}}}}
A5(x) == {A_Draw(x, 1, n) : n \in 0..Len(x.p[<<1, 1>>])} \cup {A_Reverse(x), A_Reload(x)}
         \cup UNION {{A_GraveDeck(x, 0, out, at) : out \in SUBSET ToSet(x.p[<<0, 16>>])} : at \in 0..Len(x.p[<<0, 64>>])}
         \cup {A_TagSwap(x, 1, a, b, c) : a \in 0..2, b \in {0, 1}, c \in {0, 1}}
         \cup {A_Start(x, <<8, 8>>, <<a, b, 1, 0>>) : a \in 0..1, b \in 0..1}
         \cup {A_Lp(x, k, con, v) : k \in {"LPUPDATE", "DAMAGE", "RECOVER", "PAY_LPCOST"}, con \in {0, 1}, v \in {0, 3, 8, 9}}
         \cup {A_Tell(x, con, loc) : con \in {0, 1}, loc \in {1, 4, 8, 64}}
         \cup {A_TellOne(x, id, <<[q |-> "atk", v |-> 7], [q |-> "level", v |-> 0]>>, [m \in ToSet(Mats(x, id)) |-> 9]) : id \in Cards(x) \ AsMats(x)}
         \cup {A_Turn(x, con) : con \in {0, 1}} \cup {A_Phase(x, 8)} \cup {A_Block(x, mm) : mm \in {{}, 0..31, {0, 17}}}
Actions(x) == (IF "move" \in Kinds THEN A1(x) ELSE {}) \cup (IF "leave" \in Kinds THEN A2(x) ELSE {})
              \cup (IF "xyz" \in Kinds THEN A3(x) ELSE {}) \cup (IF "zones" \in Kinds THEN A4(x) ELSE {})
              \cup (IF "other" \in Kinds THEN A5(x) ELSE {})

Init == \E sh \in Shapes : e = Build(sh) /\ D = ClientOf(e) /\ ok = "before"
Next == /\ ok = "before"
        /\ \E r \in Actions(e) :
             /\ Settled(r.e)
             /\ e' = r.e
             /\ IF AllSensible(D, r.out) THEN ok' = "after" /\ D' = ReceiveAll(D, r.out)
                ELSE ok' = ToString([i \in 1..Len(r.out) |-> r.out[i].m]) /\ D' = D
Spec == Init /\ [][Next]_<<e, D, ok>>
Law == ok \in {"before", "after"} /\ Follows(D, e)
=============================================================================
