------------------------------ MODULE DuelGen -------------------------------
(* Random duels at full size: one action of the engine after the other, each *)
(* with the messages it sends (sometimes interspersed with messages that     *)
(* tell nothing about the board), and the field it leads to.                 *)
EXTENDS Duel, Json
CONSTANTS Weights,     \* kinds of actions to choose from
          Check,       \* whether the client is played along (slower)
          BigPct,      \* how often decks have hundreds of cards
          WalkPct      \* how often the client looks back after an action
VARIABLES n, e, D, act

W_duel == <<"move", "move", "move", "move", "play", "play", "play", "attach", "attach", "leave", "leave", "leave", "xyz", "xyz", "xyz",
            "detach", "detach", "draw", "lp", "turn", "phase", "push", "pop", "block", "tell", "token", "swap", "deal", "gravedeck",
            "reverse", "tag", "reload", "again", "vanish", "shift", "other", "mill", "mill">>
W_know == <<"told", "told", "told", "told", "told1", "told1", "told1", "move", "move", "play", "attach", "leave", "xyz", "detach", "draw", "swap", "deal",
            "gravedeck", "reverse", "tag", "reload", "again", "vanish", "token", "mill", "shift", "other">>
W_back == W_duel
W_large == <<"reload", "reload", "reload", "again", "draw", "mill", "move", "play", "gravedeck", "reverse", "tag", "attach", "leave">>

Pile(x) == ROf(<<<<0, 16>>, <<0, 16>>, <<0, 32>>, <<0, 2>>, <<0, 1>>, <<0, 64>>, <<1, 16>>, <<1, 16>>, <<1, 32>>, <<1, 2>>, <<1, 1>>, <<1, 64>>>>)
AnyAt(f, k) == LET l == Len(f.p[k]) IN ToPile(k, ROf(<<0, l, l, RandomElement(0..l), IF l > 0 THEN l - 1 ELSE 0>>))
EndOf(f, k) == ToPile(k, Len(f.p[k]))
FullPiles(f) == {k \in EPiles : f.p[k] # <<>>}
RCard(f) == LET s == f.p[RandomElement(FullPiles(f))] IN ROf(<<s[1], s[Len(s)], s[RandomElement(1..Len(s))]>>)
\* Few zones are in use, so that cards meet.
RFree(f) == LET near == {k \in Free(f) : k[3] <= 2 \/ k[3] \in {5, 6}} IN RandomElement(IF near # {} /\ RPct(80) THEN near ELSE Free(f))
\* Piles holding cards with materials (in the middle of leaving).
Waiting(f) == {k \in EPiles : ToSet(f.p[k]) \cap Holders(f) # {}}
\* Where a material goes: never below a card that keeps its place in mind.
MatTo(f, id) == LET fh == OnField(f)
                    k == Pile(0)
                IN IF fh # {} /\ RPct(20) THEN Under(RandomElement(fh))
                   ELSE IF k \in Waiting(f) \/ RPct(60) THEN EndOf(f, k) ELSE AnyAt(f, k)
MaxBy(S, F(_)) == CHOOSE x \in S : \A y \in S : F(y) <= F(x)
RECURSIVE Strip(_)
Strip(r) == LET hs == Holders(r.e) \ OnField(r.e) IN
            IF hs = {} THEN r
            ELSE LET h == RandomElement(hs)  id == ROf(r.e.m[h]) IN Strip(Mv(r, id, MatTo(r.e, id)))
RECURSIVE Leaves(_, _)
Leaves(r, hs) == IF hs = {} THEN r
                 ELSE LET h == RandomElement(hs)  k == ROf(<<<<0, 64>>, <<1, 64>>, <<0, 16>>, <<1, 16>>, <<0, 32>>, <<0, 2>>, <<1, 1>>>>)
                      IN Leaves(Mv(r, h, EndOf(r.e, k)), hs \ {h})
\* Materials are gathered from anywhere, one kind after the other.
RECURSIVE Gather(_, _, _, _)
Gather(f, h, got, left) ==
    IF left = 0 THEN got
    ELSE LET used == {h} \cup ToSet(got) \cup UNION {ToSet(Mats(f, g)) : g \in ToSet(got)}
             field == OnField(f) \ used
             under == {id \in AsMats(f) : id \notin used /\ \A g \in ToSet(got) : id \notin ToSet(Mats(f, g))}
             piles == InPiles(f) \ used
             S == IF field # {} /\ RPct(65) THEN field ELSE IF under # {} /\ RPct(50) THEN under
                  ELSE IF piles # {} THEN piles ELSE field
         IN IF S = {} THEN got
            ELSE LET id == RandomElement(S)
                     \* (a holder whose material was already chosen is left alone)
                     bad == ToSet(Mats(f, id)) \cap ToSet(got) # {}
                 IN Gather(f, h, IF bad THEN got ELSE Append(got, id), left - 1)
XyzRun(f) ==
    LET h == LET x == {k \in {<<0, 64>>, <<1, 64>>} : f.p[k] # <<>>}
             IN IF x # {} /\ RPct(70) THEN ROf(f.p[RandomElement(x)]) ELSE RCard(f)
        ids == Gather(f, h, <<>>, IF RPct(15) THEN RandomElement(5..12) ELSE RandomElement(1..4))
        mid == {k \in EZones : f.z[k] \in ToSet(ids)} \ {}
        free == Free(f) \cup {k \in EZones : f.z[k] # 0 /\ f.z[k] \in ToSet(ids)}
    IN A_Xyz(f, h, ids, IF mid # {} /\ RPct(60) THEN RandomElement({k \in free : f.z[k] # 0 /\ f.z[k] \in ToSet(ids)}) ELSE RandomElement(free))

RowsOf(f) == {cl \in {0, 1} \X {4, 8} : \E s \in 0..4 : f.z[<<cl[1], cl[2], s>>] # 0}
RECURSIVE Shuffled(_)
Shuffled(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Shuffled(S \ {x})
LinkOf(f) == [code |-> R32(0), card |-> RInfo(0), at |-> RAt4(0), eff |-> REff(0)]
Lps == {0, 1, 100, 500, 1000, 4000, 7999, 8000, 8001, 12345}

\* A duel starts, perhaps after another one.
RDeck(x) == IF RPct(BigPct) THEN RandomElement({127, 128, 255, 256, 257, RandomElement(120..300)}) ELSE RandomElement(0..40)
StartRun(f) == A_Start(f, <<RandomElement(Lps), RandomElement(Lps)>>,
                       <<RDeck(0), RandomElement(0..15), RDeck(1), RandomElement(0..15)>>)
\* Cards whose place can be named in bytes.
Tellable(f) == OnField(f) \cup UNION {ToSet(SubSeq(f.p[k], 1, IF Len(f.p[k]) < 256 THEN Len(f.p[k]) ELSE 256)) : k \in EPiles}
RTold(x) == SelectSeq(RItems(0), LAMBDA i : i.q # "overlays")
RCodes(S) == IF RPct(25) THEN Nothing ELSE TLCEval([i \in S |-> R32(0)])
TellAll(f) == LET con == RCon(0)  loc == RandomElement({4, 8, 1, 2, 16, 32, 64})
                  l == IF RPct(40) THEN 4 ELSE loc
              IN A_TellItems(f, con, l, TLCEval([i \in LocCards(f, con, l) |-> RTold(i)]), RCodes(LocMats(f, con, l)))
TellSome(f) == LET S == IF FieldHolders(f) # {} /\ RPct(40) THEN FieldHolders(f) ELSE IF OnField(f) # {} /\ RPct(60) THEN OnField(f) ELSE Tellable(f)
                   id == RandomElement(S)
               IN A_TellOne(f, id, RTold(0), RCodes(ToSet(Mats(f, id))))
Can(f, k) ==
    CASE k \in {"move", "play", "mill", "xyz"} -> FullPiles(f) # {}
      [] k = "attach" -> OnField(f) # {} /\ FullPiles(f) # {}
      [] k \in {"shift", "vanish"} -> OnField(f) # {}
      [] k \in {"leave", "detach"} -> FieldHolders(f) # {}
      [] k = "swap" -> Cardinality(OnField(f)) > 1
      [] k = "deal" -> RowsOf(f) # {}
      [] k = "pop" -> f.chain # <<>>
      [] k = "told1" -> Tellable(f) # {}
      [] k \in {"reload", "again"} -> RPct(30) \/ Len(f.p[<<0, 1>>]) > 200
      [] k = "tag" -> RPct(40)
      [] OTHER -> TRUE
Play(f, k) ==
    CASE k = "move" -> LET id == IF RPct(50) /\ OnField(f) # {} THEN RandomElement(OnField(f)) ELSE RCard(f)
                       IN IF Bare(f, id) THEN A_Move(f, id, AnyAt(Lift(f, id), Pile(0))) ELSE Strip(Leaves(Run(f), {id}))
      [] k = "mill" -> LET a == RCard(f) IN A_Move(f, a, AnyAt(Lift(f, a), Pile(0)))
      [] k = "play" -> A_Move(f, RCard(f), ToZone(RFree(f)))
      [] k = "shift" -> A_Move(f, RandomElement(OnField(f)), ToZone(RFree(f)))
      [] k = "attach" -> LET h == IF FieldHolders(f) # {} /\ RPct(60) THEN MaxBy(FieldHolders(f), LAMBDA x : Len(f.m[x])) ELSE RandomElement(OnField(f))
                             S == {x \in OnField(f) \cup AsMats(f) : Bare(f, x)} \ {h}
                         IN A_Move(f, IF S # {} /\ RPct(40) THEN RandomElement(S)
                                      ELSE RCard(f), Under(h))
      [] k = "detach" -> LET id == ROf(f.m[RandomElement(FieldHolders(f))])
                         IN IF RPct(20) THEN A_Move(f, id, ToZone(RFree(f))) ELSE A_Move(f, id, MatTo(f, id))
      [] k = "leave" -> LET fh == FieldHolders(f)
                        IN Strip(Leaves(Run(f), RandomSubset(IF RPct(60) \/ Cardinality(fh) = 1 THEN 1 ELSE RandomElement(2..Cardinality(fh)), fh)))
      [] k = "xyz" -> XyzRun(f)
      [] k = "vanish" -> LET S == {x \in OnField(f) \cup AsMats(f) : Bare(f, x)} IN A_Move(f, RandomElement(S), Gone)
      [] k = "token" -> A_Token(f, RFree(f))
      [] k = "swap" -> LET a == RandomElement({z \in EZones : f.z[z] # 0})
                       IN A_Swap(f, a, RandomElement({z \in EZones : f.z[z] # 0} \ {a}))
      [] k = "deal" -> LET cl == RandomElement(RowsOf(f))
                           S == {z \in EZones : z[1] = cl[1] /\ z[2] = cl[2] /\ z[3] <= 4 /\ f.z[z] # 0}
                           T == RandomSubset(RandomElement(1..Cardinality(S)), S)
                       IN A_Deal(f, Shuffled(T), Shuffled(T))
      [] k = "draw" -> LET con == RCon(0)  l == Len(f.p[<<con, 1>>]) IN A_Draw(f, con, ROf(<<0, IF l > 0 THEN 1 ELSE 0, IF l < 5 THEN l ELSE 5, RandomElement(0..l), IF l > 0 THEN 1 ELSE 0>>))
      [] k = "gravedeck" -> LET con == RCon(0)  g == ToSet(f.p[<<con, 16>>])
                            IN A_GraveDeck(f, con, RandomSubset(RandomElement(0..Cardinality(g)), g), RandomElement(0..Len(f.p[<<con, 64>>])))
      [] k = "reverse" -> A_Reverse(f)
      [] k = "tag" -> A_TagSwap(f, RCon(0), RandomElement(0..20), RandomElement(0..8), RandomElement(0..6))
      [] k = "reload" -> A_Reload(f)
      [] k = "again" -> StartRun(f)
      [] k = "lp" -> A_Lp(f, ROf(<<"DAMAGE", "RECOVER", "LPUPDATE", "PAY_LPCOST", "DAMAGE">>), RCon(0), RandomElement(Lps))
      [] k = "turn" -> A_Turn(f, RCon(0))
      [] k = "phase" -> A_Phase(f, RandomElement({0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512}))
      [] k = "push" -> A_Push(f, LinkOf(f))
      [] k = "pop" -> A_Pop(f)
      [] k = "block" -> A_Block(f, RMask(0))
      [] k = "told" -> TellAll(f)
      [] k = "told1" -> TellSome(f)
      [] k = "tell" -> A_Tell(f, RCon(0), RandomElement({1, 2, 4, 8, 16, 32, 64}))
      [] OTHER -> LET kk == RandomElement(NoEffect) IN A_Other(f, Gen(kk, EmptyC))
Noise(out) == FlattenSeq(Map(out, LAMBDA s : IF RPct(12) THEN <<Gen(RandomElement(NoEffect), EmptyC), s.m>> ELSE <<s.m>>))

\* What there is to see.
KnowOf(f) == LET d == B!Dump(FieldBoard(f))
             IN FlattenSeq(Map(d, LAMBDA x : IF x[5] \in DOMAIN f.know THEN <<<<x[1], x[2], x[3], x[4], f.know[x[5]]>>>> ELSE <<>>))
See(f) == [b |-> B!Dump(FieldBoard(f)), turn |-> f.turn, tc |-> f.tc, lp |-> f.lp, phase |-> f.phase,
           chain |-> Map(f.chain, ChainMsg), blocked |-> Unpack(f.mask, 0), know |-> KnowOf(f),
           sizes |-> [i \in 1..10 |-> Len(f.p[<<(i - 1) \div 5, <<1, 2, 16, 32, 64>>[((i - 1) % 5) + 1]>>])],
           mats |-> LET fb == FieldBoard(f) IN SelectSeq(B!ZoneKeySeq, LAMBDA k : fb.z[k].m # <<>>)]

Init == n = 0 /\ e = EmptyField /\ D = EmptyClient /\ act = ""
\* Where it goes to: so many events before the latest.
Walk(x) == IF RPct(WalkPct) THEN [i \in 1..RandomElement(1..6) |-> ROf(<<0, 1, 2, RandomElement(0..6), RandomElement(0..30), RandomElement(0..300)>>)]
           ELSE <<>>
Out(k, r, ms) == PrintT(ToJson([walk |-> TLCEval(Walk(0)), n |-> n', k |-> k, msgs |-> Map(ms, Wire), kinds |-> Map(ms, LAMBDA m : m.k), post |-> See(r.e)]))
DoIt(k, r) == \E ms \in {Noise(r.out)} :
                 /\ e' = r.e
                 /\ D' = IF Check THEN ReceiveAll(D, r.out) ELSE D
                 /\ (Check => Assert(AllSensible(D, r.out), <<"not sensible", k, r.out>>))
                 /\ (Check => Assert(Follows(D', e'), <<"does not follow", k, Map(r.out, LAMBDA s : s.m)>>))
                 /\ Out(k, r, ms)
Start == /\ n = 0 /\ n' = 1 /\ act' = ""
         /\ \E r \in {StartRun(e)} : DoIt("start", r)
Choose == /\ n > 0 /\ act = "" /\ UNCHANGED <<n, e, D>>
          /\ \E k \in {ROf(Weights)} : act' = IF Can(e, k) THEN k ELSE "lp"
Step == /\ act # "" /\ act' = "" /\ n' = n + 1
        /\ \E r \in {Play(e, act)} : DoIt(act, r)
Next == Start \/ Choose \/ Step
=============================================================================
