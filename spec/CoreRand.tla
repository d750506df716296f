------------------------------ MODULE CoreRand ------------------------------
(* Random messages of the engine, for a given context c.                     *)
EXTENDS Core, Rand

\* Any position; any: also nowhere.  Wide sequences outside the field.
RSeqNo(loc, max) ==
    IF loc = 4 THEN RandomElement(0..6)
    ELSE IF loc = SPELL THEN RandomElement(0..7)
    ELSE IF max < 256 \/ RPct(60) THEN RandomElement(0..(IF max < 60 THEN max ELSE 60))
    ELSE IF max < 65536 THEN RandomElement(0..max) ELSE R32(0)
RLoc(x) == RandomElement({1, 2, 4, SPELL, 16, 32, 64, 4, SPELL})
RField(x) == RandomElement({4, 4, 8})
RCon(x) == RandomElement({0, 1})
\* Positions in one of the short forms (at most max as a sequence).
\* They do not say which material.
RAt(max) == LET r == RandomElement(1..100)
                l == IF r <= 5 THEN 0 ELSE IF r <= 60 THEN RandomElement({4, SPELL}) ELSE RLoc(0)
            IN [con |-> RCon(0), loc |-> l, seq |-> IF max = 255 /\ l \notin {4, SPELL} /\ RPct(40) THEN RByte(0) ELSE RSeqNo(l, max),
                ov |-> RPct(IF l = 0 THEN 40 ELSE 8), pos |-> NoO]
RAt4(x) == RAt(IntMax)
RAt1(x) == RAt(255)
\* Full positions, some of materials.
RInfo(x) == LET a == RAt(IntMax)  o == (a.loc = 0) \/ RPct(30)
            IN [a EXCEPT !.ov = o, !.pos = IF o THEN RandomElement({0, 0, 1, 2, 3, 4, 7, 255, 256, IntMax})
                                          ELSE RandomElement({1, 2, 4, 5, 8, 10, 0})]
Nowhere(x) == [con |-> RCon(0), loc |-> 0, seq |-> RandomElement({0, 1}), ov |-> FALSE, pos |-> 0]
RInfoOrNone(x) == IF RPct(15) THEN Nowhere(0) ELSE RInfo(0)
REff(x) == [code |-> IF RPct(25) THEN 0 ELSE R32(0), index |-> RandomElement({0, 1, 15, 65536, 1048575, RandomElement(0..1048575)})]
RCode(x) == R32(0)
RMask(x) == LET r == RandomElement(1..10) IN
            IF r = 1 THEN {} ELSE IF r = 2 THEN 0..31
            ELSE IF r = 3 THEN (0..31) \ {RandomElement(0..31)}
            ELSE IF r = 4 THEN {RandomElement(0..31)}
            ELSE RandomSubset(RandomElement(1..31), 0..31)

RCard4(x) == [code |-> RCode(0), at |-> RAt4(0)]
RCard1(x) == [code |-> RCode(0), at |-> RAt1(0)]
RCardInfo(x) == [code |-> RCode(0), at |-> RInfoOrNone(0)]
RAct4(x) == [code |-> RCode(0), at |-> RAt4(0), eff |-> REff(0), flag |-> RTruth(0)]
RActInfo(x) == [code |-> RCode(0), at |-> RInfo(0), eff |-> REff(0), flag |-> RTruth(0)]
RAtk(x) == [code |-> RCode(0), at |-> RAt1(0), direct |-> RTruth(0)]
RTrib(x) == [code |-> RCode(0), at |-> RAt4(0), flag |-> RByte(0)]
R64(x) == <<R32(0), R32(0)>>
RChainC(x) == [code |-> RCode(0), card |-> RInfo(0), at |-> RAt4(0), eff |-> REff(0)]

RQuery(q) ==
    CASE q \in QU32 -> [q |-> q, v |-> R32(0)]
      [] q = "owner" -> [q |-> q, v |-> RCon(0)]
      [] q \in {"is_public", "is_hidden"} -> [q |-> q, v |-> RTruth(0)]
      [] q = "race" -> [q |-> q, lo |-> R32(0), hi |-> R32(0)]
      [] q = "equipped_to" -> [q |-> q, v |-> RInfoOrNone(0)]
      [] q = "targets" -> [q |-> q, v |-> IF RPct(2) THEN RListL(40, RInfo) ELSE RList(5, RInfo)]
      [] q = "counters" -> [q |-> q, v |-> RList(IF RPct(5) THEN 80 ELSE 5, LAMBDA x : [type |-> RHalf(0), count |-> RHalf(0)])]
      [] q = "link" -> [q |-> q, v |-> R32(0), arrow |-> R32(0)]
      [] q = "overlays" -> [q |-> q, v |-> IF RPct(2) THEN RListL(90, R32) ELSE RList(5, R32)]
      [] q = "unknown" -> [q |-> q, flag |-> RandomElement({4096, 8192, 67108864, 1073741824, 3, 0}),
                           v |-> RListL(12, RByte)]
QNames == DOMAIN QFlag \cup {"unknown"}
\* Each property at most once, in any order; or anything, repeated.
RItems(x) ==
    LET S == RandomSubset(RandomElement(0..(IF RPct(20) THEN 25 ELSE 6)), QNames)
        q == SetToSeq(S)
        n == Len(q)
    IN IF RPct(75) \/ n = 0 THEN LET o == RandomElement(1..(n + 1))
                      IN TLCEval([i \in 1..n |-> RQuery(q[((i + o) % n) + 1])])
       ELSE TLCEval([i \in 1..(2 * n) |-> RQuery(q[RandomElement(1..n)])])
\* Every property there is, with long lists.
RAllItems(x) == LET q == SetToSeq(QNames) IN
                TLCEval([i \in 1..Len(q) |-> IF q[i] = "overlays" THEN [q |-> q[i], v |-> RSeq(20, R32)]
                                              ELSE IF q[i] = "counters" THEN [q |-> q[i], v |-> RSeq(12, LAMBDA y : [type |-> RHalf(0), count |-> RHalf(0)])]
                                              ELSE RQuery(q[i])])
RSlot(x) == IF RPct(30) THEN [k |-> "gap"] ELSE [k |-> "card", items |-> RItems(0)]
RSlots(x) == IF x = 4 THEN TLCEval([i \in 1..7 |-> RSlot(i)])
             ELSE IF x = SPELL THEN TLCEval([i \in 1..8 |-> RSlot(i)])
             ELSE IF RPct(2) THEN \* a great many full cards
                  LET c == [k |-> "card", items |-> RAllItems(0)] IN
                  TLCEval([i \in 1..RandomElement({60, 130, 260}) |-> c])
             ELSE IF RPct(4) THEN \* a long run of empty slots, now and then broken
                  LET g == RandomElement({126, 127, 128, 254, 255, 256, RandomElement(30..300)})  c == RandomElement({0, 0, 1, 2}) IN
                  TLCEval([i \in 1..(g + 3) |-> IF i <= g /\ ~RPct(c) THEN [k |-> "gap"] ELSE RSlot(i)])
             ELSE LET n == IF RPct(3) THEN RandomElement(60..70) ELSE RandomElement(0..6) IN TLCEval([i \in 1..n |-> RSlot(i)])

RZoneR(x) == IF RPct(60) THEN [has |-> 0, pos |-> 0, mats |-> 0]
             ELSE [has |-> RandomElement({1, 1, 255}), pos |-> 5, mats |-> IF RPct(60) THEN 0 ELSE IF RPct(1) THEN RandomElement({128, 257}) ELSE RandomElement(1..5)]
RSizeC(x) == RandomElement({0, 1, 5, 40, 60, 300, RandomElement(0..60)})
RSide(x) == [lp |-> R32(0), mz |-> TLCEval([i \in 1..7 |-> RZoneR(i)]), sz |-> TLCEval([i \in 1..8 |-> RZoneR(i)]),
             main |-> RSizeC(0), hand |-> RSizeC(0), grave |-> RSizeC(0), banished |-> RSizeC(0),
             extra |-> RSizeC(0), extra_p |-> RSizeC(0)]
RShape(x) == [three |-> RBit(0), pz |-> RBit(0), spz |-> RBit(0), emz |-> RBit(0)]

\* Moves: mostly such that materials play a part.
KeysOf(f) == SetToSeq(DOMAIN f)
RPile(x) == LET l == RandomElement({16, 32, 64, 1, 2, 16}) IN
            [con |-> RCon(0), loc |-> l, seq |-> IF RPct(10) THEN RIdx(300) ELSE RandomElement(0..3), ov |-> FALSE, pos |-> 1]
RMZone(x) == [con |-> RCon(0), loc |-> 4, seq |-> RandomElement(0..6), ov |-> FALSE, pos |-> 1]
RZone(x) == IF RPct(70) THEN RMZone(0) ELSE [con |-> RCon(0), loc |-> SPELL, seq |-> RandomElement(0..7), ov |-> FALSE, pos |-> 1]
RMat(e) == [e EXCEPT !.ov = TRUE, !.pos = RandomElement(0..4)]
RHolder(c) == IF c.mats = {} THEN RZone(0)
              ELSE LET k == RandomElement(c.mats) IN EngPos(<<k[1], k[2], k[3], NoO>>)
RMv(a, b) == [k |-> "MOVE", code |-> RCode(0), at |-> a, to |-> b, reason |-> R32(0)]
RMove(c) ==
    LET r == RandomElement(1..100) IN
    IF r <= 14 THEN RMv(RZone(0), RMat(RPile(0)))                 \* wait for a holder
    ELSE IF r <= 24 THEN RMv(RMat(RHolder(c)), RMat(RPile(0)))
    ELSE IF r <= 28 THEN RMv(RPile(0), RMat(RPile(0)))
    ELSE IF r <= 42 THEN RMv(IF RPct(50) THEN RPile(0) ELSE RZone(0), IF c.def # <<>> /\ RPct(40) /\ c.def[1][2] \notin (EngPileLocs \cup {0}) THEN EngPos([c.def[1] EXCEPT ![4] = NoO]) ELSE RZone(0))
    ELSE IF r <= 60 THEN RMv(RHolder(c), RPile(0))                \* a holder leaves
    ELSE IF r <= 76 THEN
        IF {l \in DOMAIN c.left : c.left[l][4] < 0} = {} THEN RMv(RMat(RHolder(c)), RPile(0))
        ELSE RMv(RMat(EngPos(RandomElement({l \in DOMAIN c.left : c.left[l][4] < 0}))), IF RPct(80) THEN RPile(0) ELSE RMat(RZone(0)))
    ELSE IF r <= 80 THEN RMv(RMat(RZone(0)), RPile(0))
    ELSE IF r <= 83 THEN RMv(RMat(RZone(0)), RMat(RZone(0)))
    ELSE IF r <= 86 THEN RMv(RPile(0), RMat(RZone(0)))
    ELSE IF r <= 89 THEN RMv(Nowhere(0), IF RPct(50) THEN RInfo(0) ELSE RZone(0))
    ELSE IF r <= 92 THEN RMv(IF RPct(40) THEN RInfo(0) ELSE RHolder(c), Nowhere(0))
    ELSE IF r <= 93 THEN RMv(Nowhere(0), Nowhere(0))
    ELSE IF r <= 97 THEN RMv(RPile(0), RPile(0))
    ELSE RMv(RZone(0), RPile(0))

RCountC(c, con) == LET n == c.sizes[<<con, 1>>] IN ROf(<<0, 1, n, RandomElement(0..n), RandomElement(0..n)>>)

Gen(k, c) ==
    CASE k \in {"RETRY", "SUMMONED", "SPSUMMONED", "FLIPSUMMONED", "CHAIN_END", "ATTACK_DISABLED",
                "DAMAGE_STEP_START", "DAMAGE_STEP_END", "REVERSE_DECK"} -> [k |-> k]
      [] k \in {"CONFIRM_DECKTOP", "CONFIRM_EXTRATOP", "CONFIRM_CARDS"} -> [k |-> k, con |-> RCon(0), cards |-> RListL(20, RCard4)]
      [] k \in {"SHUFFLE_DECK", "NEW_TURN", "ROCK_PAPER_SCISSORS"} -> [k |-> k, con |-> RCon(0)]
      [] k \in {"SHUFFLE_HAND", "SHUFFLE_EXTRA"} -> [k |-> k, con |-> RCon(0), codes |-> RListL(20, R32)]
      [] k = "SHUFFLE_SET_CARD" ->
            LET n == RandomElement(0..7) IN
            [k |-> k, loc |-> RField(0), prev |-> TLCEval([i \in 1..n |-> RInfo(i)]), cur |-> TLCEval([i \in 1..n |-> RInfoOrNone(i)])]
      [] k = "NEW_PHASE" -> [k |-> k, v |-> RandomElement({0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512})]
      [] k = "POS_CHANGE" -> [k |-> k, code |-> RCode(0), at |-> RAt1(0), x |-> RByte(0), y |-> RByte(1)]
      [] k = "SET" -> [k |-> k, code |-> RCode(0), at |-> RAt4(0), x |-> R32(0)]
      [] k = "SWAP" -> [k |-> k, code |-> RCode(0), at |-> RInfo(0), x |-> RCode(1), to |-> RInfo(1)]
      [] k = "FIELD_DISABLED" -> [k |-> k, mask |-> RMask(0)]
      [] k \in {"SUMMONING", "SPSUMMONING", "FLIPSUMMONING"} -> [k |-> k, code |-> RCode(0), at |-> RInfo(0)]
      [] k = "CHAINING" -> [k |-> k, x |-> R32(0)] @@ RChainC(0)
      [] k \in {"CHAINED", "CHAIN_SOLVING", "CHAIN_NEGATED", "CHAIN_DISABLED", "CHAIN_SOLVED", "HAND_RES"} -> [k |-> k, x |-> RByte(0)]
      [] k \in {"DAMAGE", "RECOVER", "LPUPDATE", "PAY_LPCOST"} -> [k |-> k, con |-> RCon(0), v |-> R32(0)]
      [] k \in {"RANDOM_SELECTED", "CARD_SELECTED", "BECOME_TARGET"} -> [k |-> k, con |-> RCon(0), ats |-> RListL(10, RInfo)]
      [] k \in {"CARD_TARGET", "CANCEL_TARGET", "EQUIP"} -> [k |-> k, at |-> RInfo(0), to |-> RInfo(1)]
      [] k = "ATTACK" -> [k |-> k, at |-> RInfo(0), to |-> IF RPct(40) THEN Nowhere(0) ELSE RInfo(1)]
      [] k \in {"ADD_COUNTER", "REMOVE_COUNTER"} -> [k |-> k, x |-> RHalf(0), at |-> RAt1(0), y |-> RHalf(1)]
      [] k = "TOSS_COIN" -> [k |-> k, con |-> RCon(0), vals |-> RListB(30, RTruth)]
      [] k = "TOSS_DICE" -> [k |-> k, con |-> RCon(0), vals |-> RListB(30, RByte)]
      [] k = "START" -> [k |-> k, x |-> RByte(0), lps |-> <<R32(0), R32(1)>>,
                         sizes |-> <<RHalf(0), RHalf(1), RHalf(2), RHalf(3)>>]
      [] k = "TAG_SWAP" -> [k |-> k, con |-> RCon(0), main |-> R32(0), extra |-> IF RPct(10) THEN RandomElement(200..300) ELSE RandomElement({0, 1, 15, RandomElement(0..20)}),
                            extra_p |-> R32(1), hand |-> RandomElement({0, 1, 5, RandomElement(0..10)}), top |-> R32(2),
                            code |-> RandomElement(0..100000)]
      [] k = "RELOAD_FIELD" -> [k |-> k, flags |-> RandomSubset(RandomElement(0..20), (0..31) \ {11, 12, 13, 22}),
                                shape |-> RShape(0), sides |-> <<RSide(0), RSide(1)>>, chains |-> RListL(4, RChainC)]
      [] k = "PLAYER_HINT" -> [k |-> k, con |-> RCon(0), x |-> RandomElement({1, 2}), eff |-> REff(0)]
      [] k = "UPDATE_DATA" -> LET l == RLoc(0) IN [k |-> k, con |-> RCon(0), loc |-> l, slots |-> RSlots(l)]
      [] k = "UPDATE_CARD" -> [k |-> k, at |-> RAt1(0), items |-> RItems(0)]
      [] k = "ANNOUNCE_ATTRIB" -> [k |-> k, con |-> RCon(0), count |-> RByte(0), v |-> R32(0)]
      [] k = "ANNOUNCE_RACE" -> [k |-> k, con |-> RCon(0), count |-> RByte(0), lo |-> R32(0), hi |-> R32(1)]
      [] k = "ANNOUNCE_NUMBER" -> [k |-> k, con |-> RCon(0), nums |-> RListB(30, R64)]
      [] k = "SELECT_CARD" ->
            [k |-> k, con |-> RCon(0), cancel |-> RTruth(0), min |-> R32(0), max |-> R32(1),
             cards |-> LET n == IF RPct(3) THEN 257 ELSE RandomElement({1, 2, 3, RandomElement(1..20)})
                           limbo == RPct(35)
                       IN TLCEval([i \in 1..n |-> IF limbo THEN [code |-> RCode(i), at |-> [Nowhere(i) EXCEPT !.seq = 0]]
                                          ELSE IF i = 1 THEN [code |-> RCode(i), at |-> RInfo(i)] ELSE RCardInfo(i)])]
      [] k = "SELECT_UNSELECT_CARD" ->
            [k |-> k, con |-> RCon(0), finish |-> RTruth(0), accept |-> RTruth(1), min |-> R32(0), max |-> R32(1),
             cards |-> RListL(12, RCardInfo), cards2 |-> RListL(12, RCardInfo)]
      [] k = "SELECT_TRIBUTE" ->
            [k |-> k, con |-> RCon(0), cancel |-> RTruth(0), min |-> R32(0), max |-> R32(1), cards |-> RListL(12, RTrib)]
      [] k = "SELECT_OPTION" -> [k |-> k, con |-> RCon(0), effs |-> RListB(20, REff)]
      [] k = "SELECT_BATTLECMD" ->
            [k |-> k, con |-> RCon(0), act |-> RListL(8, RAct4), atk |-> RListL(8, RAtk), p1 |-> RTruth(0), p2 |-> RTruth(1)]
      [] k = "SELECT_IDLECMD" ->
            [k |-> k, con |-> RCon(0), sum |-> RListL(6, RCard4), sps |-> RListL(6, RCard4), rep |-> RListL(6, RCard1),
             mset |-> RListL(6, RCard4), sset |-> RListL(6, RCard4), act |-> RListL(6, RAct4),
             p1 |-> RTruth(0), p2 |-> RTruth(1), shuffle |-> RTruth(2)]
      [] k = "SELECT_POSITION" -> [k |-> k, con |-> RCon(0), code |-> RCode(0), v |-> RByte(0)]
      [] k = "SELECT_CHAIN" -> [k |-> k, con |-> RCon(0), x |-> RByte(0), forced |-> RTruth(0), h1 |-> R32(0), h2 |-> R32(1),
                                act |-> RListL(8, RActInfo)]
      [] k = "SELECT_EFFECTYN" -> [k |-> k, con |-> RCon(0), code |-> RCode(0), at |-> RInfoOrNone(0), eff |-> REff(0)]
      [] k = "SELECT_YESNO" -> [k |-> k, con |-> RCon(0), eff |-> REff(0)]
      [] k \in {"SELECT_PLACE", "SELECT_DISFIELD"} -> [k |-> k, con |-> RCon(0), count |-> RByte(0), mask |-> RMask(0)]
      [] k \in {"SORT_CHAIN", "SORT_CARD"} -> [k |-> k, con |-> RCon(0), cards |-> RListL(12, RCard4)]
      [] k = "WIN" -> [k |-> k, con |-> RandomElement({0, 1, 2}), v |-> RByte(0)]
      [] k = "HINT" -> [k |-> k, x |-> RByte(0), con |-> RCon(0), lo |-> R32(0), hi |-> R32(1)]
      [] k = "DECK_TOP" -> LET con == RandomElement({x \in {0, 1} : c.sizes[<<x, 1>>] > 0})
                           IN [k |-> k, con |-> con, v |-> RIdx(c.sizes[<<con, 1>>] - 1), code |-> RCode(0), x |-> R32(0)]
      [] k = "MOVE" -> LET m == RMove(c) IN IF WFMoveMsg(m, c) THEN m ELSE RMv(RPile(0), RZone(0))
      [] k = "SWAP_GRAVE_DECK" ->
            LET con == RCon(0)
                g == c.sizes[<<con, 16>>]
                p == RandomElement({0, 10, 50, 90, 100})
                need == (g + 7) \div 8
            IN [k |-> k, con |-> con, insert |-> RandomElement(0..c.sizes[<<con, 64>>]),
                bits |-> TLCEval([i \in 1..g |-> IF RPct(p) THEN 1 ELSE 0]), nbytes |-> need + RandomElement({0, 0, 0, 1, 4})]
      [] k = "DRAW" -> LET con == RCon(0) IN [k |-> k, con |-> con, count |-> RCountC(c, con), code |-> RandomElement(0..100000)]
      [] k = "MATCH_KILL" -> [k |-> k, v |-> R32(0)]
      [] k = "CARD_HINT" -> [k |-> k, at |-> RInfo(0), x |-> RandomElement(1..7), lo |-> R32(0), hi |-> R32(1)]
      [] k = "BATTLE" -> [k |-> k, at |-> RInfo(0), to |-> RInfoOrNone(1), x |-> R32(0), y |-> R32(1)]
      [] k = "MISSED_EFFECT" -> [k |-> k, at |-> RInfo(0), code |-> RCode(0)]
      [] k = "AI_NAME" -> [k |-> k, name |-> RListL(60, LAMBDA x : RandomElement(32..255))]
      [] k = "UNKNOWN" -> [k |-> k, op |-> RandomElement(NotOpcodes)]
WFGen(k, c) == k = "DECK_TOP" => \E x \in {0, 1} : c.sizes[<<x, 1>>] > 0
=============================================================================
