-------------------------------- MODULE Core --------------------------------
(* The engine's messages: how they look on the wire, and what each is to be  *)
(* translated to.                                                            *)
(*                                                                           *)
(* A message is a record [k |-> kind, ...] of what the engine means.         *)
(*   Wire(m)       the fields on the wire, in order: <<width, value>> for 1, *)
(*                 2 or 4 bytes, <<8, low, high>> for 8 (little endian)      *)
(*   Tr(m, c)      [st, msg, c]: whether a message is produced ("ok"), the   *)
(*                 input is consumed silently ("swallowed") or not known;    *)
(*                 the message; the context afterwards                       *)
(*                                                                           *)
(* A position of the engine is [con, loc, seq, ov, pos]: loc is the engine's *)
(* location (the spell row includes field and pendulum zones), ov tells      *)
(* whether it is a material under the card at loc/seq, and then pos is its   *)
(* index in the stack; otherwise pos is the battle position.                 *)
(* Places of the board are <<con, loc, seq, oseq>> as everywhere.            *)
(* Messages produced are records of ALL scalar fields; the comparison        *)
(* ignores scalars that are zero and lists that are empty.  [_ |-> 0] is     *)
(* the message without fields.                                               *)
EXTENDS Words, TLC, FiniteSets, SequencesExt

NoO == 0 - 1
U8(v) == <<<<1, v>>>>
U16(v) == <<<<2, v>>>>
U32(v) == <<<<4, v>>>>
U64(lo, hi) == <<<<8, lo, hi>>>>
FlatN(n, F(_)) == FlattenSeq([i \in 1..n |-> F(i)])
Each(s, F(_)) == FlattenSeq([i \in 1..Len(s) |-> F(s[i])])
WireSize(w) == FoldLeft(LAMBDA a, f : a + f[1], 0, w)
Str64(lo, hi) == ToString(lo) \o ":" \o ToString(hi)
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

-----------------------------------------------------------------------------
(* Positions *)

EngPileLocs == {1, 2, 16, 32, 64}
SPELL == 8

BLoc(loc, seq) == IF loc = SPELL /\ seq > 4 THEN (IF seq = 5 THEN 256 ELSE 512) ELSE loc
BSeq(loc, seq) == IF loc = SPELL /\ seq > 4 THEN (IF seq = 5 THEN 0 ELSE seq - 6) ELSE seq
\* The board place of an engine position.
Pl(e) == <<e.con, BLoc(e.loc, e.seq), BSeq(e.loc, e.seq), IF e.ov THEN e.pos ELSE NoO>>
\* ... of one that cannot be a material.
PlN(e) == <<e.con, BLoc(e.loc, e.seq), BSeq(e.loc, e.seq), NoO>>
\* The inverse: where the engine keeps a board place.
EngPos(p) == [con |-> p[1],
              loc |-> IF p[2] \in {256, 512} THEN SPELL ELSE p[2],
              seq |-> IF p[2] = 256 THEN 5 ELSE IF p[2] = 512 THEN 6 + p[3] ELSE p[3],
              ov |-> p[4] >= 0, pos |-> IF p[4] >= 0 THEN p[4] ELSE 1]

LocByte(e) == e.loc + (IF e.ov THEN 128 ELSE 0)
\* Full position info: con, loc, seq and (battle position or material index).
LocInfo(e) == U8(e.con) \o U8(LocByte(e)) \o U32(e.seq) \o U32(e.pos)
\* Shorter forms (of a material they say whose holder's location, or none, but not which).
Loc4(e) == U8(e.con) \o U8(LocByte(e)) \o U32(e.seq)
Loc1(e) == U8(e.con) \o U8(LocByte(e)) \o U8(e.seq)
Loc44(e) == U8(e.con) \o U32(LocByte(e)) \o U32(e.seq)

\* Effects: [code, index]; packed as code * 2^20 + index.
EffLo(e) == LET l == e.code % 4096
            IN (IF l >= 2048 THEN l - 4096 ELSE l) * 1048576 + e.index
EffHi(e) == (e.code \div 4096) % 1048576
Eff(e) == U64(EffLo(e), EffHi(e))
EffMsg(e) == [code |-> e.code, index |-> e.index]

\* Zone masks: a set bit is a zone that is NOT meant.  mask: set of the bits
\* (0..31) that are set.
MaskWord(S) == LET v == FoldSet(LAMBDA b, a : a + W_Pow2[b], 0, S \ {31})
               IN IF 31 \in S THEN IntMin + v ELSE v
HalfPlace(con, b) ==
    IF b < 7 THEN <<con, 4, b, NoO>>
    ELSE IF b < 13 THEN <<con, 8, b - 8, NoO>>
    ELSE IF b = 13 THEN <<con, 256, 0, NoO>>
    ELSE <<con, 512, b - 14, NoO>>
HalfBits == <<0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15>>
UnpackHalf(S, con, off) ==
    LET free == SelectSeq(HalfBits, LAMBDA b : (b + off) \notin S)
    IN Map(free, LAMBDA b : HalfPlace(con, b))
Unpack(S, viewer) == UnpackHalf(S, viewer, 0) \o UnpackHalf(S, 1 - viewer, 16)

-----------------------------------------------------------------------------
(* The context the translation needs.                                        *)
(*   sizes[<<con, loc>>]  cards in a pile                                    *)
(*   mats                 field zones <<con, loc, seq>> with materials       *)
(*   def                  materials waiting for their holder                 *)
(*   left[place]          where a holder came from that left the field       *)
(*   mwr                  reason the match was won                           *)

EmptyC == [sizes |-> [k \in {0, 1} \X EngPileLocs |-> 0], mats |-> {},
           def |-> <<>>, left |-> [p \in {} |-> <<>>], mwr |-> 0]
HasMat(c, p) == <<p[1], p[2], p[3]>> \in c.mats
PileAt(p) == p[2] \in EngPileLocs

-----------------------------------------------------------------------------
(* Query data: a sequence of items [q |-> property, ...].                    *)

QFlag == ("code" :> 1) @@ ("position" :> 2) @@ ("alias" :> 4) @@ ("type" :> 8) @@
         ("level" :> 16) @@ ("xyz_rank" :> 32) @@ ("attribute" :> 64) @@ ("race" :> 128) @@
         ("atk" :> 256) @@ ("def" :> 512) @@ ("base_atk" :> 1024) @@ ("base_def" :> 2048) @@
         ("equipped_to" :> 16384) @@ ("targets" :> 32768) @@ ("overlays" :> 65536) @@
         ("counters" :> 131072) @@ ("owner" :> 262144) @@ ("status" :> 524288) @@
         ("is_public" :> 1048576) @@ ("pend_l_scale" :> 2097152) @@ ("pend_r_scale" :> 4194304) @@
         ("link" :> 8388608) @@ ("is_hidden" :> 16777216) @@ ("cover" :> 33554432)
QU32 == {"code", "position", "alias", "type", "level", "xyz_rank", "attribute", "atk", "def",
         "base_atk", "base_def", "status", "pend_l_scale", "pend_r_scale", "cover"}
QU8 == {"owner", "is_public", "is_hidden"}

QPayload(i) ==
    CASE i.q \in QU32 -> U32(i.v)
      [] i.q \in QU8 -> U8(i.v)
      [] i.q = "race" -> U64(i.lo, i.hi)
      [] i.q = "equipped_to" -> LocInfo(i.v)
      [] i.q = "targets" -> U32(Len(i.v)) \o Each(i.v, LocInfo)
      [] i.q = "counters" -> U32(Len(i.v)) \o
             Each(i.v, LAMBDA x : U16(x.type) \o U16(x.count))
      [] i.q = "link" -> U32(i.v) \o U32(i.arrow)
      [] i.q = "overlays" -> U32(Len(i.v)) \o Each(i.v, U32)
      [] i.q = "unknown" -> Each(i.v, U8)
QItem(i) == LET p == QPayload(i)
            IN U16(4 + WireSize(p)) \o U32(IF i.q = "unknown" THEN i.flag ELSE QFlag[i.q]) \o p
QueryWire(items) == Each(items, QItem) \o U16(4) \o U32(IntMin)

\* What arrives: the last of each property; lists accumulate; materials apart.
Bool(v) == IF v # 0 THEN 1 ELSE 0
QVal(i) == CASE i.q = "race" -> [value |-> Str64(i.lo, i.hi)]
             [] i.q = "equipped_to" -> [value |-> Pl(i.v)]
             [] i.q \in {"is_public", "is_hidden"} -> [value |-> Bool(i.v)]
             [] OTHER -> [value |-> i.v]
QApply(d, i) ==
    CASE i.q \in {"overlays", "unknown"} -> d
      [] i.q = "targets" ->
            ("targets" :> [values |-> (IF "targets" \in DOMAIN d THEN d["targets"].values ELSE <<>>)
                                      \o Map(i.v, Pl)]) @@ d
      [] i.q = "counters" ->
            ("counters" :> [values |-> (IF "counters" \in DOMAIN d THEN d["counters"].values ELSE <<>>)
                                       \o Map(i.v, LAMBDA x : [type |-> x.type, count |-> x.count])]) @@ d
      [] i.q = "link" -> ("link_rate" :> [value |-> i.v]) @@ ("link_arrow" :> [value |-> i.arrow]) @@ d
      [] OTHER -> (i.q :> QVal(i)) @@ d
QData(items) == FoldLeft(QApply, [x \in {"_"} |-> 0], items)
\* The materials listed by the (last) overlay item.
QOverlays(items) == LET o == SelectSeq(items, LAMBDA i : i.q = "overlays")
                    IN IF o = <<>> THEN <<>> ELSE o[Len(o)].v
\* The query for a card, then those for its materials.
QueriesOf(p, items) ==
    <<[place |-> p, data |-> QData(items)]>>
    \o LET o == QOverlays(items)
       IN [i \in 1..Len(o) |-> [place |-> <<p[1], p[2], p[3], i - 1>>, data |-> [code |-> [value |-> o[i]]]]]

-----------------------------------------------------------------------------
(* Opcodes *)

Op == ("RETRY" :> 1) @@ ("HINT" :> 2) @@ ("START" :> 4) @@ ("WIN" :> 5) @@ ("UPDATE_DATA" :> 6) @@
      ("UPDATE_CARD" :> 7) @@ ("SELECT_BATTLECMD" :> 10) @@ ("SELECT_IDLECMD" :> 11) @@
      ("SELECT_EFFECTYN" :> 12) @@ ("SELECT_YESNO" :> 13) @@ ("SELECT_OPTION" :> 14) @@
      ("SELECT_CARD" :> 15) @@ ("SELECT_CHAIN" :> 16) @@ ("SELECT_PLACE" :> 18) @@
      ("SELECT_POSITION" :> 19) @@ ("SELECT_TRIBUTE" :> 20) @@ ("SORT_CHAIN" :> 21) @@
      ("SELECT_DISFIELD" :> 24) @@ ("SORT_CARD" :> 25) @@ ("SELECT_UNSELECT_CARD" :> 26) @@
      ("CONFIRM_DECKTOP" :> 30) @@ ("CONFIRM_CARDS" :> 31) @@ ("SHUFFLE_DECK" :> 32) @@
      ("SHUFFLE_HAND" :> 33) @@ ("SWAP_GRAVE_DECK" :> 35) @@ ("SHUFFLE_SET_CARD" :> 36) @@
      ("REVERSE_DECK" :> 37) @@ ("DECK_TOP" :> 38) @@ ("SHUFFLE_EXTRA" :> 39) @@
      ("NEW_TURN" :> 40) @@ ("NEW_PHASE" :> 41) @@ ("CONFIRM_EXTRATOP" :> 42) @@ ("MOVE" :> 50) @@
      ("POS_CHANGE" :> 53) @@ ("SET" :> 54) @@ ("SWAP" :> 55) @@ ("FIELD_DISABLED" :> 56) @@
      ("SUMMONING" :> 60) @@ ("SUMMONED" :> 61) @@ ("SPSUMMONING" :> 62) @@ ("SPSUMMONED" :> 63) @@
      ("FLIPSUMMONING" :> 64) @@ ("FLIPSUMMONED" :> 65) @@ ("CHAINING" :> 70) @@ ("CHAINED" :> 71) @@
      ("CHAIN_SOLVING" :> 72) @@ ("CHAIN_SOLVED" :> 73) @@ ("CHAIN_END" :> 74) @@
      ("CHAIN_NEGATED" :> 75) @@ ("CHAIN_DISABLED" :> 76) @@ ("CARD_SELECTED" :> 80) @@
      ("RANDOM_SELECTED" :> 81) @@ ("BECOME_TARGET" :> 83) @@ ("DRAW" :> 90) @@ ("DAMAGE" :> 91) @@
      ("RECOVER" :> 92) @@ ("EQUIP" :> 93) @@ ("LPUPDATE" :> 94) @@ ("CARD_TARGET" :> 96) @@
      ("CANCEL_TARGET" :> 97) @@ ("PAY_LPCOST" :> 100) @@ ("ADD_COUNTER" :> 101) @@
      ("REMOVE_COUNTER" :> 102) @@ ("ATTACK" :> 110) @@ ("BATTLE" :> 111) @@
      ("ATTACK_DISABLED" :> 112) @@ ("DAMAGE_STEP_START" :> 113) @@ ("DAMAGE_STEP_END" :> 114) @@
      ("MISSED_EFFECT" :> 120) @@ ("TOSS_COIN" :> 130) @@ ("TOSS_DICE" :> 131) @@
      ("ROCK_PAPER_SCISSORS" :> 132) @@ ("HAND_RES" :> 133) @@ ("ANNOUNCE_RACE" :> 140) @@
      ("ANNOUNCE_ATTRIB" :> 141) @@ ("ANNOUNCE_NUMBER" :> 143) @@ ("CARD_HINT" :> 160) @@
      ("TAG_SWAP" :> 161) @@ ("RELOAD_FIELD" :> 162) @@ ("AI_NAME" :> 163) @@
      ("PLAYER_HINT" :> 165) @@ ("MATCH_KILL" :> 170)
\* Known to the engine but not supported here (SELECT_COUNTER, SELECT_SUM,
\* ANNOUNCE_CARD and its filter), and numbers the engine does not use.
Unsupported == {22, 23, 142, 144}
NotOpcodes == {0, 3, 8, 9, 17, 27, 34, 43, 66, 95, 121, 122, 123, 164, 180, 200, 255}

-----------------------------------------------------------------------------
(* The wire *)

\* Cards in a list: [code, at] (and eff, ...).
C4(x) == U32(x.code) \o Loc4(x.at)
C1(x) == U32(x.code) \o Loc1(x.at)
C44(x) == U32(x.code) \o Loc44(x.at)
CInfo(x) == U32(x.code) \o LocInfo(x.at)
CAct(x) == C4(x) \o Eff(x.eff) \o U8(x.flag)
CActInfo(x) == CInfo(x) \o Eff(x.eff) \o U8(x.flag)
CAtk(x) == C1(x) \o U8(x.direct)
List4(s, F(_)) == U32(Len(s)) \o Each(s, F)
List1(s, F(_)) == U8(Len(s)) \o Each(s, F)

\* Bits to bytes, least significant first; n bytes (at least as many as needed).
BufBytes(bits, n) ==
    FlattenSeq([b \in 1..n |->
        U8(FoldLeft(LAMBDA a, j : a + (IF (b - 1) * 8 + j <= Len(bits) /\ bits[(b - 1) * 8 + j] = 1
                                       THEN W_Pow2[j - 1] ELSE 0), 0, <<1, 2, 3, 4, 5, 6, 7, 8>>))])

ReloadZone(z) == IF z.has = 0 THEN U8(0)
                 ELSE U8(z.has) \o U8(z.pos) \o U32(z.mats)
ReloadSide(s) == U32(s.lp) \o Each(s.mz, ReloadZone) \o Each(s.sz, ReloadZone)
                 \o U32(s.main) \o U32(s.hand) \o U32(s.grave) \o U32(s.banished) \o U32(s.extra)
                 \o U32(s.extra_p)
ChainWire(x) == U32(x.code) \o LocInfo(x.card) \o Loc4(x.at) \o Eff(x.eff)

\* Bits of the engine's duel flags.
FlagBits(sh) == {b \in {22} : sh.three = 1} \cup {b \in {11} : sh.pz = 1}
                \cup {b \in {12} : sh.spz = 1} \cup {b \in {13} : sh.emz = 1}

Slot(x) == IF x.k = "gap" THEN U16(0) ELSE QueryWire(x.items)
Slots(xs) == Each(xs, Slot)

Body(m) ==
    CASE m.k \in {"RETRY", "SUMMONED", "SPSUMMONED", "FLIPSUMMONED", "CHAIN_END", "ATTACK_DISABLED",
                  "DAMAGE_STEP_START", "DAMAGE_STEP_END", "REVERSE_DECK"} -> <<>>
      [] m.k \in {"CONFIRM_DECKTOP", "CONFIRM_EXTRATOP", "CONFIRM_CARDS"} -> U8(m.con) \o List4(m.cards, C4)
      [] m.k \in {"SHUFFLE_DECK", "NEW_TURN", "ROCK_PAPER_SCISSORS"} -> U8(m.con)
      [] m.k \in {"SHUFFLE_HAND", "SHUFFLE_EXTRA"} -> U8(m.con) \o List4(m.codes, U32)
      [] m.k = "SHUFFLE_SET_CARD" -> U8(m.loc) \o U8(Len(m.prev)) \o Each(m.prev, LocInfo) \o Each(m.cur, LocInfo)
      [] m.k = "NEW_PHASE" -> U16(m.v)
      [] m.k = "POS_CHANGE" -> U32(m.code) \o Loc1(m.at) \o U8(m.x) \o U8(m.y)
      [] m.k = "SET" -> U32(m.code) \o Loc4(m.at) \o U32(m.x)
      [] m.k = "SWAP" -> U32(m.code) \o LocInfo(m.at) \o U32(m.x) \o LocInfo(m.to)
      [] m.k = "FIELD_DISABLED" -> U32(MaskWord(m.mask))
      [] m.k \in {"SUMMONING", "SPSUMMONING", "FLIPSUMMONING"} -> U32(m.code) \o LocInfo(m.at)
      [] m.k = "CHAINING" -> ChainWire(m) \o U32(m.x)
      [] m.k \in {"CHAINED", "CHAIN_SOLVING", "CHAIN_NEGATED", "CHAIN_DISABLED", "CHAIN_SOLVED", "HAND_RES"} -> U8(m.x)
      [] m.k \in {"DAMAGE", "RECOVER", "LPUPDATE", "PAY_LPCOST"} -> U8(m.con) \o U32(m.v)
      [] m.k = "RANDOM_SELECTED" -> U8(m.con) \o List4(m.ats, LocInfo)
      [] m.k \in {"CARD_SELECTED", "BECOME_TARGET"} -> List4(m.ats, LocInfo)
      [] m.k \in {"CARD_TARGET", "CANCEL_TARGET", "EQUIP", "ATTACK"} -> LocInfo(m.at) \o LocInfo(m.to)
      [] m.k \in {"ADD_COUNTER", "REMOVE_COUNTER"} -> U16(m.x) \o Loc1(m.at) \o U16(m.y)
      [] m.k \in {"TOSS_COIN", "TOSS_DICE"} -> U8(m.con) \o List1(m.vals, U8)
      [] m.k = "START" -> U8(m.x) \o U32(m.lps[1]) \o U32(m.lps[2]) \o Each(m.sizes, U16)
      [] m.k = "TAG_SWAP" -> U8(m.con) \o U32(m.main) \o U32(m.extra) \o U32(m.extra_p) \o U32(m.hand)
                             \o U32(m.top) \o FlatN(m.extra + m.hand, LAMBDA i : U32(m.code + i) \o U32(5))
      [] m.k = "RELOAD_FIELD" -> U32(MaskWord(m.flags \cup FlagBits(m.shape))) \o Each(m.sides, ReloadSide)
                                 \o List4(m.chains, ChainWire)
      [] m.k = "PLAYER_HINT" -> U8(m.con) \o U8(m.x) \o Eff(m.eff)
      [] m.k = "UPDATE_DATA" -> LET w == Slots(m.slots)
                                IN U8(m.con) \o U8(m.loc) \o U32(WireSize(w)) \o w
      [] m.k = "UPDATE_CARD" -> Loc1(m.at) \o QueryWire(m.items)
      [] m.k = "ANNOUNCE_ATTRIB" -> U8(m.con) \o U8(m.count) \o U32(m.v)
      [] m.k = "ANNOUNCE_RACE" -> U8(m.con) \o U8(m.count) \o U64(m.lo, m.hi)
      [] m.k = "ANNOUNCE_NUMBER" -> U8(m.con) \o List1(m.nums, LAMBDA x : U64(x[1], x[2]))
      [] m.k = "SELECT_CARD" -> U8(m.con) \o U8(m.cancel) \o U32(m.min) \o U32(m.max) \o List4(m.cards, CInfo)
      [] m.k = "SELECT_UNSELECT_CARD" -> U8(m.con) \o U8(m.finish) \o U8(m.accept) \o U32(m.min) \o U32(m.max)
                                         \o List4(m.cards, CInfo) \o List4(m.cards2, CInfo)
      [] m.k = "SELECT_TRIBUTE" -> U8(m.con) \o U8(m.cancel) \o U32(m.min) \o U32(m.max)
                                   \o List4(m.cards, LAMBDA x : C4(x) \o U8(x.flag))
      [] m.k = "SELECT_OPTION" -> U8(m.con) \o List1(m.effs, Eff)
      [] m.k = "SELECT_BATTLECMD" -> U8(m.con) \o List4(m.act, CAct) \o List4(m.atk, CAtk) \o U8(m.p1) \o U8(m.p2)
      [] m.k = "SELECT_IDLECMD" -> U8(m.con) \o List4(m.sum, C4) \o List4(m.sps, C4) \o List4(m.rep, C1)
                                   \o List4(m.mset, C4) \o List4(m.sset, C4) \o List4(m.act, CAct)
                                   \o U8(m.p1) \o U8(m.p2) \o U8(m.shuffle)
      [] m.k = "SELECT_POSITION" -> U8(m.con) \o U32(m.code) \o U8(m.v)
      [] m.k = "SELECT_CHAIN" -> U8(m.con) \o U8(m.x) \o U8(m.forced) \o U32(m.h1) \o U32(m.h2) \o List4(m.act, CActInfo)
      [] m.k = "SELECT_EFFECTYN" -> U8(m.con) \o U32(m.code) \o LocInfo(m.at) \o Eff(m.eff)
      [] m.k = "SELECT_YESNO" -> U8(m.con) \o Eff(m.eff)
      [] m.k \in {"SELECT_PLACE", "SELECT_DISFIELD"} -> U8(m.con) \o U8(m.count) \o U32(MaskWord(m.mask))
      [] m.k \in {"SORT_CHAIN", "SORT_CARD"} -> U8(m.con) \o List4(m.cards, C44)
      [] m.k = "WIN" -> U8(m.con) \o U8(m.v)
      [] m.k = "HINT" -> U8(m.x) \o U8(m.con) \o U64(m.lo, m.hi)
      [] m.k = "DECK_TOP" -> U8(m.con) \o U32(m.v) \o U32(m.code) \o U32(m.x)
      [] m.k = "MOVE" -> U32(m.code) \o LocInfo(m.at) \o LocInfo(m.to) \o U32(m.reason)
      [] m.k = "SWAP_GRAVE_DECK" -> U8(m.con) \o U32(m.insert) \o U32(m.nbytes) \o BufBytes(m.bits, m.nbytes)
      [] m.k = "DRAW" -> U8(m.con) \o U32(m.count) \o FlatN(m.count, LAMBDA i : U32(m.code + i) \o U32(10))
      [] m.k = "MATCH_KILL" -> U32(m.v)
      [] m.k = "CARD_HINT" -> LocInfo(m.at) \o U8(m.x) \o U64(m.lo, m.hi)
      [] m.k = "BATTLE" -> LocInfo(m.at) \o U32(m.x) \o U32(m.y) \o U8(1) \o LocInfo(m.to) \o U32(m.y) \o U32(m.x) \o U8(0)
      [] m.k = "MISSED_EFFECT" -> LocInfo(m.at) \o U32(m.code)
      [] m.k = "AI_NAME" -> U16(Len(m.name)) \o Each(m.name, U8) \o U8(0)
      [] m.k = "UNKNOWN" -> <<>>
Wire(m) == U8(IF m.k = "UNKNOWN" THEN m.op ELSE Op[m.k]) \o Body(m)

-----------------------------------------------------------------------------
(* The translation *)

Ev(x) == [event |-> x]
Meta(x) == Ev([meta |-> x])
Rsn(v) == Str64(v, 0)
Update(r, p) == Meta([update |-> [reason |-> r, places |-> <<p>>]])
ShufflePile(con, loc) == Meta([shuffle_pile |-> [places |-> <<<<con, loc, 0, 0>>>>]])
Card(r, x) == Ev([card |-> (x @@ [reason |-> Rsn(r)])])
MoveOp(a, b) == [old_place |-> a, new_place |-> b]
OneMove(r, a, b) == Card(r, [move |-> [ops |-> <<MoveOp(a, b)>>]])
Resize(con, loc, n) == [place |-> <<con, loc, 0, NoO>>, count |-> n]
SpliceOp(con, fl, fs, n, tl, ts, rev) ==
    [from |-> <<con, fl, fs, NoO>>, count |-> n, to |-> <<con, tl, ts, NoO>>, reverse |-> rev]
Lp(con, kind, v) == Ev([lp |-> ([controller |-> con] @@ (kind :> <<v>>))])

ChainMsg(x) == [card_place |-> Pl(x.card), place |-> PlN(x.at), effect |-> EffMsg(x.eff)]

\* The zones of one row of a side of a reloaded field.
RowAdds(con, loc, zs) ==
    FlattenSeq([i \in 1..Len(zs) |->
        IF zs[i].has = 0 THEN <<>>
        ELSE LET l == BLoc(loc, i - 1)  s == BSeq(loc, i - 1)
             IN <<<<con, l, s, NoO>>>> \o [j \in 1..zs[i].mats |-> <<con, l, s, j - 1>>]])
SideAdds(con, s) == RowAdds(con, 4, s.mz) \o RowAdds(con, SPELL, s.sz)
SideResizes(con, s) == <<Resize(con, 1, s.main), Resize(con, 2, s.hand), Resize(con, 16, s.grave),
                         Resize(con, 32, s.banished), Resize(con, 64, s.extra)>>

\* Runs of 1s in a bit sequence: <<first (0-based), length>>.
Runs(bits) == LET starts == SelectSeq([i \in 1..Len(bits) |-> i],
                               LAMBDA i : bits[i] = 1 /\ (i = 1 \/ bits[i - 1] = 0))
                  len(i) == CHOOSE n \in 1..(Len(bits) - i + 1) :
                               /\ \A j \in i..(i + n - 1) : bits[j] = 1
                               /\ i + n > Len(bits) \/ bits[i + n] = 0
              IN Map(starts, LAMBDA i : <<i - 1, len(i)>>)
\* The graveyard goes to the bottom of the deck, the rest of the deck becomes
\* the graveyard, and the marked cards leave the deck for the extra deck.
GraveDeckOps(m, c) ==
    LET g == c.sizes[<<m.con, 16>>]
        d == c.sizes[<<m.con, 1>>]
        runs == Runs(SubSeq(m.bits, 1, g))
        before(i) == FoldLeft(LAMBDA a, r : a + r[2], 0, SubSeq(runs, 1, i - 1))
    IN (IF g > 0 THEN <<SpliceOp(m.con, 16, 0, g, 1, 0, 0)>> ELSE <<>>)
       \o (IF d > 0 THEN <<SpliceOp(m.con, 1, g, d, 16, 0, 0)>> ELSE <<>>)
       \o [i \in 1..Len(runs) |-> SpliceOp(m.con, 1, runs[i][1] - before(i), runs[i][2],
                                           64, m.insert + before(i), 0)]

\* The materials waiting for a holder arriving at p, one after the other: each
\* becomes the next material there.  If one is already under that zone, those
\* put before it have moved it up.
SameZone(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3]
Arrival(def, p) ==
    LET at(i) == IF def[i][4] >= 0 /\ SameZone(def[i], p)
                 THEN <<def[i][1], def[i][2], def[i][3], def[i][4] + i - 1>> ELSE def[i]
        all == [i \in 1..Len(def) |-> MoveOp(at(i), <<p[1], p[2], p[3], i - 1>>)]
    IN SelectSeq(all, LAMBDA o : o.old_place # o.new_place)

Ok(msg, c) == [st |-> "ok", msg |-> msg, c |-> c]
Swallowed(c) == [st |-> "swallowed", msg |-> [x \in {"_"} |-> 0], c |-> c]
Unknown(c) == [st |-> "unknown", msg |-> [x \in {"_"} |-> 0], c |-> c]

TrMove(m, c) ==
    LET p == Pl(m.at)  q == Pl(m.to) IN
    IF p[2] = 0 /\ q[2] = 0 THEN Swallowed(c)
    ELSE IF p[2] = 0 THEN Ok(Card(m.reason, [add |-> [places |-> <<q>>]]), c)
    ELSE IF q[2] = 0 THEN Ok(Card(m.reason, [remove |-> [places |-> <<p>>]]), c)
    \* Attached to a holder that is not on the field (yet).
    ELSE IF PileAt(q) /\ q[4] >= 0 THEN Swallowed([c EXCEPT !.def = Append(@, p)])
    \* Arriving on the field, with the materials waiting for it.
    ELSE IF ~PileAt(q) /\ q[4] < 0 THEN
        Ok(Card(m.reason, [move |-> [ops |-> Append(Arrival(c.def, q), MoveOp(p, q))]]), [c EXCEPT !.def = <<>>])
    \* Detached from a holder that has left the field.
    ELSE IF PileAt(p) /\ p[4] >= 0 THEN
        LET f == c.left[<<p[1], p[2], p[3], NoO>>]
        IN Ok(OneMove(m.reason, <<f[1], f[2], f[3], p[4]>>, q), c)
    ELSE Ok(OneMove(m.reason, p, q),
            IF ~PileAt(p) /\ PileAt(q) /\ HasMat(c, p) THEN [c EXCEPT !.left = (q :> p) @@ @] ELSE c)
\* The places a detachment may refer to.
WFMoveMsg(m, c) == LET p == Pl(m.at) IN
    p[2] # 0 /\ PileAt(p) /\ p[4] >= 0 /\ ~(PileAt(Pl(m.to)) /\ Pl(m.to)[4] >= 0) /\ (PileAt(Pl(m.to)) \/ Pl(m.to)[4] >= 0)
    /\ Pl(m.to)[2] # 0
    => /\ <<p[1], p[2], p[3], NoO>> \in DOMAIN c.left
       \* (What a material that left its own zone leaves there means nothing.)
       /\ c.left[<<p[1], p[2], p[3], NoO>>][4] < 0

\* Requests.
Req(m, x) == [request |-> (x @@ [replier |-> m.con])]
CardP(x) == [code |-> x.code, place |-> Pl(x.at)]
ActP(x) == [place |-> PlN(x.at), effect |-> EffMsg(x.eff)]
AtP(x) == PlN(x.at)

TrRequest(m) ==
    CASE m.k = "ANNOUNCE_ATTRIB" -> Req(m, [select_attribute |-> [count |-> m.count, attribute |-> m.v]])
      [] m.k = "ANNOUNCE_RACE" -> Req(m, [select_race |-> [count |-> m.count, race |-> Str64(m.lo, m.hi)]])
      [] m.k = "ANNOUNCE_NUMBER" ->
            Req(m, [select_number |-> [count |-> 1, numbers |-> Map(m.nums, LAMBDA x : Str64(x[1], x[2]))]])
      [] m.k = "ROCK_PAPER_SCISSORS" -> Req(m, [select_rock_paper_scissors |-> <<1>>])
      [] m.k = "SELECT_CARD" ->
            Req(m, [select_card |->
                IF m.cards[1].at.loc # 0 \/ m.cards[1].at.ov
                THEN [unique_range |-> [can_cancel |-> Bool(m.cancel), min |-> m.min, max |-> m.max,
                                        cards |-> Map(m.cards, CardP)]]
                ELSE [limbo |-> [can_cancel |-> Bool(m.cancel), min |-> m.min, max |-> m.max,
                                 card_codes |-> Map(m.cards, LAMBDA x : x.code)]]])
      [] m.k = "SELECT_UNSELECT_CARD" ->
            Req(m, [select_card |-> [recursive |->
                [can_finish |-> Bool(m.finish), accept |-> Bool(m.accept), min |-> m.min, max |-> m.max,
                 selectable_cards |-> Map(m.cards, CardP), deselectable_cards |-> Map(m.cards2, CardP)]]])
      [] m.k = "SELECT_TRIBUTE" ->
            Req(m, [select_card |-> [unique_tributes |->
                [can_cancel |-> Bool(m.cancel), tribute_min |-> m.min, tribute_max |-> m.max,
                 cards |-> Map(m.cards, LAMBDA x : [code |-> x.code, place |-> PlN(x.at), count_as |-> x.flag])]]])
      [] m.k = "SELECT_OPTION" -> Req(m, [select_effect |-> [count |-> 1, effects |-> Map(m.effs, EffMsg)]])
      [] m.k = "SELECT_BATTLECMD" ->
            Req(m, [select_idle |->
                [is_battle_cmd |-> 1, activable_cards |-> Map(m.act, ActP),
                 can_attack_cards |-> Map(m.atk, LAMBDA x : [place |-> PlN(x.at), can_attack_directly |-> Bool(x.direct)]),
                 available_phase |-> (IF m.p1 # 0 THEN 256 ELSE 0) + (IF m.p2 # 0 THEN 512 ELSE 0)]])
      [] m.k = "SELECT_IDLECMD" ->
            Req(m, [select_idle |->
                [summonable_cards |-> Map(m.sum, AtP), spsummonable_cards |-> Map(m.sps, AtP),
                 repositionable_cards |-> Map(m.rep, AtP), msetable_cards |-> Map(m.mset, AtP),
                 ssetable_cards |-> Map(m.sset, AtP), activable_cards |-> Map(m.act, ActP),
                 available_phase |-> (IF m.p1 # 0 THEN 128 ELSE 0) + (IF m.p2 # 0 THEN 512 ELSE 0),
                 can_shuffle |-> Bool(m.shuffle)]])
      [] m.k = "SELECT_POSITION" -> Req(m, [select_position |-> [count |-> 1, code |-> m.code, position |-> m.v]])
      [] m.k = "SELECT_CHAIN" ->
            Req(m, [select_to_chain |->
                [triggering |-> IF m.x % 128 > 0 THEN 1 ELSE 0, forced |-> Bool(m.forced),
                 activable_cards |-> Map(m.act, LAMBDA x : [place |-> Pl(x.at), effect |-> EffMsg(x.eff)])]])
      [] m.k = "SELECT_EFFECTYN" ->
            Req(m, [select_yes_no |-> [code |-> m.code, place |-> Pl(m.at), effect |-> EffMsg(m.eff)]])
      [] m.k = "SELECT_YESNO" -> Req(m, [select_yes_no |-> [effect |-> EffMsg(m.eff)]])
      [] m.k \in {"SELECT_PLACE", "SELECT_DISFIELD"} ->
            Req(m, [select_zone |-> [blocking |-> IF m.k = "SELECT_DISFIELD" THEN 1 ELSE 0, count |-> m.count,
                                     places |-> Unpack(m.mask, m.con)]])
      [] m.k \in {"SORT_CHAIN", "SORT_CARD"} -> Req(m, [sort |-> [places |-> Map(m.cards, AtP)]])

\* Query containers.
TrUpdateData(m) ==
    LET at(i) == <<m.con, BLoc(m.loc, i - 1), BSeq(m.loc, i - 1), NoO>>
    IN [queries |-> FlattenSeq([i \in 1..Len(m.slots) |->
          IF m.slots[i].k = "gap" THEN <<>> ELSE QueriesOf(at(i), m.slots[i].items)])]

\* Events without context.
TrEvent(m) ==
    CASE m.k \in {"CONFIRM_DECKTOP", "CONFIRM_EXTRATOP", "CONFIRM_CARDS"} ->
            Meta([confirm |-> [places |-> Map(m.cards, AtP)]])
      [] m.k = "SHUFFLE_DECK" -> ShufflePile(m.con, 1)
      [] m.k = "SHUFFLE_HAND" -> ShufflePile(m.con, 2)
      [] m.k = "SHUFFLE_EXTRA" -> ShufflePile(m.con, 64)
      [] m.k = "SHUFFLE_SET_CARD" ->
            Ev([card |-> [shuffle |-> [previous_places |-> Map(m.prev, Pl), current_places |-> Map(m.cur, Pl)]]])
      [] m.k = "NEW_TURN" -> Ev([next_turn |-> <<m.con>>])
      [] m.k = "NEW_PHASE" -> Ev([next_phase |-> <<m.v>>])
      [] m.k \in {"POS_CHANGE", "SET", "ADD_COUNTER", "REMOVE_COUNTER"} -> Update("0:0", PlN(m.at))
      [] m.k = "SWAP" -> Ev([card |-> [exchange |-> [ops |-> <<[place_a |-> Pl(m.at), place_b |-> Pl(m.to)]>>]]])
      [] m.k = "FIELD_DISABLED" -> Ev([zone_block |-> [zones |-> Unpack(m.mask, 0)]])
      [] m.k = "SUMMONING" -> Update(Rsn(16), Pl(m.at))
      [] m.k = "SPSUMMONING" -> Update(Rsn(2048), Pl(m.at))
      [] m.k = "FLIPSUMMONING" -> Update(Rsn(8192), Pl(m.at))
      [] m.k = "CHAINING" -> Ev([chain_stack |-> [push |-> ChainMsg(m)]])
      [] m.k = "CHAINED" -> Meta([chain_status |-> <<1>>])
      [] m.k = "CHAIN_SOLVING" -> Meta([chain_status |-> <<2>>])
      [] m.k = "CHAIN_NEGATED" -> Meta([chain_status |-> <<3>>])
      [] m.k = "CHAIN_DISABLED" -> Meta([chain_status |-> <<4>>])
      [] m.k = "CHAIN_SOLVED" -> Ev([chain_stack |-> [pop |-> <<1>>]])
      [] m.k = "DAMAGE" -> Lp(m.con, "damage", m.v)
      [] m.k = "RECOVER" -> Lp(m.con, "recover", m.v)
      [] m.k = "LPUPDATE" -> Lp(m.con, "become", m.v)
      [] m.k = "PAY_LPCOST" -> Lp(m.con, "pay", m.v)
      [] m.k \in {"RANDOM_SELECTED", "CARD_SELECTED", "BECOME_TARGET"} ->
            Meta([selection |-> [selected_places |-> Map(m.ats, Pl)]])
      [] m.k \in {"CARD_TARGET", "CANCEL_TARGET"} ->
            Meta([selection |-> [selector |-> Pl(m.at), selected_places |-> <<Pl(m.to)>>]])
      [] m.k = "ATTACK" -> Meta([attack |-> IF m.to.loc # 0 THEN [attacker |-> Pl(m.at), attack_target |-> Pl(m.to)]
                                            ELSE [attacker |-> Pl(m.at)]])
      [] m.k = "TOSS_COIN" -> Ev([result |-> [coin |-> [actor |-> m.con, values |-> Map(m.vals, Bool)]]])
      [] m.k = "TOSS_DICE" -> Ev([result |-> [dice |-> [actor |-> m.con, values |-> m.vals]]])
      [] m.k = "HAND_RES" -> Ev([result |-> [rps |-> [values |-> <<m.x % 4, (m.x \div 4) % 4>>]]])
      [] m.k = "PLAYER_HINT" -> Meta([description |->
            IF m.x = 1 THEN [con |-> m.con, add |-> EffMsg(m.eff)] ELSE [con |-> m.con, remove |-> EffMsg(m.eff)]])

\* Events of whole piles and fields.
TrStart(m) == Ev([board |-> [state |->
    [turn_counter |-> 0, lps |-> m.lps,
     resize |-> [ops |-> <<Resize(0, 1, m.sizes[1]), Resize(0, 64, m.sizes[2]),
                           Resize(1, 1, m.sizes[3]), Resize(1, 64, m.sizes[4])>>]]]])
TrTagSwap(m) == Ev([board |-> [exchange |->
    [con |-> m.con, resize |-> [ops |-> <<Resize(m.con, 1, m.main), Resize(m.con, 64, m.extra),
                                          Resize(m.con, 2, m.hand)>>]]]])
TrReload(m) == Ev([board |-> [state |->
    [shape |-> [three_columns |-> m.shape.three, has_pzones |-> m.shape.pz,
                has_separate_pzones |-> m.shape.spz, has_emzones |-> m.shape.emz],
     turn_counter |-> 0 - 1, lps |-> <<m.sides[1].lp, m.sides[2].lp>>,
     add |-> [places |-> SideAdds(0, m.sides[1]) \o SideAdds(1, m.sides[2])],
     resize |-> [ops |-> SideResizes(0, m.sides[1]) \o SideResizes(1, m.sides[2])],
     chains |-> Map(m.chains, ChainMsg)]]])
TrDraw(m, c) == Ev([pile |-> [reason |-> Rsn(33554432),
    splice |-> [ops |-> <<SpliceOp(m.con, 1, c.sizes[<<m.con, 1>>] - m.count, m.count,
                                   2, c.sizes[<<m.con, 2>>], 1)>>]]])
TrReverse(c) == Ev([pile |-> [reason |-> Rsn(64),
    splice |-> [ops |-> <<SpliceOp(0, 1, 0, c.sizes[<<0, 1>>], 1, 0, 1),
                          SpliceOp(1, 1, 0, c.sizes[<<1, 1>>], 1, 0, 1)>>]]])
TrGraveDeck(m, c) == Ev([pile |-> [splice |-> [ops |-> GraveDeckOps(m, c)]]])
TrDeckTop(m, c) == Update("0:0", <<m.con, 1, c.sizes[<<m.con, 1>>] - 1 - m.v, NoO>>)
TrWin(m, c) == Ev([finish |-> ([win_reason |-> m.v, match_win_reason |-> c.mwr]
                               @@ (IF m.con = 2 THEN [draw |-> <<1>>] ELSE [winner |-> <<m.con>>]))])

SwallowedKinds == {"RETRY", "HINT", "CARD_HINT", "SUMMONED", "SPSUMMONED", "FLIPSUMMONED", "CHAIN_END",
                   "BATTLE", "EQUIP", "ATTACK_DISABLED", "DAMAGE_STEP_START", "DAMAGE_STEP_END",
                   "MISSED_EFFECT", "AI_NAME"}
PileKinds == {"START", "TAG_SWAP", "RELOAD_FIELD", "DRAW", "REVERSE_DECK", "SWAP_GRAVE_DECK", "DECK_TOP"}
QueryKinds == {"UPDATE_DATA", "UPDATE_CARD"}
RequestKinds == {"ANNOUNCE_ATTRIB", "ANNOUNCE_RACE", "ANNOUNCE_NUMBER", "ROCK_PAPER_SCISSORS", "SELECT_CARD",
                 "SELECT_UNSELECT_CARD", "SELECT_TRIBUTE", "SELECT_OPTION", "SELECT_BATTLECMD",
                 "SELECT_IDLECMD", "SELECT_POSITION", "SELECT_CHAIN", "SELECT_EFFECTYN", "SELECT_YESNO",
                 "SELECT_PLACE", "SELECT_DISFIELD", "SORT_CHAIN", "SORT_CARD"}
EventKinds == DOMAIN Op \ (SwallowedKinds \cup PileKinds \cup QueryKinds \cup RequestKinds \cup {"MOVE"})

Tr(m, c) ==
    CASE m.k = "UNKNOWN" -> Unknown(c)
      [] m.k \in SwallowedKinds -> Swallowed(c)
      [] m.k = "MATCH_KILL" -> Swallowed([c EXCEPT !.mwr = m.v])
      [] m.k = "MOVE" -> TrMove(m, c)
      [] m.k \in RequestKinds -> Ok(TrRequest(m), c)
      [] m.k = "UPDATE_DATA" -> Ok(TrUpdateData(m), c)
      [] m.k = "UPDATE_CARD" -> Ok([queries |-> QueriesOf(PlN(m.at), m.items)], c)
      [] m.k = "START" -> Ok(TrStart(m), c)
      [] m.k = "TAG_SWAP" -> Ok(TrTagSwap(m), c)
      [] m.k = "RELOAD_FIELD" -> Ok(TrReload(m), c)
      [] m.k = "DRAW" -> Ok(TrDraw(m, c), c)
      [] m.k = "REVERSE_DECK" -> Ok(TrReverse(c), c)
      [] m.k = "SWAP_GRAVE_DECK" -> Ok(TrGraveDeck(m, c), c)
      [] m.k = "DECK_TOP" -> Ok(TrDeckTop(m, c), c)
      [] m.k = "WIN" -> Ok(TrWin(m, c), c)
      [] OTHER -> Ok(TrEvent(m), c)
=============================================================================
