------------------------------ MODULE RoomGen -------------------------------
(* Random histories of rooms.  Strangers (clients that never entered) send   *)
(* signals, too.                                                             *)
EXTENDS Room, Rand, Json
VARIABLES n, s, cap, a      \* cap: how many clients are to enter
MaxClients == 9
\* Limits as given: unsigned, so -1 is the largest.
RMax(u) == TLCEval([i \in 1..RandomElement({0, 1, 2, 2, 2, 2, 3}) |-> RandomElement({0, 1, 2, 3, 3, 4, 255, 256, 65536, 65537, 16777216, 0 - 1, 1, 2, 3})])
ROptions(u) == [max |-> RMax(0), ban |-> RandomElement(0..4), ftdm |-> RandomElement({0, 0, 1, 2, 2, 3}),
                limits |-> IF RPct(50) THEN Void ELSE
                    [main |-> [min |-> RandomElement(0..60), max |-> RandomElement(0 - 1..60)],
                     side |-> [min |-> RandomElement(0..15), max |-> RandomElement(0 - 1..15)]]]
\* Numbers of the generator; ties are frequent, the end is decided.
RRolls(u) == LET k == IF RPct(15) THEN RandomElement(IF RPct(40) THEN 15..40 ELSE 4..14) ELSE RandomElement({0, 0, 1, 2, 3})
                 tie(i) == LET f == RandomElement(0..5) IN <<f + 6 * RandomElement(0..10000000), f + 6 * RandomElement(0..10000000)>>
                 f == RandomElement(0..5)
                 g == RandomElement((0..5) \ {f})
             IN TLCEval(FlattenSeq([i \in 1..k |-> tie(i)])) \o <<f + 6 * RandomElement(0..10000000), g + 6 * RandomElement(0..10000000)>>
Someone(st) == IF RPct(8) THEN RandomElement(1..MaxClients) ELSE RandomElement(Everyone(st))
Unready(st) == Duelists(st) \ st.ready
Good(st) == (3 - (st.o.ban % 3)) + 1
\* The next thing on the way to a duel.
Progress(st, most) ==
    LET undecked == Duelists(st) \ st.valid
    IN IF Cardinality(Everyone(st)) < most /\ RPct(75) THEN [k |-> "enter", by |-> RandomElement((1..MaxClients) \ Everyone(st))]
       ELSE IF undecked # {} THEN [k |-> "deck", by |-> RandomElement(undecked), deck |-> Good(st)]
       ELSE IF Unready(st) # {} THEN [k |-> "ready", by |-> RandomElement(Unready(st)), v |-> 1]
       ELSE [k |-> "start", by |-> Host]
\* Two of three rooms hurry.
Hurried(st) == (st.rolls[1] \div 6) % 3 # 0
RAction(st, most) ==
    LET r == RandomElement(1..100) IN
    IF st.stage = "configuring" /\ Hurried(st) /\ RPct(70) THEN Progress(st, most)
    ELSE IF st.stage = "configuring" THEN
        CASE r <= 25 /\ Cardinality(Everyone(st)) < most -> [k |-> "enter", by |-> RandomElement((1..MaxClients) \ Everyone(st))]
          [] r <= 50 -> LET c == IF RPct(70) THEN RandomElement(Duelists(st)) ELSE Someone(st)
                        IN [k |-> "deck", by |-> c, deck |-> IF RPct(70) THEN Good(st) ELSE RandomElement(0..9)]
          [] r <= 75 -> LET c == IF RPct(60) /\ Unready(st) # {} THEN RandomElement(Unready(st)) ELSE Someone(st)
                        IN [k |-> "ready", by |-> c, v |-> IF RPct(75) THEN 1 ELSE 0]
          [] r <= 88 -> IF Prepared(st) /\ RPct(50) THEN [k |-> "ready", by |-> Someone(st), v |-> 0]
                        ELSE [k |-> "start", by |-> IF RPct(70) THEN Host ELSE Someone(st)]
          [] r <= 94 -> [k |-> "choose", by |-> IF RPct(50) THEN Host ELSE Someone(st), team |-> RandomElement({0, 1})]
          [] OTHER -> [k |-> "none", by |-> Someone(st), what |-> RandomElement(0..2)]
    ELSE CASE r <= 55 -> [k |-> "choose", by |-> IF RPct(60) THEN Host ELSE Someone(st), team |-> RandomElement({0, 1, 0, 1, 2, 3, 0 - 1, 256})]
           [] r <= 65 -> [k |-> "start", by |-> IF RPct(60) THEN Host ELSE Someone(st)]
           [] r <= 75 -> [k |-> "ready", by |-> Someone(st), v |-> RandomElement({0, 1})]
           [] r <= 85 -> [k |-> "deck", by |-> Someone(st), deck |-> RandomElement(0..9)]
           [] OTHER -> [k |-> "none", by |-> Someone(st), what |-> RandomElement(0..2)]

Stop == (n >= 12 /\ s.stage = "first" /\ RPct(12)) \/ (n >= 40 /\ RPct(8))
Inboxes(out) == [i \in 1..Len(out) |-> [to |-> SetToSeq(out[i].to), ev |-> out[i].ev]]
Init == n = 0 /\ s = <<>> /\ cap = 0 /\ a = <<>>
New == /\ n = 0 \/ a = [k |-> "over"]
       /\ n' = 1 /\ a' = <<>> /\ cap' = RandomElement(1..MaxClients)
       /\ \E o \in {ROptions(0)} : \E r \in {RRolls(0)} :
          LET x == Enter(NewRoom(o, r), Host) IN
          /\ s' = x.s
          /\ PrintT(ToJson([n |-> 1, act |-> "new", o |-> [max_duelists |-> o.max, deck_limits |-> o.limits,
                                                           banlist_id |-> <<"b" \o ToString(o.ban)>>, ftdm |-> o.ftdm],
                            rolls |-> r, out |-> Inboxes(x.out), all |-> SetToSeq(Everyone(x.s)), away |-> FALSE]))
Choose1 == /\ n > 0 /\ a = <<>> /\ UNCHANGED <<n, s, cap>>
           /\ \E x \in {RAction(s, cap)} : a' = IF Stop THEN [k |-> "over"] ELSE x
Do == /\ n > 0 /\ a # <<>> /\ a.k # "over" /\ n' = n + 1 /\ a' = <<>> /\ UNCHANGED cap
      /\ LET x == Step(s, a) IN
         /\ s' = x.s
         /\ PrintT(ToJson([n |-> n', act |-> a.k, by |-> a.by, sig |-> IF a.k = "enter" THEN Void ELSE Signal(a),
                           out |-> Inboxes(x.out), all |-> SetToSeq(Everyone(x.s)), stage |-> s.stage, away |-> OutOfPlace(s, a)]))
Next == New \/ Choose1 \/ Do
=============================================================================
