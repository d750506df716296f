----------------------------- MODULE AnswerGen ------------------------------
(* Random answers.                                                           *)
EXTENDS Answer, Rand, Json
VARIABLES n, x

RNo(m) == IF RPct(50) THEN RandomElement(0..7) ELSE IF RPct(40) THEN ROf(<<m, 127, 128, 255, 256, m>>) ELSE RandomElement(0..m)
\* An option's number takes the engine's whole 32 bits (but not the sign).
RWide(u) == IF RPct(60) THEN RNo(255) ELSE ROf(<<32767, 32768, 40000, 65535, 65536, 70000, 131072, 16777216, IntMax, RandomElement(0..1000000)>>)
RHow(u) == ROf(<<"unique_range", "limbo", "unique_tributes", "recursive">>)
RIdxs(u) == TLCEval([i \in 1..IF RPct(2) THEN RandomElement(250..280) ELSE RandomElement({1, 1, 2, 3, RandomElement(1..40)}) |-> RNo(32767)])
RPerm(m) == LET RECURSIVE P(_)
                P(S) == IF S = {} THEN <<>> ELSE LET e == RandomElement(S) IN <<e>> \o P(S \ {e})
            IN P(0..(m - 1))
ZB == {b \in 0..31 : b \notin {7, 23}}
RBits(u) == LET v == RandomElement({0, 1})  S == RandomSubset(RandomElement(1..6), ZB)
                q == SetToSeq(S)  o == RandomElement(1..Len(q))
            IN TLCEval([i \in 1..Len(q) |-> <<v, q[((i + o) % Len(q)) + 1]>>])
Kinds == <<"attribute", "position", "card_code", "effect", "number", "chain", "no_chain", "race", "rps", "yes_no",
           "cancel", "finish", "cards", "cards", "cards", "zones", "zones", "zones", "sort_skip", "sort", "shuffle",
           "phase", "phase", "action", "action", "action", "nothing">>
RChoice(k) ==
    CASE k \in {"attribute", "position", "card_code"} -> [k |-> k, v |-> R32(0)]
      [] k \in {"effect", "number", "chain"} -> [k |-> k, i |-> RWide(0)]
      [] k = "race" -> [k |-> k, lo |-> R32(0), hi |-> R32(1)]
      [] k = "rps" -> [k |-> k, v |-> RandomElement(1..3)]
      [] k = "yes_no" -> [k |-> k, v |-> RBit(0)]
      [] k \in {"cancel", "finish"} -> [k |-> k, how |-> RHow(0)]
      [] k = "cards" -> LET h == RHow(0) IN [k |-> k, how |-> h, idx |-> IF h = "recursive" THEN <<RWide(0)>> ELSE RIdxs(0)]
      [] k = "zones" -> [k |-> k, bits |-> RBits(0)]
      [] k = "sort" -> [k |-> k, idx |-> RPerm(IF RPct(5) THEN RandomElement({127, 128, 129, 255}) ELSE RandomElement({1, 2, 3, 5, RandomElement(1..20)}))]
      [] k \in {"no_chain", "sort_skip"} -> [k |-> k]
      [] k = "shuffle" -> [k |-> k, battle |-> 0]
      [] k = "phase" -> LET b == RBit(0) IN [k |-> k, battle |-> b, v |-> IF RPct(50) THEN 512 ELSE IF b = 1 THEN 256 ELSE 128]
      [] k = "action" -> LET b == RBit(0) IN
            [k |-> k, battle |-> b, i |-> RNo(65535),
             a |-> IF b = 1 THEN ROf(<<"activate", "attack">>)
                   ELSE ROf(<<"activate", "summon", "spsummon", "reposition", "mset", "sset">>)]
      [] k = "nothing" -> [k |-> k, what |-> ROf(Nothing)]
RJunk(u) == TLCEval([i \in 1..RandomElement({0, 0, 1, 3, 4, 8, 12, 60}) |-> RandomElement(0..255)])

Init == n = 0 /\ x = [k |-> ""]
Choose == x.k = "" /\ UNCHANGED n /\ \E k \in {ROf(Kinds)} : x' = RChoice(k)
Send == /\ x.k # "" /\ x' = [k |-> ""] /\ n' = n + 1
        /\ \E junk \in {RJunk(0)} :
           PrintT(ToJson([n |-> n', choice |-> x, req |-> Asks(x), ans |-> Ans(x), before |-> junk,
                          out |-> IF Touches(x) THEN Response(x) ELSE junk]))
Next == Choose \/ Send
=============================================================================
