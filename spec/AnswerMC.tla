------------------------------ MODULE AnswerMC ------------------------------
(* Laws of answers, one case per state: the engine, which knows what it      *)
(* asked, reads from the bytes exactly what was chosen; different choices to *)
(* the same request are different bytes; a zone answered is one offered.     *)
EXTENDS Answer
CONSTANT Size
VARIABLE x

S2 == 0..1
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Vals == {0, 1, 2, 255, 256, 65535, 65536, IntMax, IntMin, 0 - 2, 0 - 1}
Nos == {0, 1, 2, 127, 128, 255, 256, 1000, 32767}
Wide == Nos \cup {32768, 65535, 65536, 16777216, IntMax}
Bits == {b \in 0..31 : b \notin {7, 23}}
Asked(u) ==
    {[k |-> k, v |-> v] : k \in {"attribute", "position", "card_code"}, v \in Vals}
    \cup {[k |-> k, i |-> i] : k \in {"effect", "number", "chain"}, i \in Wide}
    \cup {[k |-> "no_chain"], [k |-> "sort_skip"]}
    \cup {[k |-> "race", lo |-> l, hi |-> h] : l \in Vals, h \in Vals}
    \cup {[k |-> "rps", v |-> v] : v \in 1..3} \cup {[k |-> "yes_no", v |-> v] : v \in S2}
    \cup {[k |-> k, how |-> h] : k \in {"cancel", "finish"}, h \in {"unique_range", "limbo", "unique_tributes", "recursive"}}
    \cup {[k |-> "cards", how |-> h, idx |-> s] : h \in {"unique_range", "limbo", "unique_tributes"}, s \in Seqs(Nos, Size)}
    \cup {[k |-> "cards", how |-> "recursive", idx |-> <<i>>] : i \in Wide}
    \cup {[k |-> "zones", bits |-> s] : s \in {t \in Seqs(S2 \X Bits, 2) : Len(t) = 1 \/ t[1][1] = t[2][1]}}
    \cup {[k |-> "sort", idx |-> s] : s \in UNION {{t \in [1..n -> 0..(n - 1)] : \A i, j \in 1..n : t[i] = t[j] => i = j} : n \in 1..(Size + 1)}}
    \cup {[k |-> "shuffle", battle |-> 0]}
    \cup {[k |-> "phase", battle |-> 0, v |-> v] : v \in {128, 512}}
    \cup {[k |-> "phase", battle |-> 1, v |-> v] : v \in {256, 512}}
    \cup {[k |-> "action", battle |-> 0, a |-> Actions[i], i |-> n] : i \in 1..6, n \in Nos \cup {32768, 65535}}
    \cup {[k |-> "action", battle |-> 1, a |-> a, i |-> n] : a \in {"activate", "attack"}, n \in Nos \cup {32768, 65535}}

\* The engine's reading.
I4(b, at) == W_Make(W_Fold(b[at + 2] + 256 * b[at + 3]), b[at] + 256 * b[at + 1])
I2(b, at) == b[at] + 256 * b[at + 1]
Reads(b) ==
    CASE x.k \in {"attribute", "position", "card_code", "rps", "yes_no"} -> [x EXCEPT !.v = I4(b, 1)]
      [] x.k \in {"effect", "number"} -> [x EXCEPT !.i = I4(b, 1)]
      [] x.k = "race" -> [x EXCEPT !.lo = I4(b, 1), !.hi = I4(b, 5)]
      [] x.k \in {"chain", "no_chain"} -> IF I4(b, 1) = 0 - 1 THEN [k |-> "no_chain"] ELSE [k |-> "chain", i |-> I4(b, 1)]
      [] x.k \in {"cancel", "finish"} -> IF I4(b, 1) = 0 - 1 THEN x ELSE [k |-> "?"]
      [] x.k = "cards" ->
            IF x.how = "recursive" THEN IF I4(b, 1) = 1 THEN [x EXCEPT !.idx = <<I4(b, 5)>>] ELSE [k |-> "?"]
            ELSE IF I4(b, 1) # 1 THEN [k |-> "?"]
            ELSE [x EXCEPT !.idx = [i \in 1..I4(b, 5) |-> I2(b, 7 + 2 * i)]]
      [] x.k = "zones" ->
            [x EXCEPT !.bits = [i \in 1..(Len(b) \div 3) |->
                LET con == b[3 * i - 2]  v == x.bits[1][1]
                IN <<v, (IF con = v THEN 0 ELSE 16) + (IF b[3 * i - 1] = 4 THEN 0 ELSE 8) + b[3 * i]>>]]
      [] x.k \in {"sort", "sort_skip"} -> IF b = B4(0 - 1) THEN [k |-> "sort_skip"]
                                          ELSE [k |-> "sort", idx |-> [i \in 1..b[1] |-> b[i + 1]]]
      [] x.k \in {"shuffle", "phase", "action"} ->
            LET t == I2(b, 1)  i == I2(b, 3) IN
            IF x.battle = 1 THEN
                CASE t = 0 -> [k |-> "action", battle |-> 1, a |-> "activate", i |-> i]
                  [] t = 1 -> [k |-> "action", battle |-> 1, a |-> "attack", i |-> i]
                  [] t = 2 -> [k |-> "phase", battle |-> 1, v |-> 256]
                  [] t = 3 -> [k |-> "phase", battle |-> 1, v |-> 512]
            ELSE CASE t \in 0..5 -> [k |-> "action", battle |-> 0, i |-> i,
                                     a |-> <<"summon", "spsummon", "reposition", "mset", "sset", "activate">>[t + 1]]
                   [] t = 6 -> [k |-> "phase", battle |-> 0, v |-> 128]
                   [] t = 7 -> [k |-> "phase", battle |-> 0, v |-> 512]
                   [] t = 8 -> [k |-> "shuffle", battle |-> 0]

Understood == Reads(Response(x)) = x
\* The place shown for a bit is the one the engine's answer is about, and it
\* is offered exactly when the bit is clear.
Offered == x.k = "zones" =>
    \A i \in 1..Len(x.bits) :
        LET z == x.bits[i]  p == ZonePlace(z)  e == EngPos(p)
        IN /\ <<e.con, e.loc, e.seq>> = ZoneBytes(z)
           /\ \E j \in 1..Len(Unpack((0..31) \ {z[2]}, z[1])) : Unpack((0..31) \ {z[2]}, z[1])[j] = p
           /\ \A j \in 1..Len(Unpack({z[2]}, z[1])) : Unpack({z[2]}, z[1])[j] # p
Init == x \in Asked(0)
Spec == Init /\ [][FALSE]_x
=============================================================================
