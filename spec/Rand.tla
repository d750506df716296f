-------------------------------- MODULE Rand --------------------------------
(* Random choices.  (Definitions take a parameter they do not need: TLC      *)
(* evaluates definitions without parameters only once.)                      *)
EXTENDS Words, TLC, TLCExt, Randomization
RPct(p) == RandomElement(1..100) <= p
ROf(s) == s[RandomElement(1..Len(s))]
RBit(x) == RandomElement({0, 1})
\* A byte used as a truth value.
RTruth(x) == RandomElement({0, 0, 1, 1, 2, 255})
\* (Every single bit, and all but a single bit, are among the frequent values.)
RByte(x) == IF RPct(60) THEN RandomElement({0, 1, 2, 4, 8, 16, 32, 64, 127, 128, 254, 255}) ELSE RandomElement(0..255)
Bits15 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
RHalf(x) == IF RPct(25) THEN RandomElement({0, 1, 255, 256, 32767, 32768, 65535}) ELSE IF RPct(20) THEN ROf(Bits15) ELSE RandomElement(0..65535)
R32(x) == LET r == RandomElement(1..12) IN
          IF r > 10 THEN (IF r = 11 THEN ROf(Bits15) ELSE W_Make(ROf(Bits15), IF RBit(x) = 0 THEN 0 ELSE ROf(Bits15)))
          ELSE IF r <= 4 THEN RandomElement({0, 1, 2, 255, 256, 65535, 65536, 16777216, IntMax, IntMin, 0 - 1, 0 - 2})
          ELSE IF r <= 7 THEN RandomElement(0..100000000)
          ELSE IF r = 8 THEN RandomElement(1..IntMax) ELSE 0 - RandomElement(1..IntMax)
\* Lengths of lists: mostly short.
RLen(max) == IF RPct(15) THEN 0 ELSE IF RPct(70) THEN RandomElement(1..(IF max < 4 THEN max ELSE 4)) ELSE RandomElement(1..max)
\* TLCEval: otherwise a function is evaluated again wherever it is applied.
RSeq(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
\* Rarely, lists of more entries than fit a byte.
\* Of n entries; now and then all alike.
RSome(n, F(_)) == IF n > 1 /\ RPct(6) THEN LET v == F(0) IN TLCEval([i \in 1..n |-> v]) ELSE TLCEval([i \in 1..n |-> F(i)])
RListL(max, F(_)) == LET n == IF RPct(3) THEN RandomElement(256..280) ELSE RLen(max) IN RSome(n, F)
\* Lists counted by a byte, rarely of more entries than fit seven bits.
RListB(max, F(_)) == LET n == IF RPct(3) THEN RandomElement(128..255) ELSE RLen(max) IN RSome(n, F)
\* Up to max, often at either end, or past what a byte or seven bits hold.
RIdx(max) == LET S == {0, max} \cup ({127, 128, 255, 256} \cap 0..max) IN IF RPct(30) THEN RandomElement(S) ELSE RandomElement(0..max)
RList(max, F(_)) == LET n == RLen(max) IN RSome(n, F)
=============================================================================
