------------------------------- MODULE Words -------------------------------
(* Machine words.  TLC integers are 32 bit signed and overflow is an error,  *)
(* so a 32 bit word is written as the signed integer with the same bits (the *)
(* mapping is a bijection) and arithmetic is done on 16 bit limbs.           *)
EXTENDS Integers, Sequences

IntMin == (0 - 2147483647) - 1
IntMax == 2147483647

W_Lo(x) == x % 65536                    \* 0..65535
W_Hi(x) == x \div 65536                 \* -32768..32767 (floor)
W_Fold(h) == ((h + 32768) % 65536) - 32768
W_Make(h, l) == W_Fold(h) * 65536 + l

\* Addition, subtraction and order of unsigned 32 bit words.
W_Add(a, b) == LET l == W_Lo(a) + W_Lo(b)
               IN W_Make(W_Hi(a) + W_Hi(b) + (l \div 65536), l % 65536)
W_Sub(a, b) == LET l == W_Lo(a) - W_Lo(b)
               IN W_Make(W_Hi(a) - W_Hi(b) + (l \div 65536), l % 65536)
W_UHi(a) == W_Hi(a) % 65536
W_ULt(a, b) == \/ W_UHi(a) < W_UHi(b)
               \/ W_UHi(a) = W_UHi(b) /\ W_Lo(a) < W_Lo(b)

\* Little endian bytes.
W_Byte(x, i) == CASE i = 0 -> x % 256
                  [] i = 1 -> (x \div 256) % 256
                  [] i = 2 -> (x \div 65536) % 256
                  [] i = 3 -> (x \div 16777216) % 256
B1(x) == <<x % 256>>
B2(x) == <<x % 256, (x \div 256) % 256>>
B4(x) == <<W_Byte(x, 0), W_Byte(x, 1), W_Byte(x, 2), W_Byte(x, 3)>>
\* 64 bit words are pairs <<low, high>> of 32 bit words.
B8(w) == B4(w[1]) \o B4(w[2])

\* Bit i (0 is the least significant) of a word.
W_Pow2 == [i \in 0..30 |-> 2^i]
W_Bit(x, i) == IF i = 31 THEN (IF x < 0 THEN 1 ELSE 0)
               ELSE (x \div W_Pow2[i]) % 2
=============================================================================
