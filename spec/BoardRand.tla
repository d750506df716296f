----------------------------- MODULE BoardRand -----------------------------
(* Random well-formed events.                                                *)
EXTENDS Board, FrameRand

RWord(x) == RandomElement({0, 1, 2, 100, 1000, 8000, 65535, 65536, 2147483647, 0 - 1, 0 - 2,
                           IntMin, RandomElement(0..20000), RandomElement(1..IntMax), 0 - RandomElement(1..IntMax)})
RLp(x) == IF Chance(70) THEN RandomElement(0..9000) ELSE RWord(x)
RPhase(x) == RandomElement({0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512})
RReason(x) == LET r == RandomElement(1..3) IN
              IF r = 1 THEN "0:0" ELSE ToString(RWord(x)) \o ":" \o ToString(RWord(x))
RAnyPlace(x) == IF Chance(50)
                THEN LET k == RandomElement(ZoneKeys) IN <<k[1], k[2], k[3], Pick(<<NoOseq, NoOseq, 0, 1>>)>>
                ELSE LET k == RandomElement(PileKeys) IN <<k[1], k[2], RandomElement(0..40), NoOseq>>
RChain(x) == [card_place |-> RAnyPlace(x), place |-> RAnyPlace(x),
              effect |-> [code |-> RandomElement(1..99999999), index |-> RandomElement(1..20)]]

\* k operations of one kind, each well formed after the ones before.
\* acc: [B, ops]
RECURSIVE GenRun(_, _, _, _, _)
GenRun(acc, kind, act, k, cap) ==
    IF k = 0 THEN acc
    ELSE LET D == Dump(acc.B.f)
             op == GenKind(kind, acc.B.f, act, D, cap)
         IN IF op.k = kind /\ WFOp(acc.B.f, op) /\ (kind # "add" \/ Len(D) < cap)
            THEN GenRun([B |-> Do(acc.B, op), ops |-> Append(acc.ops, op)], kind, act, k - 1, cap)
            ELSE GenRun(acc, kind, act, k - 1, cap)
Run(B, kind, act, k, cap) == GenRun([B |-> B, ops |-> <<>>], kind, act, k, cap)

PlacesIn(ops) == [i \in 1..Len(ops) |-> ops[i].a]
ResizesIn(ops) == [i \in 1..Len(ops) |-> [place |-> ops[i].a, count |-> ops[i].n]]

EvAdd(B, act, cap) == [card |-> [add |-> [places |-> PlacesIn(Run(B, "add", act, RandomElement(0..4), cap).ops)],
                                 reason |-> RReason(0)]]
EvRemove(B, act, cap) == [card |-> [remove |-> [places |-> PlacesIn(Run(B, "remove", act, RandomElement(1..4), cap).ops)],
                                    reason |-> RReason(0)]]
EvMove(B, act, cap) == LET o == Run(B, "move", act, RandomElement(1..4), cap).ops
    IN [card |-> [move |-> [ops |-> [i \in 1..Len(o) |-> [old_place |-> o[i].a, new_place |-> o[i].b]]],
                  reason |-> RReason(0)]]
EvSwap(B, act, cap) == LET o == Run(B, "swap", act, RandomElement(1..3), cap).ops
    IN [card |-> [exchange |-> [ops |-> [i \in 1..Len(o) |-> [place_a |-> o[i].a, place_b |-> o[i].b]]],
                  reason |-> RReason(0)]]
EvShuffle(B, act, cap) == LET o == GenShuffle(B.f, act)
    IN [card |-> [shuffle |-> [previous_places |-> o.prev, current_places |-> o.cur]]]
EvSplice(B, act, cap) == LET o == Run(B, "splice", act, RandomElement(1..3), cap).ops
    IN [pile |-> [splice |-> [ops |-> [i \in 1..Len(o) |->
          [from |-> o[i].a, count |-> o[i].n, to |-> o[i].b, reverse |-> o[i].rev]]], reason |-> RReason(0)]]
EvPSwap(B, act, cap) == LET o == Run(B, "pswap", act, RandomElement(1..2), cap).ops
    IN [pile |-> [exchange |-> [ops |-> [i \in 1..Len(o) |-> [place_a |-> o[i].a, place_b |-> o[i].b]]]]]
EvExchange(B, act, cap) ==
    LET x == Run(B, "resize", act, RandomElement(0..2), cap)
        y == Run(x.B, "remove", act, RandomElement(0..3), cap)
        z == Run(y.B, "add", act, RandomElement(0..3), cap)
    IN [board |-> [exchange |-> [con |-> RandomElement({0, 1}), resize |-> [ops |-> ResizesIn(x.ops)],
                                 remove |-> [places |-> PlacesIn(y.ops)], add |-> [places |-> PlacesIn(z.ops)]]]]
EvState(B, act, cap) ==
    LET e == Do(B, [k |-> "clear"])
        x == Run(e, "add", act, RandomElement(0..8), cap)
        y == Run(x.B, "resize", act, RandomElement(0..3), cap)
        n == RandomElement(0..3)
    IN [board |-> [state |->
          [turn_counter |-> RandomElement({0, 0 - 1, 5, RandomElement(1..IntMax), IntMin}),
           lps |-> <<RLp(1), RLp(2)>>,
           chains |-> [i \in 1..n |-> RChain(i)],
           add |-> [places |-> PlacesIn(x.ops)], resize |-> [ops |-> ResizesIn(y.ops)]]]]
EvChain(B) == IF B.chain # <<>> /\ Chance(45) THEN [chain_stack |-> [pop |-> <<1>>]]
              ELSE [chain_stack |-> [push |-> RChain(0)]]
EvTurn(x) == [next_turn |-> <<RandomElement({0, 1})>>]
EvPhase(x) == [next_phase |-> <<RPhase(x)>>]
EvLp(B) == LET c == RandomElement({0, 1})
               v == B.lp[c + 1]
               kind == RandomElement({"become", "damage", "damage", "pay", "recover"})
               amount == IF Chance(30) THEN Pick(<<v, W_Add(v, 1), W_Sub(v, 1)>>) ELSE RLp(0)
           IN [lp |-> IF Chance(6) THEN [controller |-> c] ELSE ([controller |-> c] @@ (kind :> <<amount>>))]
EvBlock(x) == LET n == RandomElement(0..5)
              IN [zone_block |-> [zones |-> [i \in 1..n |-> RAnyPlace(i)]]]
EvOther(x) == Pick(<<
    [finish |-> [winner |-> <<RandomElement({0, 1})>>, win_reason |-> RandomElement(1..30)]],
    [meta |-> [attack |-> [attacker |-> RAnyPlace(1), attack_target |-> RAnyPlace(2)]]],
    [meta |-> [confirm |-> [places |-> <<RAnyPlace(1), RAnyPlace(2)>>]]],
    [meta |-> [shuffle_pile |-> [places |-> <<<<0, 2, 0, NoOseq>>>>]]],
    [meta |-> [chain_status |-> <<2>>]],
    [meta |-> [update |-> [places |-> <<RAnyPlace(1)>>]]],
    [result |-> [dice |-> [actor |-> 1, values |-> <<1, 6>>]]],
    [result |-> [coin |-> [actor |-> 1, values |-> <<1, 0>>]]]>>)

EvKind(kind, B, act, cap) ==
    CASE kind = "add" -> EvAdd(B, act, cap)
      [] kind = "remove" -> EvRemove(B, act, cap)
      [] kind = "move" -> EvMove(B, act, cap)
      [] kind = "swap" -> EvSwap(B, act, cap)
      [] kind = "shuffle" -> EvShuffle(B, act, cap)
      [] kind = "splice" -> EvSplice(B, act, cap)
      [] kind = "pswap" -> EvPSwap(B, act, cap)
      [] kind = "exchange" -> EvExchange(B, act, cap)
      [] kind = "state" -> EvState(B, act, cap)
      [] kind = "chain" -> EvChain(B)
      [] kind = "turn" -> EvTurn(0)
      [] kind = "phase" -> EvPhase(0)
      [] kind = "lp" -> EvLp(B)
      [] kind = "block" -> EvBlock(0)
      [] OTHER -> EvOther(0)
=============================================================================
