------------------------------- MODULE Limbo -------------------------------
(* The rewindable frame, as designed: cards never go away, and operations    *)
(* that create, remove or displace cards are noted in a log with a cursor.   *)
(* A state is [b, log, op, proc]: the board, the log, the number of log      *)
(* entries in effect, and the number of entries recorded.                    *)
EXTENDS Frame

EmptyLimbo == [b |-> EmptyFrame, log |-> <<>>, op |-> 0, proc |-> 0]

Logged(o) == o.k \in {"add", "remove", "resize", "clear"}
Tail_(s, k) == SubSeq(s, k + 1, Len(s))

L_New(L) == L.op = L.proc
\* Advance over a log entry: record e if at the end, else keep (or update) it.
L_Adv(L, b, e) == [b |-> b, op |-> L.op + 1,
                   proc |-> IF L_New(L) THEN L.proc + 1 ELSE L.proc,
                   log |-> IF L_New(L) THEN Append(L.log, e) ELSE [L.log EXCEPT ![L.op + 1] = e]]

\* Doing an operation; ids are names for new cards, used only when recording.
L_Do(L, o, ids) ==
    CASE o.k = "add" ->
           LET c == IF L_New(L) THEN ids[1] ELSE L.log[L.op + 1].card
           IN L_Adv(L, PutCard(L.b, o.a, c), [k |-> "card", card |-> c])
      [] o.k = "remove" ->
           L_Adv(L, TakeCard(L.b, o.a), [k |-> "card", card |-> CardAt(L.b, o.a)])
      [] o.k = "resize" ->
           LET s == L.b.p[PK(o.a)]
               slice == IF o.n > Len(s)
                        THEN (IF L_New(L) THEN <<>> ELSE L.log[L.op + 1].slice)
                        ELSE Tail_(s, o.n)
               added == IF o.n > Len(s)
                        THEN (IF L_New(L) THEN SubSeq(ids, 1, o.n - Len(s)) ELSE slice)
                        ELSE <<>>
               s2 == IF o.n > Len(s) THEN s \o added ELSE SubSeq(s, 1, o.n)
           IN L_Adv(L, [L.b EXCEPT !.p[PK(o.a)] = s2],
                    [k |-> "resize", prev |-> Len(s), slice |-> slice])
      [] o.k = "clear" ->
           L_Adv(L, IF L_New(L) THEN EmptyFrame ELSE L.log[L.op + 1].saved, [k |-> "clear", saved |-> L.b])
      [] OTHER -> [L EXCEPT !.b = ApplyOp(L.b, o, <<>>)]

\* Undoing it, given the operation.
L_Undo(L, o) ==
    CASE o.k = "add" -> [L EXCEPT !.b = TakeCard(L.b, o.a), !.op = @ - 1]
      [] o.k = "remove" -> [L EXCEPT !.b = PutCard(L.b, o.a, L.log[L.op].card), !.op = @ - 1]
      [] o.k = "resize" ->
           LET s == L.b.p[PK(o.a)]
               e == L.log[L.op]
           IN IF Len(s) < e.prev
              THEN [L EXCEPT !.b.p[PK(o.a)] = s \o e.slice, !.op = @ - 1]
              ELSE [L EXCEPT !.b.p[PK(o.a)] = SubSeq(s, 1, e.prev),
                             !.log[L.op].slice = Tail_(s, e.prev), !.op = @ - 1]
      [] o.k = "clear" -> [L EXCEPT !.b = L.log[L.op].saved, !.log[L.op].saved = L.b, !.op = @ - 1]
      [] o.k = "move" -> [L EXCEPT !.b = MoveCard(L.b, o.b, o.a)]
      [] o.k = "splice" -> [L EXCEPT !.b = Splice(L.b, o.b, o.n, o.a, o.rev = 1)]
      [] o.k = "swap" -> [L EXCEPT !.b = SwapCards(L.b, o.a, o.b)]
      [] o.k = "pswap" -> [L EXCEPT !.b = PileSwap(L.b, o.a, o.b)]
      [] o.k = "shuffle" -> [L EXCEPT !.b = UnShuffle(L.b, o.prev, o.cur)]

L_Erase(L) == IF L.op = L.proc THEN L ELSE [L EXCEPT !.log = SubSeq(@, 1, L.op), !.proc = L.op]
=============================================================================
