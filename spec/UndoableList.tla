---------------------------- MODULE UndoableList ----------------------------
(* A rewindable list: a cursor over the lists it has been.  Assigning,       *)
(* pushing and popping all move forward: to a new list at the end, to the    *)
(* list recorded there otherwise.                                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Elems, Lists, MaxLen, EMIT
VARIABLES vals, cur, tr

ShortLists == {<<>>, <<1>>, <<0, 1>>}
LongLists == {<<>>, <<1>>, <<0, 1>>, <<2, 2, 2>>, [i \in 1..40 |-> i % 3]}

Init == vals = <<<<>>>> /\ cur = 1 /\ tr = <<>>
AtEnd == cur = Len(vals)
Go(what, v) == /\ vals' = (IF AtEnd THEN Append(vals, v) ELSE vals)
               /\ cur' = cur + 1
               /\ tr' = Append(tr, what @@ [r |-> vals'[cur']])
Assign(s) == Go([a |-> "set", l |-> s], s)
Push(e) == Go([a |-> "push", l |-> <<e>>], Append(vals[cur], e))
\* What is popped while rewound is what was popped then: there is nothing to
\* pop from an empty list.
Pop == vals[cur] # <<>> /\ Go([a |-> "pop", l |-> <<>>], SubSeq(vals[cur], 1, Len(vals[cur]) - 1))
Undo(how) == /\ cur > 1 /\ cur' = cur - 1 /\ vals' = vals
             /\ tr' = Append(tr, [a |-> how, l |-> <<>>, r |-> vals[cur - 1]])
Erase == /\ vals' = SubSeq(vals, 1, cur) /\ cur' = cur
         /\ tr' = Append(tr, [a |-> "erase", l |-> <<>>, r |-> vals[cur]])
Act == \/ \E s \in Lists : Assign(s)
       \/ \E e \in Elems : Push(e)
       \/ Pop \/ Undo("undo") \/ Erase
Next == /\ Len(tr) < MaxLen /\ Act
        /\ (EMIT /\ Len(tr') = MaxLen) => PrintT(ToJson([tr |-> tr']))
Spec == Init /\ [][Next]_<<vals, cur, tr>>

TypeOK == cur \in 1..Len(vals)
\* As the property says it, of every step.
Steps == [][LET e == tr'[Len(tr')] IN
    CASE e.a = "erase" -> e.r = vals[cur] /\ Len(vals') = cur
      [] e.a = "undo" -> e.r = vals[cur - 1]
      [] AtEnd /\ e.a = "set" -> e.r = e.l
      [] AtEnd /\ e.a = "push" -> e.r = vals[cur] \o e.l
      [] AtEnd /\ e.a = "pop" -> vals[cur] = Append(e.r, vals[cur][Len(vals[cur])])
      [] OTHER -> e.r = vals[cur + 1]]_<<vals, cur, tr>>
=============================================================================
