------------------------------ MODULE Undoable ------------------------------
(* A rewindable value: a cursor over the values it was given.  Every         *)
(* behaviour of at most MaxLen steps is a state; its transcript is printed.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Vals, MaxLen, EMIT
VARIABLES vals, cur, tr

Init == vals = <<0>> /\ cur = 1 /\ tr = <<>>
Reading == vals[cur]
Assign(v) == /\ vals' = (IF cur = Len(vals) THEN Append(vals, v) ELSE vals)
             /\ cur' = cur + 1
             /\ tr' = Append(tr, [a |-> "set", v |-> v, r |-> vals'[cur']])
Undo == /\ cur > 1 /\ cur' = cur - 1 /\ vals' = vals
        /\ tr' = Append(tr, [a |-> "undo", v |-> 0, r |-> vals[cur - 1]])
Erase == /\ vals' = SubSeq(vals, 1, cur) /\ cur' = cur
         /\ tr' = Append(tr, [a |-> "erase", v |-> 0, r |-> vals[cur]])
Next == /\ Len(tr) < MaxLen
        /\ (Undo \/ Erase \/ \E v \in Vals : Assign(v))
        /\ (EMIT /\ Len(tr') = MaxLen) => PrintT(ToJson([tr |-> tr']))
Spec == Init /\ [][Next]_<<vals, cur, tr>>

\* What a cursor promises.
TypeOK == cur \in 1..Len(vals)
\* Undoing gives back what was read before, and assigning again moves on to
\* what was recorded.
RECURSIVE Reads(_, _)
Reads(t, k) == IF k = 0 THEN 0 ELSE t[k].r
UndoLaw == \A k \in 1..Len(tr) :
    tr[k].a = "undo" =>
       \E j \in 0..(k - 2) :
          /\ Reads(tr, j) = tr[k].r
          /\ tr[j + 1].a = "set"
          /\ \* j+1..k-1 is balanced
             Len(SelectSeq(SubSeq(tr, j + 2, k - 1), LAMBDA e : e.a = "set"))
               = Len(SelectSeq(SubSeq(tr, j + 2, k - 1), LAMBDA e : e.a = "undo"))
\* Forgetting changes nothing, and lets a new value be recorded.
ForgetLaw == \A k \in 1..Len(tr) : tr[k].a = "erase" =>
    /\ tr[k].r = Reads(tr, k - 1)
    /\ k < Len(tr) /\ tr[k + 1].a = "set" => tr[k + 1].r = tr[k + 1].v
NewLaw == (tr # <<>> /\ tr[Len(tr)].a = "set" /\ cur = Len(vals)
           /\ \A k \in 1..Len(tr) : tr[k].a = "set") => Reading = tr[Len(tr)].v
=============================================================================
