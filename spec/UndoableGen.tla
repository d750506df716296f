---------------------------- MODULE UndoableGen -----------------------------
(* Long random behaviours of a rewindable value: runs of assignments, runs   *)
(* of undoing, sometimes all the way back.                                   *)
EXTENDS Undoable
CONSTANTS Longest,     \* the longest run
          Forget       \* how often to forget, in percent
VARIABLES run
RRun(x) == [undo |-> RandomElement(1..100) <= 45,
            len |-> RandomElement({1, 2, 3, RandomElement(1..8), RandomElement(1..Longest)})]
GInit == Init /\ run = [undo |-> FALSE, len |-> Longest]
GNext == /\ Len(tr) < MaxLen
         /\ IF run.len = 0 \/ (run.undo /\ cur = 1) THEN \E r \in {RRun(0)} : run' = r /\ UNCHANGED <<vals, cur, tr>>
            ELSE /\ run' = [run EXCEPT !.len = @ - 1]
                 /\ IF RandomElement(1..100) <= Forget THEN Erase ELSE IF run.undo THEN Undo ELSE \E v \in {RandomElement(Vals)} : Assign(v)
                 /\ (Len(tr') = MaxLen) => PrintT(ToJson([n |-> 1, tr |-> tr']))
=============================================================================
