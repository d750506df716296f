-------------------------- MODULE UndoableListGen --------------------------
EXTENDS UndoableList
\* Long random behaviours.
CONSTANTS Longest, Forget
RRun(x) == [undo |-> RandomElement(1..100) <= 45,
            len |-> RandomElement({1, 2, 3, RandomElement(1..8), RandomElement(1..Longest)})]
VARIABLES run
GInit == Init /\ run = [undo |-> FALSE, len |-> Longest]
GNext == /\ Len(tr) < MaxLen
         /\ IF run.len = 0 \/ (run.undo /\ cur = 1) THEN \E r \in {RRun(0)} : run' = r /\ UNCHANGED <<vals, cur, tr>>
            ELSE /\ run' = [run EXCEPT !.len = @ - 1]
                 /\ IF RandomElement(1..100) <= Forget THEN Erase
                    ELSE IF run.undo THEN Undo(RandomElement({"undo", "undo_push", "undo_pop"}))
                    ELSE IF RandomElement(1..100) <= 15 THEN \E s \in {RandomElement(Lists)} : Assign(s)
                    ELSE IF vals[cur] # <<>> /\ RandomElement(1..100) <= 40 THEN Pop
                    ELSE \E e \in {RandomElement(Elems)} : Push(e)
                 /\ (Len(tr') = MaxLen) => PrintT(ToJson([n |-> 1, tr |-> tr']))
=============================================================================
