------------------------------ MODULE BoardGen ------------------------------
(* Random histories of events, going forward, back and forward again.        *)
(* The current board is always past[i + 1]: the history is a cursor.         *)
EXTENDS BoardRand, Json

CONSTANTS Weights, Cap,
          BackPct,  \* how often to go back or forth, in percent; 0: never
          ErasePct  \* how often to forget what is undone, in percent
VARIABLES n, i, past, script, act, goal, gone   \* gone: the kind of the first event just forgotten

FullPiles == <<1, 2, 16, 32, 64>>
FullZones == <<4, 8, 256, 512, 1024>>
FullZoneLim == (4 :> 7) @@ (8 :> 5) @@ (256 :> 1) @@ (512 :> 2) @@ (1024 :> 1)

W_scalar == <<"lp", "lp", "lp", "turn", "phase", "lp", "state", "chain", "block", "add", "other">>
W_events == <<"add", "add", "remove", "move", "move", "swap", "shuffle", "splice", "pswap", "exchange",
              "state", "chain", "chain", "block", "turn", "phase", "lp", "other">>
W_undo == <<"shuffle", "add", "add", "remove", "move", "move", "swap", "splice", "splice", "pswap", "exchange",
            "exchange", "state", "chain", "chain", "block", "turn", "phase", "lp", "other">>

Cur == past[i + 1]
Out(what, B) == PrintT(ToJson([n |-> n'] @@ what @@ [post |-> View(B)]))

Init == n = 0 /\ i = 0 /\ past = <<EmptyBoard>> /\ script = <<>> /\ act = <<>> /\ goal = 0 /\ gone = <<>>
Start == /\ n = 0 /\ n' = 1
         /\ \E a \in {RandAct(n)} : act' = a
         /\ UNCHANGED <<i, past, script, goal, gone>>
         /\ Out([act |-> "new", i |-> 0], EmptyBoard)
Forward(g) ==
    \E kind \in {IF gone # <<>> /\ Chance(60) THEN gone[1]
                 ELSE IF Len(Dump(Cur.f)) < 4 /\ Chance(40) THEN "add" ELSE Pick(Weights)} :
    \E ev \in {EvKind(kind, Cur, act, Cap)} :
    \E B \in {ParseEvent(Cur, ev)} :
        /\ past' = Append(past, B) /\ script' = Append(script, [kind |-> kind, ev |-> ev])
        /\ i' = i + 1 /\ goal' = i + 1 /\ gone' = <<>>
        /\ Out([act |-> "ev", kind |-> kind, ev |-> ev, i |-> i + 1], B)
Undo(g) == /\ i' = i - 1 /\ goal' = g /\ UNCHANGED <<past, script, gone>>
           /\ Out([act |-> "undo", ev |-> script[i].ev, kind |-> script[i].kind, i |-> i - 1], past[i])
Redo(g) == /\ i' = i + 1 /\ goal' = g /\ UNCHANGED <<past, script, gone>>
           /\ Out([act |-> "redo", ev |-> script[i + 1].ev, kind |-> script[i + 1].kind, i |-> i + 1], past[i + 2])
Erase == /\ past' = [SubSeq(past, 1, i + 1) EXCEPT ![i + 1].nid = past[Len(past)].nid] \* names are not used again
         /\ script' = SubSeq(script, 1, i)
         /\ goal' = i /\ UNCHANGED i
         /\ gone' = IF i < Len(script) THEN <<script[i + 1].kind>> ELSE <<>>
         /\ Out([act |-> "erase", i |-> i, undone |-> Len(script) - i], past[i + 1])
\* goal: the index being walked to; new events are only recorded at the end.
Step == /\ n > 0 /\ n' = n + 1 /\ act' = act
        /\ IF ErasePct > 0 /\ Chance(IF i < Len(script) /\ goal = i THEN ErasePct * 6 ELSE ErasePct) THEN Erase
           ELSE \E g \in {IF goal # i THEN goal
                     ELSE IF BackPct > 0 /\ Chance(BackPct)
                          THEN Pick(<<0, Len(script), RandomElement(0..Len(script)),
                                      IF i > 0 THEN i - 1 ELSE 0>>)
                          ELSE IF i < Len(script) THEN i + 1 ELSE i} :
              IF g < i THEN Undo(g)
              ELSE IF g > i THEN Redo(g)
              ELSE IF i = Len(script) THEN Forward(g)
              ELSE Redo(i + 1)
Next == Start \/ Step
=============================================================================
