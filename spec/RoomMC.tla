------------------------------- MODULE RoomMC -------------------------------
(* Every history of a small room.                                            *)
EXTENDS Room
CONSTANTS Clients,     \* how many
          MaxGiven,    \* set of the limits tried
          Kinds        \* of actions
VARIABLES s, seen, was, last
\* seen[c]: what c can tell from what it was sent: seats, ready, spectators,
\* host; was: whether everyone was ready ever (history); last: the last step.
vars == <<s, seen, was, last>>

Nobody == [duelists |-> {}, spectators |-> 0, stage |-> ""]
Learn(v, ev) ==
    IF "configuring" \in DOMAIN ev THEN
        LET e == ev.configuring IN
        CASE "entering_state" \in DOMAIN e -> [duelists |-> ToSet(e.entering_state.duelists),
                                              spectators |-> e.entering_state.spectator_count, stage |-> "configuring"]
          [] "duelist_enters" \in DOMAIN e -> [v EXCEPT !.duelists = @ \cup {e.duelist_enters}]
          [] "update_duelist" \in DOMAIN e -> LET d == e.update_duelist IN
                [v EXCEPT !.duelists = {x \in @ : <<x.team, x.pos>> # <<d.team, d.pos>>} \cup {d}]
          [] OTHER -> v
    ELSE IF "spectator_count" \in DOMAIN ev THEN [v EXCEPT !.spectators = ev.spectator_count[1]]
    ELSE IF "entering_state" \in DOMAIN ev.deciding_first_turn THEN [v EXCEPT !.stage = "first"] ELSE v
Inbox(out, c) == LET mine == SelectSeq(out, LAMBDA x : c \in x.to) IN [i \in 1..Len(mine) |-> mine[i].ev]
Told(old, out) == [c \in 1..Clients |-> FoldLeft(Learn, old[c], Inbox(out, c))]

Options == [max : [1..2 -> MaxGiven], ban : {0}, ftdm : 0..3, limits : {<<>>}]
Rolls == {<<3, 3, 5, 1>>, <<0, 5>>, <<7, 0>>}
Actions == [k : {"enter"}, by : 2..Clients] \cup [k : {"deck"}, by : 1..Clients, deck : {0, 1}]
           \cup [k : {"ready"}, by : 1..Clients, v : {0, 1}] \cup [k : {"start"}, by : 1..Clients]
           \cup [k : {"choose"}, by : 1..Clients, team : {0, 1, 2}] \cup [k : {"none"}, by : 1..Clients, what : 0..2]
May(a) == a.k = "enter" => a.by \notin Everyone(s) /\ (\A c \in 2..(a.by - 1) : c \in Everyone(s)) /\ s.stage = "configuring"

Init == \E o \in Options : \E r \in Rolls :
        LET x == Enter(NewRoom(o, r), Host)
        IN s = x.s /\ seen = Told([c \in 1..Clients |-> Nobody], x.out) /\ was = {} /\ last = <<>>
Next == \E a \in Actions : /\ a.k \in Kinds /\ May(a)
        /\ LET x == Step(s, a) IN
           /\ s' = x.s /\ seen' = Told(seen, x.out)
           /\ was' = IF a.k = "deck" /\ x.out # <<>>
                     THEN (IF Accepts(s.o.ban, a.deck) THEN was \cup {a.by} ELSE was \ {a.by}) ELSE was
           /\ last' = <<a, s, x.out>>
Spec == Init /\ [][Next]_vars
View == <<s, seen, was>>

\* Seating.
Seating ==
    /\ \A t \in Teams : Len(s.seats[t]) <= s.max[t + 1] /\ s.max[t + 1] \in 1..3
    /\ \A c \in Everyone(s) :
          Cardinality({x \in Teams \X (1..3) : x[2] <= Len(s.seats[x[1]]) /\ s.seats[x[1]][x[2]] = c})
          + (IF c \in s.spec THEN 1 ELSE 0) = 1
    /\ s.spec # {} => \A t \in Teams : ~HasRoom(s, t)
Fair == \A t \in Teams : Len(s.seats[t]) > Len(s.seats[1 - t]) + 1 => Len(s.seats[1 - t]) = s.max[2 - t]
\* Everyone knows the truth.
Actual == [duelists |-> ToSet(AllDuelists(s)), spectators |-> Cardinality(s.spec), stage |-> s.stage]
AllKnow == \A c \in Everyone(s) : seen[c] = Actual
\* The latest verdict decides; becoming ready needs it.
LatestDeck == s.valid = was
BecomesReady == [][\A c \in s'.ready \ s.ready : c \in was /\ last'[1].k = "ready" /\ last'[1].by = c]_vars
Starts == [][s.stage = "configuring" /\ s'.stage = "first" =>
                 /\ last'[1].k = "start" /\ last'[1].by = Host
                 /\ s.seats[0] # <<>> /\ s.seats[1] # <<>> /\ Duelists(s) \subseteq s.ready \cap was]_vars
\* Who is asked first, and what everyone is told about it.
Results(out) == SelectSeq(out, LAMBDA x : "deciding_first_turn" \in DOMAIN x.ev /\ "result" \in DOMAIN x.ev.deciding_first_turn)
Asked(out) == SelectSeq(out, LAMBDA x : "deciding_first_turn" \in DOMAIN x.ev /\ "decide_first_turn" \in DOMAIN x.ev.deciding_first_turn)
Decision == [][(s.stage # s'.stage /\ s.o.ftdm # 1) =>
    LET out == last'[3]  r == Results(out)  q == Asked(out) IN
    /\ Len(q) = 1 /\ Cardinality(q[1].to) = 1
    /\ IF s.o.ftdm = 0 THEN r = <<>> /\ q[1].to = {Host}
       ELSE /\ Len(r) = 1 /\ r[1].to = Everyone(s)
            /\ LET res == r[1].ev.deciding_first_turn.result  w == res.team_going_first IN
               /\ q[1].to = {s.seats[w][1]}
               /\ s.o.ftdm = 2 => LET d == res.dice.results IN
                    /\ \A i \in 1..Len(d) : d[i].team0 \in 1..6 /\ d[i].team1 \in 1..6
                    /\ \A i \in 1..(Len(d) - 1) : d[i].team0 = d[i].team1
                    /\ IF w = 0 THEN d[Len(d)].team0 > d[Len(d)].team1 ELSE d[Len(d)].team1 > d[Len(d)].team0
               /\ s.o.ftdm = 3 => res.coin_result[1] = w]_vars
Ignored == [][OutOfPlace(s, last'[1]) => s' = s /\ last'[3] = <<>>]_vars
=============================================================================
