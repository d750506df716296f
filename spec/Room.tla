-------------------------------- MODULE Room --------------------------------
(* A room: who sits where, who is ready, and what each participant is told.  *)
(* Clients are numbers; client 1 is the host.  Step(s, a) is [s, out]: the   *)
(* state after action a and what was sent, in order: [to |-> set of clients, *)
(* ev |-> event].                                                            *)
(*   [k |-> "enter", by]                                                     *)
(*   [k |-> "deck", by, deck]      [k |-> "ready", by, v]   [k |-> "start"]  *)
(*   [k |-> "choose", by, team]                                              *)
(*   [k |-> "none", by, what]      a signal without contents                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Teams == {0, 1}
Host == 1
Clamp(v) == IF v < 0 \/ v > 3 THEN 3 ELSE IF v < 1 THEN 1 ELSE v   \* (as unsigned)
MaxOf(given) == [i \in 1..2 |-> IF i <= Len(given) THEN Clamp(given[i]) ELSE 1]

\* options: [max: as given, ban: banlist number, ftdm, limits]
NewRoom(o, rolls) == [stage |-> "configuring", o |-> o, max |-> MaxOf(o.max),
                      seats |-> [t \in Teams |-> <<>>], valid |-> {}, ready |-> {}, spec |-> {}, rolls |-> rolls]
\* seats[t]: the clients in the team by position (nobody leaves, so the lowest
\* free position is the next one).
Duelists(s) == ToSet(s.seats[0]) \cup ToSet(s.seats[1])
Everyone(s) == Duelists(s) \cup s.spec
SeatOf(s, c) == CHOOSE x \in Teams \X (1..3) : x[2] <= Len(s.seats[x[1]]) /\ s.seats[x[1]][x[2]] = c
HasRoom(s, t) == Len(s.seats[t]) < s.max[t + 1]
\* The team a newcomer goes to, 2 for none.
TeamFor(s) == LET less == IF Len(s.seats[1]) < Len(s.seats[0]) THEN 1 ELSE 0
              IN IF HasRoom(s, less) THEN less ELSE IF HasRoom(s, 1 - less) THEN 1 - less ELSE 2

\* The validator's verdict on a deck under a banlist.
Accepts(ban, deck) == (deck + ban) % 3 # 0
Verdict(ban, deck) == [invalid_card |-> [cards |-> <<deck>>], out_of_limit |-> [expected |-> ban, got |-> deck]]

-----------------------------------------------------------------------------
(* Events *)
Conf(x) == [configuring |-> x]
First(x) == [deciding_first_turn |-> x]
Truth(b) == IF b THEN 1 ELSE 0
Void == [u \in {"_"} |-> 0]
UserOf(c) == [id |-> "id" \o ToString(c), name |-> "u" \o ToString(c)]
DuelistMsg(s, c) == LET x == SeatOf(s, c)
                    IN [team |-> x[1], pos |-> x[2] - 1, user |-> UserOf(c), is_host |-> Truth(c = Host),
                        is_ready |-> Truth(c \in s.ready)]
AllDuelists(s) == LET side(t) == [i \in 1..Len(s.seats[t]) |-> DuelistMsg(s, s.seats[t][i])] IN side(0) \o side(1)
OptionsMsg(s) == [max_duelists |-> s.max, deck_limits |-> s.o.limits, banlist_id |-> <<"b" \o ToString(s.o.ban)>>, ftdm |-> s.o.ftdm]
Snapshot(s) == Conf([entering_state |-> [options |-> OptionsMsg(s), duelists |-> AllDuelists(s), spectator_count |-> Cardinality(s.spec)]])
Send(to, ev) == [to |-> to, ev |-> ev]

-----------------------------------------------------------------------------
Same(s) == [s |-> s, out |-> <<>>]

Enter(s, c) ==
    IF s.stage # "configuring" THEN Same(s)      \* (not built: a room past configuring takes nobody in)
    ELSE LET t == TeamFor(s)
             n == IF t = 2 THEN [s EXCEPT !.spec = @ \cup {c}] ELSE [s EXCEPT !.seats[t] = Append(@, c)]
             ev == IF t = 2 THEN [spectator_count |-> <<Cardinality(n.spec)>>] ELSE Conf([duelist_enters |-> DuelistMsg(n, c)])
         IN [s |-> n, out |-> <<Send({c}, Snapshot(s)), Send(Everyone(n), ev)>>]

Deck(s, c, deck) ==
    IF s.stage # "configuring" \/ c \notin Duelists(s) THEN Same(s)
    ELSE LET ok == Accepts(s.o.ban, deck)
             st == IF ok THEN Void ELSE [deck_error |-> Verdict(s.o.ban, deck)]
         IN [s |-> [s EXCEPT !.valid = IF ok THEN @ \cup {c} ELSE @ \ {c}], out |-> <<Send({c}, Conf([deck_status |-> st]))>>]

ReadyStep(s, c, v) ==
    IF s.stage # "configuring" \/ c \notin Duelists(s) \/ v = Truth(c \in s.ready) \/ (v = 1 /\ c \notin s.valid) THEN Same(s)
    ELSE LET n == [s EXCEPT !.ready = IF v = 1 THEN @ \cup {c} ELSE @ \ {c}]
         IN [s |-> n, out |-> <<Send(Everyone(n), Conf([update_duelist |-> DuelistMsg(n, c)]))>>]

\* The next number of the generator, and the faces rolled.
Pair(s) == <<(s.rolls[1] % 6) + 1, (s.rolls[2] % 6) + 1>>
RECURSIVE Rolling(_)
Rolling(rolls) == LET p == <<(rolls[1] % 6) + 1, (rolls[2] % 6) + 1>>
                  IN IF p[1] # p[2] THEN <<p>> ELSE <<p>> \o Rolling(SubSeq(rolls, 3, Len(rolls)))
Prepared(s) == /\ \A t \in Teams : s.seats[t] # <<>>
               /\ Duelists(s) \subseteq (s.valid \cap s.ready)
Ask(c) == Send({c}, First([decide_first_turn |-> <<1>>]))
Start(s, c) ==
    IF s.stage # "configuring" \/ c # Host \/ ~Prepared(s) THEN Same(s)
    ELSE LET n == [s EXCEPT !.stage = "first"]
             told == Send(Everyone(n), First([entering_state |-> Void]))
             result(r) == Send(Everyone(n), First([result |-> r]))
             ps == Rolling(n.rolls)
             die == IF ps[Len(ps)][1] > ps[Len(ps)][2] THEN 0 ELSE 1
             coin == n.rolls[1] % 2
         IN [s |-> n, out |->
              CASE s.o.ftdm = 0 -> <<told, Ask(Host)>>
                [] s.o.ftdm = 1 -> <<told>>               \* (not built)
                [] s.o.ftdm = 2 -> <<told, result([team_going_first |-> die,
                                       dice |-> [results |-> [i \in 1..Len(ps) |-> [team0 |-> ps[i][1], team1 |-> ps[i][2]]]]]),
                                     Ask(s.seats[die][1])>>
                [] s.o.ftdm = 3 -> <<told, result([team_going_first |-> coin, coin_result |-> <<coin>>]), Ask(s.seats[coin][1])>>]

Choose(s, c, team) ==
    IF s.stage # "first" \/ s.o.ftdm # 0 \/ c # Host \/ team \notin Teams THEN Same(s)
    ELSE [s |-> s, out |-> <<Send(Everyone(s), First([result |-> [team_going_first |-> team]]))>>]

Step(s, a) ==
    CASE a.k = "enter" -> Enter(s, a.by)
      [] a.k = "deck" -> Deck(s, a.by, a.deck)
      [] a.k = "ready" -> ReadyStep(s, a.by, a.v)
      [] a.k = "start" -> Start(s, a.by)
      [] a.k = "choose" -> Choose(s, a.by, a.team)
      [] a.k = "none" -> Same(s)

\* A signal that is out of turn or out of role, told from stage and roles alone.
OutOfPlace(s, a) ==
    \/ a.k = "none"
    \/ a.k \in {"deck", "ready", "start"} /\ s.stage # "configuring"
    \/ a.k = "choose" /\ s.stage # "first"
    \/ a.k \in {"deck", "ready"} /\ a.by \notin Duelists(s)
    \/ a.k \in {"start", "choose"} /\ a.by # Host

\* The signal itself.
Signal(a) ==
    CASE a.k = "deck" -> Conf([update_deck |-> [data |-> [main_cards |-> <<a.deck, 7>>, extra_cards |-> <<a.deck + 1>>, side_cards |-> <<a.deck + 2>>]]])
      [] a.k = "ready" -> Conf([ready_status |-> <<a.v>>])
      [] a.k = "start" -> Conf([start_dueling |-> <<1>>])
      [] a.k = "choose" -> First([team_going_first |-> <<a.team>>])
      [] a.k = "none" -> CASE a.what = 0 -> Void [] a.what = 1 -> Conf(Void) [] a.what = 2 -> First(Void)
=============================================================================
