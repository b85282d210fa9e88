-------------------------------- MODULE Heart --------------------------------
(***************************************************************************)
(* Heartbeats in discrete time: the server's side of a connection (timer,  *)
(* missed heartbeats), the client's, and a network that takes up to Delay  *)
(* units. The client answers heartbeats and may send reports of its own;   *)
(* either side may be held up for a while, in which it neither reads nor   *)
(* looks at its timer; either may die.                                     *)
(*   Resets    the server starts its interval anew with each message it    *)
(*             receives (so it may never send a heartbeat)                 *)
(*   Burst     after having been held up, ticks that were missed are made  *)
(*             up for one after the other                                  *)
(*   Blind     a side does not look for unread messages before it gives up *)
(*   Forgets   missed heartbeats are counted over the whole connection     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS I, Max, Delay, Horizon, MaxReports, MaxHold, HoldLen, Resets, Burst, Blind, Forgets

VARIABLES now, s, c, up, down, reports, holds, lastc, lasts, early
(* s, c: [next, missed, open, alive, held] of server and client; up, down: messages on their way, each with
   the time by which it has arrived. lastc, lasts: when the last message that was read had reached the server,
   the client. early: somebody gave up although there was a sign of life recently. *)
vars == <<now, s, c, up, down, reports, holds, lastc, lasts, early>>

Init == /\ now = 0 /\ s = [next |-> 0, missed |-> 0, open |-> TRUE, alive |-> TRUE, held |-> 0]
        /\ c = [next |-> 0, missed |-> 0, open |-> TRUE, alive |-> TRUE, held |-> 0]
        /\ up = <<>> /\ down = <<>> /\ reports = 0 /\ holds = 0 /\ lastc = 0 /\ lasts = 0 /\ early = FALSE

Live(x) == x.open /\ x.alive /\ x.held = 0
After(x) == IF Burst THEN x.next + I ELSE now + I
Msg(k) == [k |-> k, by |-> now + Delay]

Least(a, b) == IF a < b THEN a ELSE b
Recent(last, q) == now - last < (Max + 1) * I \/ \E j \in 1 .. Len(q) : q[j].by <= now /\ now - q[j].by < (Max + 1) * I

Looks(x, q) == ~Blind /\ x.missed > Max /\ q # <<>> /\ Head(q).by <= now

STick == /\ Live(s) /\ now >= s.next /\ ~Looks(s, up)
         /\ IF s.missed > Max THEN s' = [s EXCEPT !.open = FALSE] /\ early' = (early \/ Recent(lastc, up)) /\ UNCHANGED down
            ELSE /\ s' = [s EXCEPT !.next = After(s), !.missed = @ + 1]
                 /\ down' = Append(down, Msg("ping")) /\ UNCHANGED early
         /\ UNCHANGED <<now, c, up, reports, holds, lastc, lasts>>
SRecv == /\ Live(s) /\ up # <<>> /\ up' = Tail(up)
         /\ s' = [s EXCEPT !.missed = IF Forgets THEN @ ELSE 0,
                           !.next = IF Resets THEN now + I ELSE @]
         /\ lastc' = Least(now, Head(up).by)
         /\ UNCHANGED <<now, c, down, reports, holds, lasts, early>>
CTick == /\ Live(c) /\ now >= c.next /\ ~Looks(c, down)
         /\ c' = IF c.missed > Max THEN [c EXCEPT !.open = FALSE] ELSE [c EXCEPT !.next = After(c), !.missed = @ + 1]
         /\ early' = (early \/ (c.missed > Max /\ Recent(lasts, down)))
         /\ UNCHANGED <<now, s, up, down, reports, holds, lastc, lasts>>
CRecv == /\ Live(c) /\ down # <<>> /\ down' = Tail(down)
         /\ c' = [c EXCEPT !.missed = 0, !.next = now + I] /\ up' = Append(up, Msg("pong")) /\ lasts' = Least(now, Head(down).by)
         /\ UNCHANGED <<now, s, reports, holds, lastc, early>>
Report == /\ Live(c) /\ reports < MaxReports /\ reports' = reports + 1 /\ up' = Append(up, Msg("report"))
          /\ UNCHANGED <<now, s, c, down, holds, lastc, lasts, early>>
HoldS == /\ Live(s) /\ holds < MaxHold /\ holds' = holds + 1 /\ s' = [s EXCEPT !.held = HoldLen] /\ UNCHANGED <<now, c, up, down, reports, lastc, lasts, early>>
HoldC == /\ Live(c) /\ holds < MaxHold /\ holds' = holds + 1 /\ c' = [c EXCEPT !.held = HoldLen] /\ UNCHANGED <<now, s, up, down, reports, lastc, lasts, early>>
DieC == c.alive /\ c' = [c EXCEPT !.alive = FALSE] /\ UNCHANGED <<now, s, up, down, reports, holds, lastc, lasts, early>>
DieS == s.alive /\ s' = [s EXCEPT !.alive = FALSE] /\ UNCHANGED <<now, c, up, down, reports, holds, lastc, lasts, early>>

(* Time goes on when nothing is overdue: live sides have looked at their timers and read what has arrived. *)
Due(x, q) == Live(x) /\ (now >= x.next \/ (q # <<>> /\ Head(q).by <= now))
Later(x) == [x EXCEPT !.held = IF @ > 0 THEN @ - 1 ELSE 0]
Pass == /\ now < Horizon /\ ~Due(s, up) /\ ~Due(c, down)
        /\ now' = now + 1 /\ s' = Later(s) /\ c' = Later(c)
        /\ UNCHANGED <<up, down, reports, holds, lastc, lasts, early>>

Next == STick \/ SRecv \/ CTick \/ CRecv \/ Report \/ HoldS \/ HoldC \/ DieC \/ DieS \/ Pass
Spec == Init /\ [][Next]_vars

(* Live sides that nothing holds up do not part; and never does a side take the other for dead that was heard
   of recently, though it may have been held up itself. *)
Together == holds = 0 /\ s.alive /\ c.alive => s.open /\ c.open
NotEarly == ~early
(* A dead side is noticed in time. *)
SSees == ~c.alive /\ s.alive /\ holds = 0 /\ up = <<>> /\ now > lastc + (Max + 2) * I => ~s.open
CSees == ~s.alive /\ c.alive /\ holds = 0 /\ down = <<>> /\ now > lasts + (Max + 2) * I => ~c.open
=============================================================================
