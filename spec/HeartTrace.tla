------------------------------ MODULE HeartTrace ------------------------------
(***************************************************************************)
(* Judges, from recorded times (in ms), whether a side of a consumer       *)
(* connection that is opsqueue's own (the judged side) takes the other     *)
(* side for dead when it ought to, and only then. With I the interval and  *)
(* M the number of heartbeats that may be missed:                          *)
(*   early   closed less than (M+1)*I after the last sign of life          *)
(*   late    not closed (M+2)*I after it                                   *)
(*   quiet   a server that says nothing for more than (M+1)*I, so that its *)
(*           client has to take it for dead                                *)
(*   parted  opsqueue's own client and server part although both live      *)
(*   kept    what the dead one had reserved is not given to who waits      *)
(*   hung    a call over the dead connection does not end                  *)
(* Times are those at the other side: `say' is before the message goes     *)
(* out, `gone' after the end of the connection was seen. The allowance is  *)
(* how late a sleeping thread and task were at worst, several times over.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cs, lag, silent
vars == <<l, cs, lag, silent>>

If(c, name) == IF c THEN {} ELSE {name}
Slack == 80 + 4 * lag
Report(S) == IF S = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([line |-> l, bad |-> S]))
None == [k \in {} |-> 0]
Set(c, f(_)) == cs' = [k \in DOMAIN cs |-> IF k = c THEN f(cs[k]) ELSE cs[k]]

Init == l = 1 /\ cs = None /\ lag = 0 /\ silent = FALSE

(* When x was last seen alive, and when it has to be taken for dead. *)
MayAt(x)  == x.last + (x.max + 1) * x.i - Slack
MustBy(x) == x.last + (x.max + 2) * x.i + Slack
QuietBad(x, t) == If(x.who # "server" \/ x.stall \/ x.full \/ x.gone \/ t - x.heard <= (x.max + 1) * x.i + Slack, "heart.quiet")
OtherGone(c) == \E k \in DOMAIN cs : k # c /\ cs[k].gone

GoneBad(c, t) ==
  LET x == cs[c] IN
  If(t >= MayAt(x) \/ (x.real /\ (OtherGone(c) \/ (~x.silent /\ silent))), "heart.early")
  \cup If(~x.real \/ silent, "heart.parted")
  \cup If(x.stall \/ t <= MustBy(x) \/ x.real, IF x.full THEN "heart.full" ELSE "heart.late")
EndBad(c, t) ==
  LET x == cs[c] IN
  If(x.gone \/ ~x.silent \/ t <= MustBy(x), IF x.full THEN "heart.full" ELSE "heart.late")
  \cup If(~x.held \/ ~x.gone \/ x.free, "heart.kept")
  \cup If(~x.call \/ ~x.gone \/ x.ret, "heart.hung")
  \cup QuietBad(x, t)

Next ==
  /\ l <= Len(Log) /\ l' = l + 1
  /\ (l = Len(Log) => PrintT("DONE " \o ToString(l)))
  /\ LET ev == Log[l] IN
     CASE ev.op = "reset" -> cs' = None /\ lag' = ev.lag /\ silent' = FALSE
       [] ev.op = "conn" ->
            /\ cs' = [k \in DOMAIN cs \cup {ev.c} |-> IF k # ev.c THEN cs[k]
                      ELSE [who |-> ev.who, i |-> ev.i, max |-> ev.max, stall |-> ev.stall, full |-> ev.full, held |-> ev.held, real |-> ev.real, call |-> ev.call,
                            last |-> ev.t, heard |-> ev.t, gone |-> FALSE, free |-> FALSE, ret |-> FALSE, silent |-> FALSE]]
            /\ UNCHANGED <<lag, silent>>
       [] ev.op = "say"  -> Set(ev.c, LAMBDA x : [x EXCEPT !.last = ev.t]) /\ UNCHANGED <<lag, silent>>
       [] ev.op = "hear" -> Report(QuietBad(cs[ev.c], ev.t)) /\ Set(ev.c, LAMBDA x : [x EXCEPT !.heard = ev.t]) /\ UNCHANGED <<lag, silent>>
       [] ev.op = "silent" -> Set(ev.c, LAMBDA x : [x EXCEPT !.silent = TRUE]) /\ silent' = TRUE /\ UNCHANGED lag
       [] ev.op = "gone" -> Report(GoneBad(ev.c, ev.t)) /\ Set(ev.c, LAMBDA x : [x EXCEPT !.gone = TRUE]) /\ UNCHANGED <<lag, silent>>
       [] ev.op = "again" -> Report(If(silent, "heart.parted")) /\ UNCHANGED <<cs, lag, silent>>
       [] ev.op = "free" -> Set(ev.c, LAMBDA x : [x EXCEPT !.free = TRUE]) /\ UNCHANGED <<lag, silent>>
       [] ev.op = "ret"  -> (IF ev.c \in DOMAIN cs THEN Set(ev.c, LAMBDA x : [x EXCEPT !.ret = TRUE]) ELSE UNCHANGED cs) /\ UNCHANGED <<lag, silent>>
       [] ev.op = "end"  -> Report(EndBad(ev.c, ev.t)) /\ UNCHANGED <<cs, lag, silent>>
       [] OTHER -> Report({"heart.log"}) /\ UNCHANGED <<cs, lag, silent>>
Spec == Init /\ [][Next]_vars
=============================================================================
