----------------------------- MODULE ClientTrace -----------------------------
(***************************************************************************)
(* Checks what opsqueue's consumer client does against a server that is    *)
(* played by the driver. The log holds, in order, what the driver does     *)
(* (call, answer, expired, ping, lose, down, up, abandon, tell) and what   *)
(* comes of it (open, closed, req, report, pong, ret, told); "settle" says *)
(* that everything had time to come: no obligation may be left then.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Log == ndJsonDeserialize(IOEnv.TRACE)

(* open: connections the server has; calls: what each call is at; owed: chunks to be given back;
   told: reports on their way, in the order in which they were issued; pings: not answered yet;
   stale: a connection was lost and the client may not know; nonces: used on each connection. *)
VARIABLES l, up, open, calls, owed, told, pings, stale, nonces
vars == <<l, up, open, calls, owed, told, pings, stale, nonces>>

If(c, name) == IF c THEN {} ELSE {name}
Call(k) == CHOOSE x \in calls : x.k = k
Known(k) == \E x \in calls : x.k = k
Upd(k, f(_)) == {IF x.k = k THEN f(x) ELSE x : x \in calls}
Report(ev, S) == IF S = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([line |-> l, bad |-> S]))

Reset == /\ up' = TRUE /\ open' = {} /\ calls' = {} /\ owed' = {} /\ told' = <<>> /\ pings' = {} /\ stale' = FALSE /\ nonces' = {}
Init == l = 1 /\ up = TRUE /\ open = {} /\ calls = {} /\ owed = {} /\ told = <<>> /\ pings = {} /\ stale = FALSE /\ nonces = {}

Lost == /\ open' = {}
        /\ calls' = {IF x.st \in {"sent", "answered"} THEN [x EXCEPT !.st = IF x.st = "sent" THEN "lost" ELSE "perhaps"] ELSE x : x \in calls}
        /\ owed' = {} /\ pings' = {} /\ stale' = TRUE
        \* what was told over it may have been lost with it
        /\ told' = [j \in 1 .. Len(told) |-> [told[j] EXCEPT !.may = TRUE]]

(* A call is new, sent (on a connection), answered, lost (with its connection), perhaps (answered on a
   connection that was lost then) or done; and the caller may have gone away. *)
NewCall(ev) == [k |-> ev.k, st |-> "new", c |-> 0, n |-> 0, v |-> <<>>, strat |-> ev.strat, gone |-> FALSE, stale |-> stale \/ ~up]

ReqBad(ev) ==
  IF ~Known(ev.k) THEN {"req.unasked"}
  ELSE LET x == Call(ev.k) IN
       If(x.st \in {"new", "lost", "perhaps"}, "req.again") \cup If(ev.strat = x.strat, "req.strat") \cup If(ev.c \in open, "req.where")
       \cup If(\A y \in calls : ~(y.st = "sent" /\ y.c = ev.c /\ y.n = ev.nonce), "req.nonce")

Fits(q, ev) == q.kind = ev.kind /\ q.s = ev.s /\ q.i = ev.i /\ q.x = ev.x
FirstFit(ev) == IF \E j \in 1 .. Len(told) : Fits(told[j], ev) THEN CHOOSE j \in 1 .. Len(told) : Fits(told[j], ev) /\ \A m \in 1 .. j - 1 : ~Fits(told[m], ev) ELSE 0
Back(ev) == {o \in owed : o.c = ev.c /\ o.s = ev.s /\ o.i = ev.i}
ReportBad(ev) ==
  IF FirstFit(ev) # 0 THEN If(\A m \in 1 .. FirstFit(ev) - 1 : told[m].may \/ told[m].done, "report.order")
  ELSE IF ev.kind = "fail" /\ Back(ev) # {} THEN {}
  ELSE IF ev.kind = "fail" THEN {"report.failed"} ELSE {"report.unasked"}

RetBad(ev) ==
  IF ~Known(ev.k) THEN {"ret.unasked"}
  ELSE LET x == Call(ev.k) IN
       IF x.st \in {"answered", "perhaps"} /\ ev.v = x.v THEN {}
       ELSE IF ev.v = <<"err">>
            THEN If(x.st \in {"lost", "perhaps"} \/ (x.st = "new" /\ (x.stale \/ stale)), "ret.error")
            ELSE IF \E y \in calls : y.k # ev.k /\ y.v = ev.v /\ ev.v # <<>> THEN {"ret.others"} ELSE {"ret.wrong"}

SettleBad ==
  IF ~up THEN {} ELSE
  {CASE x.st = "new" -> "hung.new" [] x.st = "lost" -> "hung.lost" [] x.st = "perhaps" -> "hung.lost" [] OTHER -> "hung.answered"
     : x \in {y \in calls : ~y.gone /\ y.st \in {"new", "lost", "perhaps", "answered"}}}
  \cup If(owed = {}, "back.kept") \cup If(\A j \in 1 .. Len(told) : told[j].may \/ (told[j].done /\ told[j].failed), "report.lost")
  \cup If(pings = {}, "ping.unanswered")

Next ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ (l = Len(Log) => PrintT("DONE " \o ToString(l)))
  /\ LET ev == Log[l] IN
     CASE ev.op = "reset" -> Reset
       [] ev.op = "up"    -> up' = TRUE /\ UNCHANGED <<open, calls, owed, told, pings, stale, nonces>>
       [] ev.op = "down"  -> up' = FALSE /\ Lost /\ UNCHANGED nonces
       [] ev.op \in {"lose", "rubbish"} -> Lost /\ UNCHANGED <<up, nonces>>
       [] ev.op = "open"  -> /\ open' = open \cup {ev.c} /\ stale' = FALSE
                             /\ Report(ev, If(up, "open.down") \cup If(open = {}, "open.spare"))
                             /\ UNCHANGED <<up, calls, owed, told, pings, nonces>>
       [] ev.op = "closed" -> /\ open' = open \ {ev.c}
                              /\ Report(ev, If(ev.c \notin open, "closed.own"))
                              /\ calls' = {IF x.st = "sent" /\ x.c = ev.c THEN [x EXCEPT !.st = "lost"] ELSE x : x \in calls}
                              /\ owed' = {o \in owed : o.c # ev.c} /\ pings' = {p \in pings : p.c # ev.c}
                              /\ UNCHANGED <<up, told, stale, nonces>>
       [] ev.op = "call"  -> calls' = calls \cup {NewCall(ev)} /\ UNCHANGED <<up, open, owed, told, pings, stale, nonces>>
       [] ev.op = "abandon" -> calls' = Upd(ev.k, LAMBDA x : [x EXCEPT !.gone = TRUE]) /\ UNCHANGED <<up, open, owed, told, pings, stale, nonces>>
       [] ev.op = "req"   -> /\ Report(ev, ReqBad(ev))
                             /\ calls' = Upd(ev.k, LAMBDA x : [x EXCEPT !.st = "sent", !.c = ev.c, !.n = ev.nonce])
                             /\ UNCHANGED <<up, open, owed, told, pings, stale, nonces>>
       [] ev.op = "answer" ->
            /\ LET x == Call(ev.k) IN
               IF x.gone THEN /\ owed' = owed \cup {[c |-> x.c, s |-> ev.ids[j].s, i |-> ev.ids[j].i] : j \in 1 .. Len(ev.ids)}
                              /\ calls' = Upd(ev.k, LAMBDA y : [y EXCEPT !.st = "done"])
               ELSE calls' = Upd(ev.k, LAMBDA y : [y EXCEPT !.st = "answered", !.v = ev.v]) /\ UNCHANGED owed
            /\ UNCHANGED <<up, open, told, pings, stale, nonces>>
       [] ev.op = "ret"   -> /\ Report(ev, RetBad(ev))
                             /\ calls' = Upd(ev.k, LAMBDA x : [x EXCEPT !.st = "done"])
                             /\ UNCHANGED <<up, open, owed, told, pings, stale, nonces>>
       [] ev.op = "expired" -> owed' = owed \cup {[c |-> ev.c, s |-> ev.s, i |-> ev.i]} /\ UNCHANGED <<up, open, calls, told, pings, stale, nonces>>
       [] ev.op = "ping"  -> pings' = pings \cup {[c |-> ev.c, x |-> ev.x]} /\ UNCHANGED <<up, open, calls, owed, told, stale, nonces>>
       [] ev.op = "pong"  -> pings' = pings \ {[c |-> ev.c, x |-> ev.x]} /\ UNCHANGED <<up, open, calls, owed, told, stale, nonces>>
       [] ev.op = "tell"  -> told' = Append(told, [j |-> ev.j, kind |-> ev.kind, s |-> ev.s, i |-> ev.i, x |-> ev.x, may |-> stale \/ ~up, done |-> FALSE, failed |-> FALSE])
                             /\ UNCHANGED <<up, open, calls, owed, pings, stale, nonces>>
       [] ev.op = "told"  ->
            /\ Report(ev, If(ev.ok \/ stale \/ \A m \in 1 .. Len(told) : told[m].j = ev.j => told[m].may, "report.error"))
            /\ told' = IF ev.ok THEN told ELSE SelectSeq(told, LAMBDA q : q.j # ev.j)
            /\ UNCHANGED <<up, open, calls, owed, pings, stale, nonces>>
       [] ev.op = "report" ->
            /\ Report(ev, ReportBad(ev))
            /\ IF FirstFit(ev) # 0 THEN told' = RemoveAt(told, FirstFit(ev)) /\ UNCHANGED owed
               ELSE owed' = owed \ Back(ev) /\ UNCHANGED told
            /\ UNCHANGED <<up, open, calls, pings, stale, nonces>>
       [] ev.op = "settle" -> /\ Report(ev, SettleBad)
                              /\ told' = IF up THEN <<>> ELSE told
                              /\ calls' = {x \in calls : x.st # "done"}
                              /\ UNCHANGED <<up, open, owed, pings, stale, nonces>>
       [] OTHER -> Report(ev, {"garbage"}) /\ UNCHANGED <<up, open, calls, owed, told, pings, stale, nonces>>

Spec == Init /\ [][Next]_vars
=============================================================================
