---------------------------- MODULE ConsumerClient ----------------------------
(***************************************************************************)
(* How the consumer client works inside: a slot with the current           *)
(* connection that callers share, a table of requests in flight per        *)
(* connection, and a background task per connection that reads what the    *)
(* server sends. The switches turn off what makes it right, one by one.    *)
(*   SingleFlight   callers that find no connection wait for one to open it*)
(*   OwnOnly        after an error a caller discards only the connection   *)
(*                  that failed it                                         *)
(*   KeepOnRefusal  a refused request does not count as such an error      *)
(*   MarkEnded      the end of a background task is known to the callers   *)
(*   CheckSlot      a caller goes on with the connection it was given      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Callers, MaxConn, MaxLoss, MaxBreak, SingleFlight, OwnOnly, KeepOnRefusal, MarkEnded, CheckSlot

VARIABLES pc, at, slot, lock, n, srv, bg, tab, asked, box, held, spare, losses, breaks
vars == <<pc, at, slot, lock, n, srv, bg, tab, asked, box, held, spare, losses, breaks>>

Conns == 1 .. MaxConn
Init == /\ pc = [p \in Callers |-> "idle"] /\ at = [p \in Callers |-> 0] /\ slot = 0 /\ lock = 0 /\ n = 0
        /\ srv = [c \in Conns |-> "none"] /\ bg = [c \in Conns |-> "none"] /\ tab = [c \in Conns |-> {}]
        /\ asked = [c \in Conns |-> {}] /\ box = [p \in Callers |-> "none"] /\ held = [c \in Conns |-> 0]
        /\ spare = FALSE /\ losses = 0 /\ breaks = 0

(* `srv': open, broken (what it sends is not understood; what it is sent arrives) or lost.
   A connection nobody refers to is closed; that costs what is reserved over it. *)
Healthy(c) == c # 0 /\ (~MarkEnded \/ bg[c] = "run")
Refs(c, s, a, q) == s = c \/ \E p \in Callers : a[p] = c /\ q[p] \in {"got", "insert", "send", "wait", "end"}
Tidy(s, a, q) ==
  LET gone == {c \in Conns : bg[c] = "run" /\ ~Refs(c, s, a, q)} IN
  /\ bg' = [c \in Conns |-> IF c \in gone THEN "ended" ELSE bg[c]]
  /\ spare' = (spare \/ \E c \in gone : srv[c] = "open" /\ held'[c] > 0)

Keep == UNCHANGED <<bg, spare>>

Begin(p) == /\ pc[p] = "idle" /\ pc' = [pc EXCEPT ![p] = "check"] /\ Keep
            /\ UNCHANGED <<at, slot, lock, n, srv, tab, asked, box, held, losses, breaks>>
Check(p) ==
  /\ pc[p] = "check"
  /\ IF Healthy(slot) THEN /\ pc' = [pc EXCEPT ![p] = IF CheckSlot THEN "insert" ELSE "got"]
                           /\ at' = [at EXCEPT ![p] = IF CheckSlot THEN slot ELSE 0]
     ELSE pc' = [pc EXCEPT ![p] = IF SingleFlight THEN "lock" ELSE "connect"] /\ UNCHANGED at
  /\ Keep /\ UNCHANGED <<slot, lock, n, srv, tab, asked, box, held, losses, breaks>>
Lock(p) ==
  /\ pc[p] = "lock" /\ lock = 0
  /\ IF Healthy(slot) THEN pc' = [pc EXCEPT ![p] = "insert"] /\ at' = [at EXCEPT ![p] = slot] /\ UNCHANGED lock
     ELSE pc' = [pc EXCEPT ![p] = "connect"] /\ lock' = p /\ UNCHANGED at
  /\ Keep /\ UNCHANGED <<slot, n, srv, tab, asked, box, held, losses, breaks>>
Connect(p) ==
  /\ pc[p] = "connect" /\ n < MaxConn /\ n' = n + 1
  /\ srv' = [srv EXCEPT ![n + 1] = "open"] /\ slot' = n + 1
  /\ lock' = IF lock = p THEN 0 ELSE lock
  /\ pc' = [pc EXCEPT ![p] = IF CheckSlot THEN "insert" ELSE "got"] /\ at' = [at EXCEPT ![p] = IF CheckSlot THEN n + 1 ELSE 0]
  /\ UNCHANGED <<tab, asked, box, held, losses, breaks>>
  /\ LET gone == {c \in Conns : bg[c] = "run" /\ ~Refs(c, n + 1, at', pc')} IN
     /\ bg' = [c \in Conns |-> IF c = n + 1 THEN "run" ELSE IF c \in gone THEN "ended" ELSE bg[c]]
     /\ spare' = (spare \/ \E c \in gone : srv[c] = "open" /\ held[c] > 0)
(* Without CheckSlot: the slot is read once more. *)
Got(p) ==
  /\ pc[p] = "got"
  /\ IF slot = 0 THEN pc' = [pc EXCEPT ![p] = "panic"] /\ UNCHANGED at
     ELSE pc' = [pc EXCEPT ![p] = "insert"] /\ at' = [at EXCEPT ![p] = slot]
  /\ Keep /\ UNCHANGED <<slot, lock, n, srv, tab, asked, box, held, losses, breaks>>
Insert(p) ==
  /\ pc[p] = "insert" /\ pc' = [pc EXCEPT ![p] = "send"]
  /\ tab' = [tab EXCEPT ![at[p]] = @ \cup {p}] /\ box' = [box EXCEPT ![p] = "none"]
  /\ Keep /\ UNCHANGED <<at, slot, lock, n, srv, asked, held, losses, breaks>>
Send(p) ==
  /\ pc[p] = "send" /\ pc' = [pc EXCEPT ![p] = "wait"]
  /\ IF srv[at[p]] = "lost" THEN box' = [box EXCEPT ![p] = "error"] /\ UNCHANGED asked
     ELSE asked' = [asked EXCEPT ![at[p]] = @ \cup {p}] /\ UNCHANGED box
  /\ Keep /\ UNCHANGED <<at, slot, lock, n, srv, tab, held, losses, breaks>>
(* The server answers, and the background task hands the answer over (or nobody does). *)
Answer(c, p, what) ==
  /\ srv[c] # "lost" /\ p \in asked[c]
  /\ asked' = [asked EXCEPT ![c] = @ \ {p}]
  /\ held' = [held EXCEPT ![c] = IF what = "chunks" THEN 1 ELSE @]
  /\ IF bg[c] = "run" /\ srv[c] = "open" /\ p \in tab[c] THEN tab' = [tab EXCEPT ![c] = @ \ {p}] /\ box' = [box EXCEPT ![p] = what]
     ELSE UNCHANGED <<tab, box>>
  /\ Keep /\ UNCHANGED <<pc, at, slot, lock, n, srv, losses, breaks>>
Ended(c) == MarkEnded /\ bg[c] = "ended"
CanEnd(p) == pc[p] = "wait" /\ (box[p] # "none" \/ Ended(at[p]))
End(p) ==
  /\ CanEnd(p) /\ pc' = [pc EXCEPT ![p] = "end"]
  /\ box' = [box EXCEPT ![p] = IF @ = "none" THEN "error" ELSE @]
  /\ Keep /\ UNCHANGED <<at, slot, lock, n, srv, tab, asked, held, losses, breaks>>
Finish(p) ==
  /\ pc[p] = "end" /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ slot' = IF box[p] = "error" \/ (box[p] = "refused" /\ ~KeepOnRefusal)
             THEN IF OwnOnly /\ slot # at[p] THEN slot ELSE 0
             ELSE slot
  /\ at' = [at EXCEPT ![p] = 0]
  /\ UNCHANGED <<lock, n, srv, tab, asked, box, held, losses, breaks>>
  /\ LET gone == {c \in Conns : bg[c] = "run" /\ ~Refs(c, slot', at', pc')} IN
     /\ bg' = [c \in Conns |-> IF c \in gone THEN "ended" ELSE bg[c]]
     /\ spare' = (spare \/ \E c \in gone : srv[c] = "open" /\ held[c] > 0)
(* The network and the server. *)
Lose(c) == /\ srv[c] \in {"open", "broken"} /\ losses < MaxLoss /\ losses' = losses + 1
           /\ srv' = [srv EXCEPT ![c] = "lost"] /\ held' = [held EXCEPT ![c] = 0] /\ asked' = [asked EXCEPT ![c] = {}]
           /\ Keep /\ UNCHANGED <<pc, at, slot, lock, n, tab, box, breaks>>
Break(c) == /\ srv[c] = "open" /\ breaks < MaxBreak /\ breaks' = breaks + 1
            /\ srv' = [srv EXCEPT ![c] = "broken"] /\ Keep
            /\ UNCHANGED <<pc, at, slot, lock, n, tab, asked, box, held, losses>>
Notice(c) == /\ srv[c] \in {"lost", "broken"} /\ bg[c] = "run"
             /\ bg' = [bg EXCEPT ![c] = "ended"] /\ UNCHANGED spare
             /\ box' = [p \in Callers |-> IF p \in tab[c] /\ at[p] = c /\ pc[p] \in {"send", "wait"} THEN "error" ELSE box[p]] /\ tab' = [tab EXCEPT ![c] = {}]
             /\ UNCHANGED <<pc, at, slot, lock, n, srv, asked, held, losses, breaks>>

Next ==
  \/ \E p \in Callers : Begin(p) \/ Check(p) \/ Lock(p) \/ Connect(p) \/ Got(p) \/ Insert(p) \/ Send(p) \/ End(p) \/ Finish(p)
  \/ \E c \in Conns : Lose(c) \/ Break(c) \/ Notice(c) \/ \E p \in Callers : Answer(c, p, "chunks") \/ Answer(c, p, "refused")

Spec == Init /\ [][Next]_vars

(* Never a call that cannot end although nobody is going to answer it. *)
NoHang == \A p \in Callers : pc[p] = "wait" => CanEnd(p) \/ bg[at[p]] = "run"
NoPanic == \A p \in Callers : pc[p] # "panic"
(* Never a working connection given up with work reserved over it. *)
NoSpare == ~spare
OneConn == Cardinality({c \in Conns : bg[c] = "run" /\ srv[c] = "open"}) <= 1
TypeOK == slot \in 0 .. MaxConn /\ lock \in Callers \cup {0} /\ n \in 0 .. MaxConn
=============================================================================
