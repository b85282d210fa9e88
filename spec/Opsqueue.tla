------------------------------ MODULE Opsqueue ------------------------------
(***************************************************************************)
(* The whole server as a state machine: the stored data (OpsqueueData),    *)
(* the in-memory reservation table, the connections of the consumers with  *)
(* their own lists of reservations, the queue of reports that one worker   *)
(* turns into transactions, reservation requests as read cursors over a    *)
(* snapshot that are served chunk by chunk, waiting requests, expiry,      *)
(* disconnects, cleanup and crashes.                                       *)
(*                                                                         *)
(* `hold[w]' is a ghost: the chunks consumer w was given and may be        *)
(* working on: from the answer until it reports, disconnects or its        *)
(* reservation expires.                                                    *)
(***************************************************************************)
EXTENDS OpsqueueData

CONSTANTS
  Consumers,      \* consumer names
  MaxSubs,        \* number of insertions
  Profiles,       \* what is inserted: set of [contents, pfx, md, cs, car, sm]
  MaxRetries,     \* failures after which a submission fails
  MaxEpoch,       \* number of cleanup cut-offs
  MaxMail,        \* reports queued at once
  Limits,         \* sizes of reservation requests
  Strategies,     \* strategies used by requests
  MaxExpire,      \* number of expiries explored
  MaxCrash,       \* number of crashes explored
  MaxDisc,        \* number of disconnects explored
  Wild,           \* TRUE: consumers also report chunks they do not hold
  \* Design decisions; the implementation's are all TRUE. FALSE gives a mutant that must be refuted.
  OwnerOnly,      \* a report or disconnect only releases what the consumer still owned when it reported or left
  Linger,         \* a finished chunk stays reserved while cursors that may still see it are open
  SkipVanished,   \* a request skips chunks that have meanwhile finished
  WakeOnRelease,  \* chunks given back wake waiting requests
  AtomicEmpty,    \* an empty submission is completed in the transaction that inserts it
  CheckDone       \* a report about a chunk that is not there changes nothing

VARIABLES d, epoch, n, H, L, own, mail, cur, wait, conn, hold, budget, cleaned

vars == <<d, epoch, n, H, L, own, mail, cur, wait, conn, hold, budget, cleaned>>

NoCur  == [on |-> FALSE, rest |-> <<>>, got |-> {}, lim |-> 0, strat |-> [keys |-> <<>>, base |-> "Oldest"], from |-> 0]
NoWait == [on |-> FALSE, lim |-> 0, strat |-> [keys |-> <<>>, base |-> "Oldest"]]

Init ==
  /\ d = EmptyD /\ epoch = 0 /\ n = 0 /\ H = {} /\ L = {}
  /\ own = [w \in Consumers |-> {}] /\ mail = <<>>
  /\ cur = [w \in Consumers |-> NoCur] /\ wait = [w \in Consumers |-> NoWait]
  /\ conn = [w \in Consumers |-> TRUE] /\ hold = [w \in Consumers |-> {}]
  /\ budget = [x |-> MaxExpire, c |-> MaxCrash, q |-> MaxDisc] /\ cleaned = FALSE

Id(s, i) == [s |-> s, i |-> i]

(* The sequences in which a request may see the available chunks. *)
Orders(S, strat) ==
  {q \in SetToSeqs(S) : \A j, k \in 1 .. Len(q) : j < k => ~Before(d, H, strat, q[k].s, q[j].s)}

Woken(ws) == [w \in Consumers |->
                IF wait[w].on /\ ws
                THEN [on |-> TRUE, lim |-> wait[w].lim, strat |-> wait[w].strat] ELSE NoWait]

-----------------------------------------------------------------------------
Insert(a) ==
  /\ n < MaxSubs
  /\ n' = n + 1
  /\ d' = IF AtomicEmpty \/ Len(a.contents) > 0 THEN InsertPost(d, a, n + 1, epoch)
          ELSE [d EXCEPT !.subs = @ \cup {[id |-> n + 1, st |-> "P", total |-> 0, done |-> 0, fc |-> -1,
                          pfx |-> a.pfx, md |-> a.md, cs |-> a.cs, car |-> a.car, t |-> -1]}]
  /\ UNCHANGED <<epoch, H, L, own, mail, cur, wait, conn, hold, budget, cleaned>>

Cancel(s) ==
  /\ Known(d, s)
  /\ d' = CancelPost(d, s, epoch)
  /\ UNCHANGED <<epoch, n, H, L, own, mail, cur, wait, conn, hold, budget, cleaned>>

Age ==
  /\ epoch < MaxEpoch
  /\ epoch' = epoch + 1
  /\ UNCHANGED <<d, n, H, L, own, mail, cur, wait, conn, hold, budget, cleaned>>

Cleanup ==
  /\ epoch > 0
  /\ d' = CleanupPost(d, epoch) /\ d' # d
  /\ cleaned' = TRUE
  /\ UNCHANGED <<epoch, n, H, L, own, mail, cur, wait, conn, hold, budget>>

(* A request starts: it sees the chunks available now, in an order its strategy allows. A waiting
   request starts again when it has been woken. *)
BeginFetch(w, lim, strat) ==
  /\ conn[w] /\ ~cur[w].on /\ ~wait[w].on
  /\ \E q \in Orders({Id(p.s, p.i) : p \in Available(d, H \cup {[s |-> c.s, i |-> c.i, w |-> 0, sm |-> {}] : c \in L})}, strat) :
        cur' = [cur EXCEPT ![w] = [on |-> TRUE, rest |-> q, got |-> {}, lim |-> lim, strat |-> strat, from |-> 0]]
  /\ UNCHANGED <<d, epoch, n, H, L, own, mail, wait, conn, hold, budget, cleaned>>

(* It takes the next chunk of its snapshot, if nobody has it by now. *)
FetchStep(w) ==
  /\ cur[w].on /\ cur[w].rest # <<>> /\ Cardinality(cur[w].got) < cur[w].lim
  /\ LET c    == Head(cur[w].rest)
         free == ~IsHeld(H, c.s, c.i) /\ c \notin L
         ok   == free /\ (SkipVanished => IsPend(d, c.s, c.i))
     IN /\ cur' = [cur EXCEPT ![w].rest = Tail(@), ![w].got = IF ok THEN @ \cup {c} ELSE @]
        /\ H' = IF ok THEN H \cup {[s |-> c.s, i |-> c.i, w |-> w, sm |-> MetaOf(d, c.s)]} ELSE H
  /\ UNCHANGED <<d, epoch, n, L, own, mail, wait, conn, hold, budget, cleaned>>

(* It is answered with what it got, or waits. *)
EndFetch(w) ==
  /\ cur[w].on /\ (cur[w].rest = <<>> \/ Cardinality(cur[w].got) = cur[w].lim)
  /\ cur' = [cur EXCEPT ![w] = NoCur]
  /\ IF cur[w].got = {}
     THEN /\ wait' = [wait EXCEPT ![w] = [on |-> TRUE, lim |-> cur[w].lim, strat |-> cur[w].strat]]
          /\ UNCHANGED <<own, hold>>
     ELSE /\ own' = [own EXCEPT ![w] = @ \cup cur[w].got]
          /\ hold' = [hold EXCEPT ![w] = @ \cup {c \in cur[w].got : \E h \in H : h.s = c.s /\ h.i = c.i /\ h.w = w}]
          /\ UNCHANGED wait
  /\ UNCHANGED <<d, epoch, n, H, L, mail, conn, budget, cleaned>>

(* A waiting request is retried when there is something it could get. *)
Wake(w) ==
  /\ wait[w].on /\ conn[w]
  /\ Available(d, H) # {}
  /\ wait' = [wait EXCEPT ![w] = NoWait]
  /\ \E q \in Orders({Id(p.s, p.i) : p \in Available(d, H \cup {[s |-> c.s, i |-> c.i, w |-> 0, sm |-> {}] : c \in L})}, wait[w].strat) :
        cur' = [cur EXCEPT ![w] = [on |-> TRUE, rest |-> q, got |-> {}, lim |-> wait[w].lim, strat |-> wait[w].strat, from |-> 0]]
  /\ UNCHANGED <<d, epoch, n, H, L, own, mail, conn, hold, budget, cleaned>>

Reportable(w) ==
  IF Wild THEN {Id(s, i) : s \in 1 .. n, i \in 0 .. 1} ELSE own[w] \cup hold[w]

Report(w, k, c) ==
  /\ conn[w] /\ ~cur[w].on
  /\ Len(mail) < MaxMail
  /\ c \in Reportable(w)
  /\ mail' = Append(mail, [k |-> k, c |-> c, w |-> w, rel |-> ~OwnerOnly \/ c \in own[w]])
  /\ own' = IF OwnerOnly THEN [own EXCEPT ![w] = @ \ {c}] ELSE own
  /\ hold' = [hold EXCEPT ![w] = @ \ {c}]
  /\ UNCHANGED <<d, epoch, n, H, L, cur, wait, conn, budget, cleaned>>

(* The worker turns the oldest report into one transaction and releases the reservation. *)
Process ==
  /\ mail # <<>>
  /\ LET m    == Head(mail)
         c    == m.c
         e    == IF m.k = "C" THEN CompletePost(d, c.s, c.i, "o", epoch)
                 ELSE FailPost(d, c.s, c.i, "f", MaxRetries, epoch)
         e2   == IF CheckDone \/ IsPend(d, c.s, c.i) \/ ~InProgress(d, c.s) \/ m.k # "C" THEN e
                 ELSE [d EXCEPT !.subs = ReplaceSub(d, c.s, [Sub(d, c.s) EXCEPT !.done = @ + 1])]
         fin  == m.k = "C" \/ FailIsPermanent(d, c.s, c.i, MaxRetries)
         mine == {h \in H : h.s = c.s /\ h.i = c.i /\ m.rel}
     IN /\ d' = e2
        /\ H' = H \ mine
        /\ L' = IF fin /\ mine # {} /\ Linger THEN L \cup {c} ELSE L
        /\ own' = [own EXCEPT ![m.w] = @ \ {c}]
  /\ mail' = Tail(mail)
  /\ UNCHANGED <<epoch, n, cur, wait, conn, hold, budget, cleaned>>

(* The delayed release of a finished chunk: later than every request that could still see it. *)
Purge(c) ==
  /\ c \in L
  /\ \A w \in Consumers : cur[w].on => c \notin Range(cur[w].rest)
  /\ L' = L \ {c}
  /\ UNCHANGED <<d, epoch, n, H, own, mail, cur, wait, conn, hold, budget, cleaned>>

Expire(h) ==
  /\ budget.x > 0
  /\ h \in H /\ h.s \in {x.id : x \in d.subs}
  /\ ~(cur[h.w].on /\ Id(h.s, h.i) \in cur[h.w].got)
  /\ \A j \in 1 .. Len(mail) : mail[j].c # Id(h.s, h.i)    \* reports are processed well before they could expire
  /\ H' = H \ {h}
  /\ own' = IF OwnerOnly THEN [own EXCEPT ![h.w] = @ \ {Id(h.s, h.i)}] ELSE own
  /\ hold' = [hold EXCEPT ![h.w] = @ \ {Id(h.s, h.i)}]
  /\ budget' = [budget EXCEPT !.x = @ - 1]
  /\ UNCHANGED <<d, epoch, n, L, mail, cur, wait, conn, cleaned>>

Disconnect(w) ==
  /\ conn[w] /\ ~cur[w].on
  /\ budget.q > 0
  /\ budget' = [budget EXCEPT !.q = @ - 1]
  /\ conn' = [conn EXCEPT ![w] = FALSE]
  /\ H' = {h \in H : Id(h.s, h.i) \notin own[w]}
  /\ own' = [own EXCEPT ![w] = {}]
  /\ hold' = [hold EXCEPT ![w] = {}]
  /\ wait' = [wait EXCEPT ![w] = NoWait]
  /\ UNCHANGED <<d, epoch, n, L, mail, cur, cleaned>>

Connect(w) ==
  /\ ~conn[w]
  /\ conn' = [conn EXCEPT ![w] = TRUE]
  /\ UNCHANGED <<d, epoch, n, H, L, own, mail, cur, wait, hold, budget, cleaned>>

(* Everything in memory is lost; the stored data is not. *)
Crash ==
  /\ budget.c > 0
  /\ budget' = [budget EXCEPT !.c = @ - 1]
  /\ H' = {} /\ L' = {} /\ mail' = <<>>
  /\ own' = [w \in Consumers |-> {}] /\ cur' = [w \in Consumers |-> NoCur]
  /\ wait' = [w \in Consumers |-> NoWait] /\ conn' = [w \in Consumers |-> FALSE]
  /\ hold' = [w \in Consumers |-> {}]
  /\ UNCHANGED <<d, epoch, n, cleaned>>

Next ==
  \/ \E a \in Profiles : Insert(a)
  \/ \E s \in 1 .. n : Cancel(s)
  \/ Age \/ Cleanup \/ Process \/ Crash
  \/ \E w \in Consumers :
       \/ \E lim \in Limits, st \in Strategies : BeginFetch(w, lim, st)
       \/ FetchStep(w) \/ EndFetch(w) \/ Wake(w) \/ Disconnect(w) \/ Connect(w)
       \/ \E c \in Reportable(w) : Report(w, "C", c) \/ Report(w, "F", c)
  \/ \E c \in L : Purge(c)
  \/ \E h \in H : Expire(h)

Spec == Init /\ [][Next]_vars

(* Fairness for liveness: the server keeps working, consumers keep asking and finish what they hold. *)
Fair ==
  /\ WF_vars(Process)
  /\ \A w \in Consumers : WF_vars(FetchStep(w)) /\ WF_vars(EndFetch(w)) /\ WF_vars(Wake(w)) /\ WF_vars(Connect(w))
  /\ \A w \in Consumers : WF_vars(\E lim \in Limits, st \in Strategies : BeginFetch(w, lim, st))
  /\ \A w \in Consumers : SF_vars(\E c \in own[w] : Report(w, "C", c))
LiveSpec == Spec /\ Fair

-----------------------------------------------------------------------------
(* P01 *)
Inv_Place    == UniquePlace(d) /\ NoOrphans(d)
Inv_Counters == Counters(d, cleaned)
(* P02 *)
Inv_OneStatus == OneStatus(d)
Act_Final     == [][TerminalFinal(d, d') /\ IdentityKept(d, d')]_vars
(* P03 *)
Inv_Progress == Progress(d)
(* P04 *)
Inv_Failure == FailureNamed(d) /\ RetryBound(d, MaxRetries)
(* P05 *)
Inv_Cancelled == \A x \in d.subs : x.st = "X" => PendOf(d, x.id) = {}
(* P06: every step of the stored data is a whole operation *)
Act_Whole == [][LegalStep(d, d', MaxRetries, epoch')]_vars
(* P08 *)
Inv_Exclusive ==
  /\ \A v, w \in Consumers : v # w => hold[v] \cap hold[w] = {}
  /\ \A g, h \in H : g.s = h.s /\ g.i = h.i => g = h
  /\ \A w \in Consumers : \A c \in hold[w] : IsPend(d, c.s, c.i) => \E h \in H : h.s = c.s /\ h.i = c.i /\ h.w = w
(* P09: whatever is reserved is in some connection's hands or about to be released *)
Inv_NoStranded ==
  \A h \in H : \/ Id(h.s, h.i) \in own[h.w]
               \/ (cur[h.w].on /\ Id(h.s, h.i) \in cur[h.w].got)
               \/ \E j \in 1 .. Len(mail) : mail[j].c = Id(h.s, h.i) /\ mail[j].w = h.w
(* P10: what is reserved in a step is to do at that moment *)
Act_NoDead == [][\A h \in H' \ H : IsPend(d, h.s, h.i)]_vars
(* P15 *)
Inv_InFlight ==
  \A m \in {[k |-> x.k, v |-> x.v] : x \in d.meta} :
     InFlight(H, m.k, m.v) = FoldSet(LAMBDA w, acc : acc + Cardinality({h \in H : h.w = w /\ m \in h.sm}), 0, Consumers)
(* P16, P09, P03 *)
Live_Done == \A s \in 1 .. MaxSubs : [](InProgress(d, s) => <>(~InProgress(d, s)))
=============================================================================
