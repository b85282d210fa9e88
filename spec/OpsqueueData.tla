---------------------------- MODULE OpsqueueData ----------------------------
(***************************************************************************)
(* The durable data of an opsqueue server and what every operation does to *)
(* it, as pure operators: each takes the stored data `d' and the arguments *)
(* of an operation and yields the stored data afterwards, or the answer.   *)
(* `Opsqueue.tla' builds the state machine from them, `OpsqueueTrace.tla'  *)
(* compares them with what the implementation really did.                  *)
(*                                                                         *)
(* d.subs : [id, st, total, done, fc, pfx, md, cs, car, t]                 *)
(*          st: "P" in progress, "C" completed, "F" failed, "X" cancelled; *)
(*          t : epoch in which it finished, -1 before;                     *)
(*          fc: index of the chunk that failed it; done: done-count.       *)
(*          cs: chunk size, car: trace context, md: metadata, pfx: prefix. *)
(* d.pend : [s, i, r, c]     chunk i of s is to do, failed r times         *)
(* d.comp : [s, i, o, t]     done, with output o                           *)
(* d.fail : [s, i, f, k, c, t]  failed with text f, or skipped (k = 1)     *)
(* d.meta : [s, k, v]        strategic metadata                            *)
(* Absent values are "~" (text) or -1 (numbers). Ids are numbered in the   *)
(* order of insertion.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

None == "~"

EmptyD == [subs |-> {}, pend |-> {}, comp |-> {}, fail |-> {}, meta |-> {}]

SubsOf(d, s)   == {x \in d.subs : x.id = s}
Known(d, s)    == SubsOf(d, s) # {}
Sub(d, s)      == CHOOSE x \in d.subs : x.id = s
InProgress(d, s) == \E x \in d.subs : x.id = s /\ x.st = "P"
PendOf(d, s)   == {p \in d.pend : p.s = s}
PendAt(d, s, i) == {p \in d.pend : p.s = s /\ p.i = i}
IsPend(d, s, i) == PendAt(d, s, i) # {}
MetaOf(d, s)   == {[k |-> m.k, v |-> m.v] : m \in {x \in d.meta : x.s = s}}

ReplaceSub(d, s, new) == (d.subs \ SubsOf(d, s)) \cup {new}

-----------------------------------------------------------------------------
(* Operations *)

(* a: [contents: sequence of chunk inputs, pfx, md, cs, car, sm: set of [k, v]] *)
InsertPost(d, a, id, t) ==
  LET n   == Len(a.contents)
      rec == [id |-> id, st |-> IF n = 0 THEN "C" ELSE "P", total |-> n,
              done |-> IF n = 0 THEN -1 ELSE 0, fc |-> -1, pfx |-> a.pfx, md |-> a.md,
              cs |-> a.cs, car |-> a.car, t |-> IF n = 0 THEN t ELSE -1]
  IN [d EXCEPT !.subs = @ \cup {rec},
               !.pend = @ \cup {[s |-> id, i |-> k - 1, r |-> 0, c |-> a.contents[k]] : k \in 1 .. n},
               !.meta = @ \cup {[s |-> id, k |-> m.k, v |-> m.v] : m \in a.sm}]

(* A completion report for chunk i of s. *)
CompletePost(d, s, i, out, t) ==
  IF ~IsPend(d, s, i) \/ ~InProgress(d, s) THEN d
  ELSE LET x    == Sub(d, s)
           rest == PendOf(d, s) \ PendAt(d, s, i)
           y    == IF rest = {} THEN [x EXCEPT !.st = "C", !.done = -1, !.t = t]
                   ELSE [x EXCEPT !.done = @ + 1]
       IN [d EXCEPT !.subs = ReplaceSub(d, s, y),
                    !.pend = @ \ PendAt(d, s, i),
                    !.comp = @ \cup {[s |-> s, i |-> i, o |-> out, t |-> t]}]

Skipped(d, s, t) == {[s |-> p.s, i |-> p.i, f |-> "", k |-> 1, c |-> p.c, t |-> t] : p \in PendOf(d, s)}

(* A failure report for chunk i of s. *)
FailPost(d, s, i, msg, max, t) ==
  IF ~IsPend(d, s, i) \/ ~InProgress(d, s) THEN d
  ELSE LET p == CHOOSE q \in PendAt(d, s, i) : TRUE
           x == Sub(d, s)
       IN IF p.r + 1 < max
          THEN [d EXCEPT !.pend = (@ \ {p}) \cup {[p EXCEPT !.r = @ + 1]}]
          ELSE LET others == Skipped(d, s, t) \ {[s |-> s, i |-> i, f |-> "", k |-> 1, c |-> p.c, t |-> t]}
                   mine   == [s |-> s, i |-> i, f |-> msg, k |-> 0, c |-> p.c, t |-> t]
               IN [d EXCEPT !.subs = ReplaceSub(d, s, [x EXCEPT !.st = "F", !.fc = i, !.t = t]),
                            !.pend = @ \ PendOf(d, s),
                            !.fail = @ \cup others \cup {mine}]

FailIsPermanent(d, s, i, max) ==
  /\ IsPend(d, s, i) /\ InProgress(d, s)
  /\ (CHOOSE q \in PendAt(d, s, i) : TRUE).r + 1 >= max

CancelPost(d, s, t) ==
  IF ~InProgress(d, s) THEN d
  ELSE LET x == Sub(d, s)
       IN [d EXCEPT !.subs = ReplaceSub(d, s, [x EXCEPT !.st = "X", !.cs = -1, !.car = None, !.t = t]),
                    !.pend = @ \ PendOf(d, s),
                    !.fail = @ \cup Skipped(d, s, t)]

(* Answer of a cancellation: "ok", or why it is refused. *)
CancelRes(d, s) ==
  IF ~Known(d, s) THEN "notfound" ELSE IF InProgress(d, s) THEN "ok" ELSE Sub(d, s).st

(* Removal of what finished before epoch `cut' began. *)
OldSubs(d, cut) == {x \in d.subs : x.st # "P" /\ x.t < cut}
CleanupPost(d, cut) ==
  LET old == {x.id : x \in OldSubs(d, cut)}
  IN [d EXCEPT !.subs = {x \in @ : x.id \notin old},
               !.meta = {m \in @ : m.s \notin old},
               !.comp = {c \in @ : c.t >= cut /\ c.s \notin old},
               !.fail = {c \in @ : c.t >= cut /\ c.s \notin old}]

(* What cleanup may do with the records of chunks that finished before the cut-off but whose
   submission stays is not fixed: they may go or stay. *)
CleanupOK(d, cut, e) ==
  LET p   == CleanupPost(d, cut)
      old == {x.id : x \in OldSubs(d, cut)}
  IN /\ e.subs = p.subs /\ e.meta = p.meta /\ e.pend = d.pend
     /\ p.comp \subseteq e.comp /\ e.comp \subseteq {c \in d.comp : c.s \notin old}
     /\ p.fail \subseteq e.fail /\ e.fail \subseteq {c \in d.fail : c.s \notin old}

-----------------------------------------------------------------------------
(* Queries *)

NoStatus == [st |-> "none"]
StatusRes(d, s) ==
  IF ~Known(d, s) THEN NoStatus
  ELSE LET x == Sub(d, s)
           base == [st |-> x.st, id |-> s, total |-> x.total, done |-> x.done, fc |-> x.fc,
                    pfx |-> x.pfx, md |-> x.md, cs |-> x.cs, car |-> x.car, t |-> x.t,
                    sm |-> MetaOf(d, s), failure |-> None, fcontent |-> None]
       IN IF x.st # "F" THEN base
          ELSE LET fs == {c \in d.fail : c.s = s /\ c.i = x.fc}
               IN IF fs = {} THEN base
                  ELSE LET f == CHOOSE g \in fs : TRUE
                       IN [base EXCEPT !.failure = f.f, !.fcontent = f.c]

PrefixOK(d, p, r) ==
  LET m == {x.id : x \in {y \in d.subs : y.pfx = p}}
  IN IF m = {} THEN r = -1 ELSE r \in m

AscSeq(S) == SetToSortSeq(S, <)

LookupRes(d, sm, max) ==
  LET m == {x.id : x \in {y \in d.subs : y.st = "P" /\ sm \subseteq MetaOf(d, y.id)}}
  IN IF Cardinality(m) > max THEN [k |-> "toomany", v |-> max] ELSE [k |-> "ids", v |-> AscSeq(m)]

CountsRes(d) ==
  [p |-> Cardinality({x \in d.subs : x.st = "P"}), c |-> Cardinality({x \in d.subs : x.st = "C"}),
   f |-> Cardinality({x \in d.subs : x.st = "F"}), cp |-> Cardinality(d.pend),
   cc |-> Cardinality(d.comp), cf |-> Cardinality(d.fail)]

BacklogOps(d) == FoldSet(LAMBDA p, acc : acc + Sub(d, p.s).cs, 0, {p \in d.pend : InProgress(d, p.s)})

-----------------------------------------------------------------------------
(* Reservations. A held chunk is [s, i, w, sm]: chunk, holder, and the metadata it counts for. *)

HeldIds(H) == {[s |-> h.s, i |-> h.i] : h \in H}
IsHeld(H, s, i) == \E h \in H : h.s = s /\ h.i = i
Available(d, H) == {p \in d.pend : ~IsHeld(H, p.s, p.i)}

InFlight(H, k, v) == Cardinality({h \in H : [k |-> k, v |-> v] \in h.sm})

(* A strategy is [keys: sequence of metadata keys, base: "Oldest" | "Newest" | "Random"]. *)
RankOf(d, H, k, s) ==
  LET vs == {m.v : m \in {x \in d.meta : x.s = s /\ x.k = k}}
  IN IF vs = {} THEN 0 ELSE InFlight(H, k, CHOOSE v \in vs : TRUE)

RECURSIVE BeforeBy(_, _, _, _, _, _)
BeforeBy(d, H, keys, base, a, b) ==
  IF keys = <<>>
  THEN CASE base = "Oldest" -> a < b [] base = "Newest" -> a > b [] OTHER -> FALSE
  ELSE LET ra == RankOf(d, H, Head(keys), a)
           rb == RankOf(d, H, Head(keys), b)
       IN ra < rb \/ (ra = rb /\ BeforeBy(d, H, Tail(keys), base, a, b))

Before(d, H, strat, a, b) == BeforeBy(d, H, strat.keys, strat.base, a, b)

(* What is wrong with the answer `res' (sequence of chunks with their submissions' data) to a
   request for at most `limit' chunks, if it was computed in state d, H. *)
MinOf(a, b) == IF a < b THEN a ELSE b
ResIds(res) == [j \in 1 .. Len(res) |-> [s |-> res[j].s, i |-> res[j].i]]

FetchOrderOK(d, H, strat, res) ==
  LET av    == Available(d, H)
      ids   == Range(ResIds(res))
      subsA == {p.s : p \in {q \in av : [s |-> q.s, i |-> q.i] \notin ids}}
      subsR == {r.s : r \in Range(res)}
      bef   == {<<a, b>> \in (subsA \cup subsR) \X subsR : Before(d, H, strat, a, b)}
  IN /\ \A a \in subsA, b \in subsR : <<a, b>> \notin bef
     /\ \A j \in 1 .. Len(res) - 1 : <<res[j + 1].s, res[j].s>> \notin bef

FetchDistinct(res) == Cardinality(Range(ResIds(res))) = Len(res)
FetchAvail(d, H, res) == \A j \in 1 .. Len(res) : IsPend(d, res[j].s, res[j].i) /\ ~IsHeld(H, res[j].s, res[j].i)
FetchCount(d, H, limit, res) == Len(res) = MinOf(limit, Cardinality(Available(d, H)))
FetchData(d, res) ==
  \A j \in 1 .. Len(res) :
    LET q == res[j] IN
      IsPend(d, q.s, q.i) =>
        /\ [s |-> q.s, i |-> q.i, r |-> q.r, c |-> q.c] \in d.pend
        /\ Known(d, q.s) =>
             LET x == Sub(d, q.s) IN
               /\ q.pfx = x.pfx /\ q.md = x.md /\ q.cs = x.cs /\ q.car = x.car /\ q.total = x.total
               /\ q.done = x.done /\ Range(q.sm) = MetaOf(d, q.s)

-----------------------------------------------------------------------------
(* What must be true of the stored data at every durable moment. `cleaned': some cleanup has
   run, so records of chunks that finished long ago may be gone. *)

OneStatus(d) == \A x, y \in d.subs : x.id = y.id => x = y

UniquePlace(d) ==
  LET P == {[s |-> p.s, i |-> p.i] : p \in d.pend}
      C == {[s |-> p.s, i |-> p.i] : p \in d.comp}
      F == {[s |-> p.s, i |-> p.i] : p \in d.fail}
  IN /\ P \cap C = {} /\ P \cap F = {} /\ C \cap F = {}
     /\ Cardinality(P) = Cardinality(d.pend)
     /\ Cardinality(C) = Cardinality(d.comp)
     /\ Cardinality(F) = Cardinality(d.fail)

NoOrphans(d) ==
  /\ \A p \in d.pend : InProgress(d, p.s) /\ p.i >= 0 /\ p.i < Sub(d, p.s).total
  /\ \A p \in d.comp : Known(d, p.s) /\ p.i >= 0 /\ p.i < Sub(d, p.s).total
  /\ \A p \in d.fail : Known(d, p.s) /\ p.i >= 0 /\ p.i < Sub(d, p.s).total
  /\ \A m \in d.meta : Known(d, m.s)

DoneCount(d, s) == Cardinality({c \in d.comp : c.s = s})
FailCount(d, s) == Cardinality({c \in d.fail : c.s = s})

Counters(d, cleaned) ==
  \A x \in d.subs :
    LET n == DoneCount(d, x.id)  f == FailCount(d, x.id)  p == Cardinality(PendOf(d, x.id))
    IN CASE x.st = "P" -> p + x.done = x.total /\ (n = x.done \/ (cleaned /\ n < x.done)) /\ f = 0
         [] x.st = "C" -> p = 0 /\ f = 0 /\ (n = x.total \/ (cleaned /\ n < x.total))
         [] x.st = "F" -> p = 0 /\ (n = x.done \/ (cleaned /\ n < x.done)) /\ f = x.total - x.done
         [] x.st = "X" -> p = 0 /\ (n = x.done \/ (cleaned /\ n < x.done)) /\ f = x.total - x.done
         [] OTHER -> FALSE

(* Nothing stays in progress with nothing left to do. *)
Progress(d) == \A x \in d.subs : x.st = "P" => PendOf(d, x.id) # {}

FailureNamed(d) ==
  \A x \in d.subs : x.st = "F" =>
    \E c \in d.fail : c.s = x.id /\ c.i = x.fc /\ c.k = 0 /\ \A e \in d.fail : e.s = x.id /\ e.k = 0 => e = c

RetryBound(d, max) == \A p \in d.pend : p.r < max \/ p.r = 0

(* What may never happen between two consecutive durable states. *)
Same(x, y) == x.total = y.total /\ x.pfx = y.pfx /\ x.md = y.md
TerminalFinal(d, e) ==
  \A x \in d.subs : x.st # "P" => \A y \in e.subs : y.id = x.id => y = x
IdentityKept(d, e) ==
  \A x \in d.subs : \A y \in e.subs : y.id = x.id => Same(x, y)
    /\ (y.st # "X" => y.cs = x.cs /\ y.car = x.car) /\ MetaOf(d, x.id) = MetaOf(e, x.id)
NothingVanishes(d, e) == \A x \in d.subs : Known(e, x.id)

(* Some whole operation leads from d to e (t: epoch; max: retry limit). Contents of new records
   are taken from e itself. *)
LegalInsert(d, e, t) ==
  \E y \in e.subs :
    /\ ~Known(d, y.id)
    /\ LET n == Cardinality(PendOf(e, y.id))
           a == [contents |-> [k \in 1 .. n |-> IF IsPend(e, y.id, k - 1)
                                                THEN (CHOOSE p \in PendAt(e, y.id, k - 1) : TRUE).c ELSE "?"],
                 pfx |-> y.pfx, md |-> y.md, cs |-> y.cs, car |-> y.car, sm |-> MetaOf(e, y.id)]
       IN e = InsertPost(d, a, y.id, t)
LegalComplete(d, e, t) ==
  \E c \in e.comp \ d.comp : e = CompletePost(d, c.s, c.i, c.o, t)
LegalRetry(d, e, max, t) ==
  \E p \in d.pend \ e.pend : ~FailIsPermanent(d, p.s, p.i, max) /\ e = FailPost(d, p.s, p.i, "", max, t)
LegalFail(d, e, max, t) ==
  \E c \in e.fail \ d.fail : c.k = 0 /\ FailIsPermanent(d, c.s, c.i, max) /\ e = FailPost(d, c.s, c.i, c.f, max, t)
LegalCancel(d, e, t) == \E y \in e.subs : y.st = "X" /\ InProgress(d, y.id) /\ e = CancelPost(d, y.id, t)
LegalCleanup(d, e, t) == \E cut \in 0 .. t + 1 : CleanupOK(d, cut, e)

LegalStep(d, e, max, t) ==
  \/ d = e
  \/ LegalInsert(d, e, t) \/ LegalComplete(d, e, t) \/ LegalRetry(d, e, max, t)
  \/ LegalFail(d, e, max, t) \/ LegalCancel(d, e, t) \/ LegalCleanup(d, e, t)
=============================================================================
