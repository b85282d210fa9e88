---------------------------- MODULE OpsqueueTrace ----------------------------
(***************************************************************************)
(* Checks behaviours recorded from the implementation against the          *)
(* specification. The log is a sequence of runs; every line is one         *)
(* operation with its arguments `a', its answer `r', the stored data       *)
(* afterwards `st' (left out when unchanged) and the stored data at every  *)
(* commit in between `mid'. For each line the set of clauses it breaks is  *)
(* computed and printed; checking then goes on from the recorded state.    *)
(***************************************************************************)
EXTENDS OpsqueueData, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

(* H: who holds what; W: requests that wait; recent: the stored states of the last operation and
   whether a request answered during it can have seen one in the middle. *)
VARIABLES l, d, H, W, max, cleaned, recent
vars == <<l, d, H, W, max, cleaned, recent>>

Has(r, f) == f \in DOMAIN r
SetOf(q) == Range(q)

ToD(x) == [subs |-> SetOf(x.subs), pend |-> SetOf(x.pend), comp |-> SetOf(x.comp),
           fail |-> SetOf(x.fail), meta |-> SetOf(x.meta)]

If(c, name) == IF c THEN {} ELSE {name}

-----------------------------------------------------------------------------
(* Where two stored states differ. *)
SubFields == {"st", "total", "done", "fc", "pfx", "md", "cs", "car", "t"}
SubDiff(x, y) ==   \* sets of submission records
  LET xi == {r.id : r \in x}  yi == {r.id : r \in y}
  IN If(xi = yi, "ids")
     \cup UNION {LET p == CHOOSE r \in x : r.id = k
                     q == CHOOSE r \in y : r.id = k
                 IN {f \in SubFields : p[f] # q[f]} : k \in xi \cap yi}
     \cup If(Cardinality(xi) = Cardinality(x) /\ Cardinality(yi) = Cardinality(y), "twice")
(* The time something happened is only compared by epoch; see `t'. *)
Diff(e, f) ==
  (IF e.subs = f.subs THEN {} ELSE {"subs." \o z : z \in SubDiff(e.subs, f.subs)})
  \cup If(e.pend = f.pend, "pend") \cup If(e.comp = f.comp, "comp")
  \cup If(e.fail = f.fail, "fail") \cup If(e.meta = f.meta, "meta")
Named(op, S) == {op \o "." \o z : z \in S}

-----------------------------------------------------------------------------
(* Single operations *)
Args(a) == [a EXCEPT !.sm = SetOf(a.sm)]

Writes == {"insert", "complete", "fail", "cancel", "cleanup"}

(* The stored data after operation ev in state x; for cleanup see PostBad. *)
Expected(x, ev, t) ==
  CASE ev.op = "insert"   -> IF ev.r.k = "id" THEN InsertPost(x, Args(ev.a), ev.a.id, t) ELSE x
    [] ev.op = "complete" -> CompletePost(x, ev.a.s, ev.a.i, ev.a.out, t)
    [] ev.op = "fail"     -> FailPost(x, ev.a.s, ev.a.i, ev.a.msg, max, t)
    [] ev.op = "cancel"   -> CancelPost(x, ev.a.s, t)
    [] ev.op = "cleanup"  -> CleanupPost(x, ev.a.cut)
    [] OTHER -> x

PostBad(x, ev, t, y) ==
  IF ev.op = "cleanup"
  THEN IF CleanupOK(x, ev.a.cut, y) THEN {}
       ELSE LET S == Diff(Expected(x, ev, t), y) IN IF S = {} THEN {"other"} ELSE S
  ELSE Diff(Expected(x, ev, t), y)

(* A report about a chunk that is not to do, has a name of its own. *)
OpName(x, ev) ==
  IF ev.op \in {"complete", "fail"} /\ ~(IsPend(x, ev.a.s, ev.a.i) /\ InProgress(x, ev.a.s)) THEN "late"
  ELSE IF ev.op = "cancel" /\ ~InProgress(x, ev.a.s) THEN "refuse"
  ELSE IF ev.op = "fail" /\ FailIsPermanent(x, ev.a.s, ev.a.i, max) THEN "failed"
  ELSE IF ev.op = "insert" /\ ev.a.contents = <<>> THEN "empty"
  ELSE IF ev.op = "complete" /\ Cardinality(PendOf(x, ev.a.s)) = 1 THEN "last"
  ELSE ev.op

StatusBad(v, w) ==   \* expected, actual
  IF v.st = "none" \/ w.st = "none" \/ v.st # w.st THEN If(v.st = w.st, "st")
  ELSE {f \in {"id", "total", "done", "fc", "pfx", "md", "cs", "car", "t", "failure", "fcontent"} :
          ~Has(w, f) \/ (v[f] # w[f] /\ (v.st = "X" => f \notin {"cs", "car"}))}
       \cup If(SetOf(w.sm) = v.sm, "sm")

ResBad(x, ev) ==
  LET r == ev.r  a == ev.a IN
  CASE r.k \in {"hung", "gone", "panic"} -> {r.k}
    [] ev.op = "insert" -> If(r.k = "id", "refused")
    [] ev.op \in {"complete", "fail"} -> {}
    [] ev.op = "cancel" ->
         LET c == CancelRes(x, a.s) IN
         CASE c = "ok" -> If(r.k = "ok", "answer")
           [] c = "notfound" -> If(r.k = "notfound", "answer")
           [] OTHER -> IF r.k # "refused" THEN {"answer"} ELSE Named("reason", StatusBad(StatusRes(x, a.s), r.v))
    [] ev.op = "cleanup" -> If(r.k = "ok", "answer")
    [] ev.op = "status" -> IF r.k # "status" THEN {"error"} ELSE StatusBad(StatusRes(x, a.s), r.v)
    [] ev.op = "getsub" -> IF r.k # "status" THEN {"error"}
                           ELSE StatusBad(IF InProgress(x, a.s) THEN StatusRes(x, a.s) ELSE NoStatus, r.v)
    [] ev.op = "prefix" -> IF r.k # "id" THEN {"error"} ELSE If(PrefixOK(x, a.p, r.v), "id")
    [] ev.op = "lookup" ->
         LET e == LookupRes(x, SetOf(a.sm), a.max) IN
         IF r.k # e.k THEN {"kind"}
         ELSE IF e.k = "toomany" THEN If(r.v = e.v, "max")
         ELSE If(r.v = e.v, IF SetOf(r.v) = SetOf(e.v) THEN "order" ELSE "ids")
    [] ev.op = "counts" -> IF r.k # "counts" THEN {"error"}
                           ELSE LET e == CountsRes(x) IN {f \in DOMAIN e : Has(r.v, f) /\ r.v[f] # e[f]}
    [] ev.op = "backlog" -> IF r.k # "n" THEN {"error"} ELSE If(r.v = BacklogOps(x), "n") \cup (IF Has(r, "chunks") THEN If(r.chunks = Cardinality(x.pend), "chunks") ELSE {})
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* What must hold of every stored state and of every step between two of them *)
StateBad(y, cl) ==
  If(UniquePlace(y), "inv.place") \cup If(NoOrphans(y), "inv.orphan")
  \cup If(OneStatus(y), "inv.onestatus")
  \cup (IF OneStatus(y) /\ NoOrphans(y)
        THEN If(Counters(y, cl), "inv.counters") \cup If(Progress(y), "inv.progress")
             \cup If(FailureNamed(y), "inv.named") \cup If(RetryBound(y, max), "inv.retry")
        ELSE {})

StepBad(x, y, t, clean) ==
  If(TerminalFinal(x, y), "step.final") \cup If(IdentityKept(x, y), "step.identity")
  \cup (IF clean THEN {} ELSE If(NothingVanishes(x, y), "step.vanish"))
  \cup If(LegalStep(x, y, max, t), "step.whole")

(* The stored states of a line, beginning with the one before it. *)
States(ev, post) ==
  <<d>> \o (IF Has(ev, "mid") THEN [j \in 1 .. Len(ev.mid) |-> ToD(ev.mid[j])] ELSE <<>>) \o <<post>>

StatesBad(ev, q, cl) ==
  UNION {StateBad(q[j], cl) : j \in {k \in 2 .. Len(q) : q[k] # q[k - 1]}}
  \cup UNION {StepBad(q[j], q[j + 1], ev.t, ev.op \in {"cleanup", "race", "burst"}) : j \in {k \in 1 .. Len(q) - 1 : q[k] # q[k + 1]}}

-----------------------------------------------------------------------------
(* The stored data without the times. A new epoch may begin in the middle of the last operation. *)
Timeless(x) == [x EXCEPT !.subs = {[r EXCEPT !.t = 0] : r \in @}, !.comp = {[r EXCEPT !.t = 0] : r \in @},
                         !.fail = {[r EXCEPT !.t = 0] : r \in @}]

(* A plain operation: it has its effect, and its answer fits. *)
PlainBad(ev, post) ==
  IF ev.op = "age" THEN Named("age", Diff(Timeless(d), Timeless(post))) ELSE
  Named(OpName(d, ev), PostBad(d, ev, ev.t, post)) \cup Named(OpName(d, ev) \o ".answer", ResBad(d, ev))

(* One of its commits was made to fail: all or nothing, and nothing acknowledged is missing. *)
FaultBad(ev, post) ==
  LET evok == IF ev.op = "insert" /\ ev.r.k # "id" THEN [ev EXCEPT !.r = [k |-> "id"]] ELSE ev
      all  == IF ev.op = "insert" /\ ev.r.k # "id" THEN post # d ELSE PostBad(d, ev, ev.t, post) # {}
  IN (IF post = d THEN If(~(ev.op = "insert" /\ ev.r.k = "id") /\ ~(ev.op = "cancel" /\ ev.r.k = "ok" /\ InProgress(d, ev.a.s)),
                          "fault.acked")
      ELSE If(~all, "fault.partial"))

(* Two operations at the same time. m runs, w is run inside it. *)
OneBad(x, ev, t, y) == IF ev.op \in Writes THEN PostBad(x, ev, t, y) \cup ResBad(x, ev) ELSE If(x = y, "st") \cup ResBad(x, ev)

RaceBad(ev, q) ==
  LET m == ev.a.m  w == ev.a.w  X == SetOf(q)  post == q[Len(q)]
      mw == m.op \in Writes  ww == w.op \in Writes
  IN IF mw /\ ww
     THEN If(\E x \in X : \/ OneBad(d, m, ev.t, x) = {} /\ OneBad(x, w, ev.t, post) = {}
                          \/ OneBad(d, w, ev.t, x) = {} /\ OneBad(x, m, ev.t, post) = {}, "race.writes")
     ELSE LET rd == IF mw THEN w ELSE m
              wr == IF mw THEN m ELSE w
              B(x) == ResBad(x, rd)
          IN Named("race." \o rd.op, IF \E x \in X : B(x) = {} THEN {} ELSE B(d) \cap B(post))
             \cup If(\E x \in X : B(x) = {}, "race." \o rd.op)
             \cup (IF wr.op \in Writes THEN Named("race." \o wr.op, OneBad(d, wr, ev.t, post)) ELSE If(post = d, "race.reads"))
-----------------------------------------------------------------------------
(* Reservations *)
ChunkOf(r) == [s |-> r.s, i |-> r.i]
Got(r) == IF r.k = "chunks" THEN r.v ELSE <<>>
Taken(x, w, res) == {[s |-> res[j].s, i |-> res[j].i, w |-> w, sm |-> SetOf(res[j].sm)] : j \in 1 .. Len(res)}

(* The data of a chunk and its submission; `exact': also what changes while it is worked on. *)
DataBad(x, q, exact) ==
  LET p == PendAt(x, q.s, q.i) IN
  IF p = {} \/ ~Known(x, q.s) THEN {}
  ELSE LET y == Sub(x, q.s)  z == CHOOSE a \in p : TRUE
       IN If(q.own, "own") \cup If(q.c = z.c, "c")
          \cup {f \in {"pfx", "md", "cs", "car", "total"} : q[f] # y[f]}
          \cup If(SetOf(q.sm) = MetaOf(x, q.s), "sm")
          \cup (IF exact THEN If(q.r = z.r, "r") \cup If(q.done = y.done, "done") ELSE {})

(* What is wrong with the answer r to a request for lim chunks in state x, h. *)
AnswerBad(x, h, lim, strat, r) ==
  IF lim = 0 THEN If(r.k = "zero", "zero")
  ELSE CASE r.k = "wait" -> If(Available(x, h) = {}, "idle")
         [] r.k # "chunks" -> {r.k}
         [] OTHER ->
              LET v == r.v  b == [k \in 1 .. Len(v) |-> DataBad(x, v[k], TRUE)] IN
              If(v # <<>>, "empty") \cup If(FetchDistinct(v), "twice")
              \cup If(\A j \in 1 .. Len(v) : IsPend(x, v[j].s, v[j].i), "dead")
              \cup If(\A j \in 1 .. Len(v) : ~IsHeld(h, v[j].s, v[j].i), "held")
              \cup If(Len(v) <= lim, "over")
              \cup If(Len(v) >= MinOf(lim, Cardinality(Available(x, h))), "short")
              \cup If(FetchOrderOK(x, h, strat, v), "order")
              \cup Named("data", UNION {b[k] : k \in 1 .. Len(v)})
(* Named after what was asked for as well. *)
Tagged(op, strat, S) ==
  Named(op, S) \cup (IF strat.keys # <<>> THEN Named(op \o ".keys", S) ELSE {})
  \cup (IF strat.base = "Random" THEN Named(op \o ".random", S) ELSE {})

(* When the database failed, the answer may be empty (nothing is held then, and it is an answer). *)
FetchBad(ev) ==
  IF Has(ev, "fault") /\ ev.a.lim > 0 /\ ev.r.k = "chunks" /\ ev.r.v = <<>> THEN {}
  ELSE Tagged("fetch", ev.a.strat, AnswerBad(d, H, ev.a.lim, ev.a.strat, ev.r))

(* Requests for all of very many chunks: every one of them, once, and in order. *)
BulkBad(ev) ==
  UNION {LET r == ev.r.v[j] IN
         Tagged("fetch", ev.a.strat,
           If(r.twice = 0, "twice") \cup If(r.missing = 0, "short") \cup If(r.foreign = 0, "dead") \cup If(r.over = 0, "over")
           \cup If(ev.a.strat.keys # <<>> \/ (CASE ev.a.strat.base = "Oldest" -> r.asc = 0 [] ev.a.strat.base = "Newest" -> r.desc = 0 [] OTHER -> TRUE), "order"))
         : j \in 1 .. Len(ev.r.v)}

(* Many threads at the in-memory counts and reservations: no change is lost, nobody gets what somebody has. *)
StressBad(ev) ==
  {IF x.n > x.inc - x.dec THEN "inflight.high" ELSE "inflight.low" : x \in {y \in SetOf(ev.r.v) : y.n # y.inc - y.dec}}
  \cup If(ev.r.panics = 0, "inflight.panic")
  \cup UNION {LET r == ev.r.rounds[j] IN If(r.twice = 0, "fetch.held") \cup If(r.none = 0, "fetch.short")
                                         \cup If(r.stolen = 0, "fetch.held") \cup If(r.kept = 0, "fetch.idle") : j \in 1 .. Len(ev.r.rounds)}

(* Requests answered after they had to wait. If there is only one and what was before is clear, its
   answer is known; otherwise what can be said of all of them together. *)
WakeBad(ev) ==
  LET A == ev.a.answers
      n == Len(A)
      all == [j \in 1 .. n |-> Got(A[j].r)]
      flat == FlattenSeq(all)
      H2 == H \cup UNION {Taken(d, A[j].w, all[j]) : j \in 1 .. n}
  IN If(~ev.a.lost, "wake.lost") \cup If(ev.a.strays = <<>>, "wake.stray")
     \cup If(\A j \in 1 .. n : \E x \in W : x.w = A[j].w /\ x.nonce = A[j].nonce, "wake.unasked")
     \cup If(\A j, k \in 1 .. n : j # k => <<A[j].w, A[j].nonce>> # <<A[k].w, A[k].nonce>>, "wake.again")
     \cup If(\A j \in 1 .. n : A[j].r.k = "chunks", "wake.kind")
     \cup If(recent.fault \/ \A j \in 1 .. n : all[j] # <<>>, "wake.empty")
     \cup (IF n = 1 /\ recent.exact
           THEN Tagged("wake", A[1].strat, AnswerBad(d, H, A[1].lim, A[1].strat, A[1].r))
           ELSE If(FetchDistinct(flat), "wake.twice")
                \cup If(\A j \in 1 .. Len(flat) : \E x \in recent.q \cup {d} : IsPend(x, flat[j].s, flat[j].i), "wake.dead")
                \cup If(\A j \in 1 .. Len(flat) : ~IsHeld(H, flat[j].s, flat[j].i), "wake.held")
                \cup If(\A j \in 1 .. n : Len(all[j]) <= A[j].lim, "wake.over")
                \cup Named("wake.data", UNION {DataBad(d, flat[j], FALSE) : j \in 1 .. Len(flat)})
                \cup (IF recent.exact THEN If((\E j \in 1 .. n : Len(all[j]) < A[j].lim) => Available(d, H2) = {}, "wake.short") ELSE {}))

ExpireBad(ev) ==
  If(~ev.a.early, "expire.early")
  \cup If(\A h \in H : IsPend(d, h.s, h.i) => \E j \in 1 .. Len(ev.a.told) : ev.a.told[j] = [w |-> h.w, s |-> h.s, i |-> h.i], "expire.untold")

InFlightBad(ev) ==
  LET n(v) == LET S == {j \in 1 .. Len(ev.r.v) : ev.r.v[j].v = v} IN IF S = {} THEN 0 ELSE ev.r.v[CHOOSE j \in S : TRUE].n
      vals == {m.v : m \in UNION {h.sm : h \in H}} \cup {ev.r.v[j].v : j \in 1 .. Len(ev.r.v)}
  IN {IF n(v) > InFlight(H, ev.a.k, v) THEN "inflight.high" ELSE "inflight.low" :
         v \in {u \in vals : n(u) # InFlight(H, ev.a.k, u)}}

-----------------------------------------------------------------------------
(* Several operations at once *)
Posts(x, o, t) ==
  IF o.op = "cleanup" THEN LET p == CleanupPost(x, o.a.cut) old == {y.id : y \in OldSubs(x, o.a.cut)} IN
         {p, [p EXCEPT !.comp = {c \in x.comp : c.s \notin old}, !.fail = {c \in x.fail : c.s \notin old}]}
  ELSE {Expected(x, o, t)}
RECURSIVE Reach(_, _, _)
Reach(X, ops, t) ==     \* the states after all of ops in some order, with answers that fit
  IF ops = {} THEN X
  ELSE UNION {Reach(UNION {Posts(x, o, t) : x \in {y \in X : ResBad(y, o) = {}}}, ops \ {o}, t) : o \in ops}

Idx(S) == {[n |-> j, op |-> S[j].op, a |-> S[j].a, r |-> S[j].r] : j \in 1 .. Len(S)}
BurstBad(ev, q) ==
  LET ops  == Idx(ev.a.ops)
      X    == SetOf(q)
      post == q[Len(q)]
      ws   == {o \in ops : o.op \in Writes}
      fs   == {o \in ops : o.op = "fetch"}
      rs   == {o \in ops : o.op \in {"status", "prefix", "lookup", "counts"}}
      gone == {o.a.w : o \in {x \in ops : x.op = "disc"}}
      given(h) == h.w \in gone \/ \E o \in ops : o.op \in {"complete", "fail"} /\ o.a.w = h.w /\ o.a.s = h.s /\ o.a.i = h.i
      kept == {h \in H : ~given(h)}
      flat == FlattenSeq([j \in 1 .. Len(ev.a.ops) |-> IF ev.a.ops[j].op = "fetch" THEN Got(ev.a.ops[j].r) ELSE <<>>])
      loose == \E o \in ops : o.op \in {"fail", "complete"} /\ \E j \in 1 .. Len(flat) : ChunkOf(flat[j]) = [s |-> o.a.s, i |-> o.a.i]
      sure == {p \in d.pend : ~IsHeld(H, p.s, p.i) /\ (\A x \in X : IsPend(x, p.s, p.i))
                              /\ \A j \in 1 .. Len(flat) : ChunkOf(flat[j]) # [s |-> p.s, i |-> p.i]}
      m    == ev.a.ops[1]
  IN UNION {Named("burst." \o o.op, {o.r.k} \cap {"hung", "gone", "panic", "err"}) : o \in ops}
     \cup If(post \in Reach({d}, ws, ev.t), "burst.writes")
     \cup UNION {LET B == [x \in X |-> ResBad(x, o)] IN
                 IF \E x \in X : B[x] = {} THEN {} ELSE Named("burst." \o o.op, B[d] \cap B[post]) \cup {"burst." \o o.op} : o \in rs}
     \cup UNION {LET v == Got(o.r) IN Tagged("burst.fetch", o.a.strat,
            (IF o.a.lim = 0 THEN If(o.r.k = "zero", "zero") ELSE
               If(Len(v) <= o.a.lim, "over") \cup If(FetchDistinct(v), "twice")
               \cup If(o.r.k # "chunks" \/ v # <<>>, "empty")
               \cup If(~(o.r.k = "chunks" /\ Len(v) < o.a.lim) \/ sure = {}, "short")
               \cup If(\A j \in 1 .. Len(v) : \E x \in X : IsPend(x, v[j].s, v[j].i), "dead")
               \cup If(\A j \in 1 .. Len(v) : ~IsHeld(kept, v[j].s, v[j].i), "held")
               \cup Named("data", UNION {LET B == {DataBad(x, v[j], FALSE) : x \in {y \in X : IsPend(y, v[j].s, v[j].i)}}
                                         IN IF {} \in B THEN {} ELSE UNION B : j \in 1 .. Len(v)}))) : o \in fs}
     \cup (IF loose \/ gone # {} THEN {} ELSE If(FetchDistinct(flat), "burst.fetch.twice"))
     \cup (IF ev.a.paused /\ ev.a.known /\ m.op = "fetch"
           THEN If(\A j \in 1 .. Len(Got(m.r)) : ChunkOf(Got(m.r)[j]) \in SetOf(ev.a.resv) \/ IsPend(post, Got(m.r)[j].s, Got(m.r)[j].i), "burst.fetch.dead")
           ELSE {})

-----------------------------------------------------------------------------
(* Who holds what afterwards, and who waits *)
Gives(h, o) ==
  \/ o.op \in {"complete", "fail"} /\ Has(o.a, "w") /\ o.a.w = h.w /\ o.a.s = h.s /\ o.a.i = h.i
  \/ o.op = "disc" /\ o.a.w = h.w
  \/ o.op = "fetch" /\ o.r.k = "gone" /\ o.a.w = h.w
  \/ o.op = "expire"

NextH(ev) ==
  CASE ev.op = "fetch" -> {h \in H : ~Gives(h, ev)} \cup Taken(d, ev.a.w, Got(ev.r))
    [] ev.op = "wake"  -> H \cup UNION {Taken(d, ev.a.answers[j].w, Got(ev.a.answers[j].r)) : j \in 1 .. Len(ev.a.answers)}
                            \cup UNION {Taken(d, ev.a.strays[j].w, Got(ev.a.strays[j].r)) : j \in 1 .. Len(ev.a.strays)}
    [] ev.op = "burst" -> {h \in H : \A j \in 1 .. Len(ev.a.ops) : ~Gives(h, ev.a.ops[j])}
                            \cup UNION {LET o == ev.a.ops[j] IN
                                 IF o.op # "fetch" THEN {}
                                 ELSE {h \in Taken(d, o.a.w, Got(o.r)) :     \* what one consumer does has an order
                                         \A k \in 1 .. Len(ev.a.ops) : ~(Gives(h, ev.a.ops[k]) /\ (Has(ev.a.ops[k].a, "z") => ev.a.ops[k].a.z > o.a.z))}
                                 : j \in 1 .. Len(ev.a.ops)}
    [] OTHER -> {h \in H : ~Gives(h, ev)}

Waits(o) == IF o.op = "fetch" /\ o.r.k = "wait" THEN {[w |-> o.a.w, nonce |-> o.a.nonce]} ELSE {}
NextW(ev) ==
  CASE ev.op = "fetch" -> W \cup Waits(ev)
    [] ev.op = "disc"  -> {x \in W : x.w # ev.a.w}
    [] ev.op = "burst" -> {x \in W : \A j \in 1 .. Len(ev.a.ops) : ~(ev.a.ops[j].op = "disc" /\ ev.a.ops[j].a.w = x.w)}
                            \cup UNION {Waits(ev.a.ops[j]) : j \in 1 .. Len(ev.a.ops)}
    [] ev.op = "wake"  -> {x \in W : \A j \in 1 .. Len(ev.a.answers) : ~(ev.a.answers[j].w = x.w /\ ev.a.answers[j].nonce = x.nonce)}
    [] OTHER -> W

-----------------------------------------------------------------------------
Init == l = 1 /\ d = EmptyD /\ H = {} /\ W = {} /\ max = 10 /\ cleaned = FALSE /\ recent = [q |-> {}, exact |-> TRUE, fault |-> FALSE]

Report(ev, S) == IF S = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([line |-> l, bad |-> S]))

Cleans(ev) == \/ ev.op = "cleanup"
              \/ ev.op = "race" /\ "cleanup" \in {ev.a.m.op, ev.a.w.op}
              \/ ev.op = "burst" /\ \E j \in 1 .. Len(ev.a.ops) : ev.a.ops[j].op = "cleanup"

Next ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET ev == Log[l] IN
     IF ev.op = "reset"
     THEN /\ d' = EmptyD /\ H' = {} /\ W' = {} /\ max' = ev.a.max /\ cleaned' = FALSE /\ recent' = [q |-> {}, exact |-> TRUE, fault |-> FALSE]
     ELSE LET post == IF Has(ev, "st") THEN ToD(ev.st) ELSE d
              q == States(ev, post)
              cl == cleaned \/ Cleans(ev)
          IN /\ d' = post /\ max' = max
             /\ cleaned' = cl
             /\ H' = NextH(ev) /\ W' = NextW(ev)
             /\ recent' = IF ev.op = "wake" THEN recent ELSE [q |-> IF ev.op = "burst" THEN SetOf(q) ELSE {}, fault |-> Has(ev, "fault"),
                                                                       exact |-> ev.op \notin {"burst", "expire"} /\ ~Has(ev, "fault")
                                                                           \* what is given back together is given back one by one
                                                                           /\ ~(ev.op = "disc" /\ Cardinality({h \in H : h.w = ev.a.w}) > 1)]
             /\ Report(ev, IF ev.op = "init" THEN {} ELSE
                  (IF ev.op = "age" THEN {} ELSE StatesBad(ev, q, cl))
                  \cup (CASE ev.op = "race" -> RaceBad(ev, q)
                          [] ev.op = "burst" -> BurstBad(ev, q)
                          [] ev.op = "bulk" -> BulkBad(ev)
                          [] ev.op = "stress" -> StressBad(ev)
                          [] ev.op \in {"fetch", "wake", "expire", "inflight", "connect", "disc"} ->
                               If(post = d, ev.op \o ".data")
                               \cup (CASE ev.op = "fetch" -> FetchBad(ev) [] ev.op = "wake" -> WakeBad(ev)
                                       [] ev.op = "expire" -> ExpireBad(ev) [] ev.op = "inflight" -> InFlightBad(ev)
                                       [] OTHER -> If(ev.r.k = "ok", ev.op \o ".refused"))
                          [] ev.op \notin {"race", "burst"} /\ Has(ev, "fault") -> FaultBad(ev, post)
                          [] OTHER -> PlainBad(ev, post)))
             /\ (l = Len(Log) => PrintT("DONE " \o ToString(l)))

Spec == Init /\ [][Next]_vars
=============================================================================
