------------------------------- MODULE WireGen -------------------------------
(***************************************************************************)
(* Behaviours of the whole server as its clients see it: producers insert  *)
(* and cancel, consumers connect, ask for chunks, report them and go away, *)
(* requests that find nothing wait and are served when something is there. *)
(* Used like DbGen: Emit prints every transition once, EmitLong whole      *)
(* histories. The answer a request gets is one of those the strategy       *)
(* allows; the implementation may give another one, which the trace        *)
(* specification then judges.                                              *)
(***************************************************************************)
EXTENDS OpsqueueData, Json, IOUtils, TLCExt

CONSTANTS MaxSubs, Sizes, Vals, NC, Limits, Strats, MaxRetries, MaxDisc, MaxExpire, MaxEpoch, MaxWait, MaxWild, Depth

VARIABLES d, n, epoch, H, W, on, left, hist
vars == <<d, n, epoch, H, W, on, left, hist>>
View == <<d, n, epoch, H, W, on, left>>

Cs == 1 .. NC
Init == /\ d = EmptyD /\ n = 0 /\ epoch = 0 /\ H = {} /\ W = <<>> /\ on = Cs
        /\ left = [disc |-> MaxDisc, exp |-> MaxExpire, wild |-> MaxWild] /\ hist = <<>>

Strat(k) == CASE k = "O" -> [keys |-> <<>>, base |-> "Oldest"] [] k = "N" -> [keys |-> <<>>, base |-> "Newest"]
              [] k = "R" -> [keys |-> <<>>, base |-> "Random"] [] k = "PO" -> [keys |-> <<"k">>, base |-> "Oldest"]
              [] k = "PN" -> [keys |-> <<"k">>, base |-> "Newest"] [] k = "PPO" -> [keys |-> <<"k", "l">>, base |-> "Oldest"]
              [] k = "PR" -> [keys |-> <<"k">>, base |-> "Random"] [] k = "PPN" -> [keys |-> <<"l", "k">>, base |-> "Newest"]

(* v: the values for keys k and l, 0 for none. *)
Meta(v) == (IF v \div 10 = 0 THEN {} ELSE {[k |-> "k", v |-> ToString(v \div 10)]})
           \cup (IF v % 10 = 0 THEN {} ELSE {[k |-> "l", v |-> ToString(v % 10)]})
Arg(k, v) == [contents |-> [j \in 1 .. k |-> "c"], pfx |-> None, md |-> "m", cs |-> 1, car |-> None, sm |-> Meta(v)]

First(S, st) == CHOOSE c \in S : \A b \in S : ~Before(d, H, st, b.s, c.s) /\ ((~Before(d, H, st, c.s, b.s)) => c.s < b.s \/ (c.s = b.s /\ c.i <= b.i))
RECURSIVE Pick(_, _, _)
Pick(S, st, lim) == IF S = {} \/ lim = 0 THEN <<>> ELSE LET c == First(S, st) IN <<c>> \o Pick(S \ {c}, st, lim - 1)

Hold(x, w, q) == {[s |-> q[j].s, i |-> q[j].i, w |-> w, sm |-> MetaOf(x, q[j].s)] : j \in 1 .. Len(q)}

(* Waiting requests are served, the oldest first. *)
RECURSIVE Serve(_, _, _)
Serve(x, h, ws) ==
  IF ws = <<>> THEN [h |-> h, w |-> ws]
  ELSE LET a == Available(x, h) IN
       IF a = {} THEN [h |-> h, w |-> ws]
       ELSE Serve(x, h \cup Hold(x, Head(ws).w, Pick(a, Strat(Head(ws).st), Head(ws).lim)), Tail(ws))

Do(o, x, h, ws) == LET z == Serve(x, h, ws) IN d' = x /\ H' = z.h /\ W' = z.w /\ hist' = Append(hist, o)

Insert(k, v) == n < MaxSubs /\ n' = n + 1 /\ Do([op |-> "insert", n |-> k, v |-> v], InsertPost(d, Arg(k, v), n + 1, epoch), H, W)
                /\ UNCHANGED <<epoch, on, left>>
Cancel(s) == Do([op |-> "cancel", s |-> s], CancelPost(d, s, epoch), H, W) /\ UNCHANGED <<n, epoch, on, left>>
Fetch(w, lim, st) ==
  /\ w \in on /\ \A j \in 1 .. Len(W) : W[j].w # w
  /\ LET a == Available(d, H)  q == Pick(a, Strat(st), lim) IN
     /\ lim > 0 /\ a = {} => Len(W) < MaxWait
     /\ Do([op |-> "fetch", w |-> w, n |-> lim, strat |-> Strat(st)], d, H \cup Hold(d, w, q),
           IF lim > 0 /\ a = {} THEN Append(W, [w |-> w, lim |-> lim, st |-> st]) ELSE W)
  /\ UNCHANGED <<n, epoch, on, left>>
Mine(w, s, i) == \E h \in H : h.s = s /\ h.i = i /\ h.w = w
Report(w, s, i, k) ==
  /\ w \in on /\ (Mine(w, s, i) \/ left.wild > 0)
  /\ left' = IF Mine(w, s, i) THEN left ELSE [left EXCEPT !.wild = @ - 1]
  /\ Do([op |-> k, w |-> w, s |-> s, i |-> i],
        IF k = "complete" THEN CompletePost(d, s, i, "o", epoch) ELSE FailPost(d, s, i, "f", MaxRetries, epoch),
        {h \in H : ~(h.s = s /\ h.i = i /\ h.w = w)}, W)
  /\ UNCHANGED <<n, epoch, on>>
Disc(w, how) ==
  /\ w \in on /\ left.disc > 0 /\ left' = [left EXCEPT !.disc = @ - 1] /\ on' = on \ {w}
  /\ Do([op |-> "disc", w |-> w, how |-> how], d, {h \in H : h.w # w}, SelectSeq(W, LAMBDA x : x.w # w))
  /\ UNCHANGED <<n, epoch>>
Connect(w) == w \notin on /\ on' = on \cup {w} /\ Do([op |-> "connect", w |-> w], d, H, W) /\ UNCHANGED <<n, epoch, left>>
Expire == /\ left.exp > 0 /\ H # {} /\ left' = [left EXCEPT !.exp = @ - 1]
          /\ Do([op |-> "expire"], d, {}, W) /\ UNCHANGED <<n, epoch, on>>
Age == epoch < MaxEpoch /\ epoch' = epoch + 1 /\ Do([op |-> "age"], d, H, W) /\ UNCHANGED <<n, on, left>>
Cleanup(k) == Do([op |-> "cleanup", k |-> k], CleanupPost(d, k), H, W) /\ UNCHANGED <<n, epoch, on, left>>

Next ==
  \/ \E k \in Sizes, v \in Vals : Insert(k, v)
  \/ \E s \in 1 .. n : Cancel(s)
  \/ \E w \in Cs :
       \/ \E lim \in Limits, st \in Strats : Fetch(w, lim, st)
       \/ \E p \in {[s |-> x.s, i |-> x.i] : x \in d.pend \cup d.comp \cup d.fail} : Report(w, p.s, p.i, "complete") \/ Report(w, p.s, p.i, "fail")
       \/ \E how \in {"close", "drop"} : Disc(w, how)
       \/ Connect(w)
  \/ Expire \/ Age \/ \E k \in 1 .. epoch : Cleanup(k)

Spec == Init /\ [][Next]_vars

FP(v) == ToString(TLCFP(v))
Emit == PrintT("E " \o FP(View) \o " " \o FP(View') \o " " \o ToJson(hist'[Len(hist')]))
EmitLong == Len(hist') = Depth => PrintT("B " \o ToJson(hist'))

(* Checked on the way. *)
Exclusive == \A g, h \in H : g.s = h.s /\ g.i = h.i => g = h
Served    == W # <<>> => Available(d, H) = {}
Inv == Exclusive /\ Served /\ UniquePlace(d) /\ NoOrphans(d) /\ Progress(d)
=============================================================================
