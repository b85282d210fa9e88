------------------------------- MODULE DbGen -------------------------------
(***************************************************************************)
(* Behaviours of the stored data, for replay into the implementation.      *)
(* `hist' is how a state was reached; it is left out of the view, so TLC   *)
(* visits every state once and prints every transition once (Emit); walks  *)
(* that cover all of them are built from that list. In simulation, whole   *)
(* histories are printed (EmitLong).                                       *)
(***************************************************************************)
EXTENDS OpsqueueData, Json, IOUtils, TLCExt

CONSTANTS MaxSubs, Sizes, Keys, MaxRetries, MaxEpoch, MaxIdx, Depth

VARIABLES d, n, epoch, hist
vars == <<d, n, epoch, hist>>
View == <<d, n, epoch>>

Init == d = EmptyD /\ n = 0 /\ epoch = 0 /\ hist = <<>>

Arg(k, v) == [contents |-> [j \in 1 .. k |-> "c"], pfx |-> "p" \o ToString(n + 1), md |-> "m", cs |-> 1, car |-> None,
              sm |-> IF v = 0 THEN {} ELSE {[k |-> "k", v |-> ToString(v)]}]

Do(o, e) == d' = e /\ hist' = Append(hist, o)

Insert(k, v) ==
  /\ n < MaxSubs
  /\ n' = n + 1 /\ UNCHANGED epoch
  /\ Do([op |-> "insert", n |-> k, v |-> v], InsertPost(d, Arg(k, v), n + 1, epoch))

Complete(s, i) == Do([op |-> "complete", s |-> s, i |-> i], CompletePost(d, s, i, "o", epoch)) /\ UNCHANGED <<n, epoch>>
Fail(s, i) == Do([op |-> "fail", s |-> s, i |-> i], FailPost(d, s, i, "f", MaxRetries, epoch)) /\ UNCHANGED <<n, epoch>>
Cancel(s) == Do([op |-> "cancel", s |-> s], CancelPost(d, s, epoch)) /\ UNCHANGED <<n, epoch>>
Cleanup(k) == Do([op |-> "cleanup", k |-> k], CleanupPost(d, k)) /\ UNCHANGED <<n, epoch>>
Age == epoch < MaxEpoch /\ epoch' = epoch + 1 /\ Do([op |-> "age"], d) /\ UNCHANGED n

Next ==
  \/ \E k \in Sizes, v \in Keys : Insert(k, v)
  \/ \E s \in 1 .. n : Cancel(s) \/ \E i \in 0 .. MaxIdx : Complete(s, i) \/ Fail(s, i)
  \/ Age \/ \E k \in 1 .. epoch : Cleanup(k)

Spec == Init /\ [][Next]_vars

FP(v) == ToString(TLCFP(v))
Emit == PrintT("E " \o FP(View) \o " " \o FP(View') \o " " \o ToJson(hist'[Len(hist')]))
EmitLong == Len(hist') = Depth => PrintT("B " \o ToJson(hist'))

(* Checked on the way; P01 to P05 and P21 hold of the design. *)
Cleaned == \E j \in 1 .. Len(hist) : hist[j].op = "cleanup"
Inv == UniquePlace(d) /\ NoOrphans(d) /\ OneStatus(d) /\ Counters(d, Cleaned) /\ Progress(d)
       /\ FailureNamed(d) /\ RetryBound(d, MaxRetries)
Act == [][TerminalFinal(d, d') /\ IdentityKept(d, d') /\ LegalStep(d, d', MaxRetries, epoch')]_vars
=============================================================================
