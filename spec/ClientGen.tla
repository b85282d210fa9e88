------------------------------- MODULE ClientGen -------------------------------
(***************************************************************************)
(* Behaviours of the surroundings of a consumer client: what its users ask *)
(* of it, and what the server and the network do to it. Used like WireGen. *)
(* ClientTrace says what the client has to make of them.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, TLCExt

CONSTANTS MaxCalls, MaxLose, MaxSide, MaxDown, Depth
VARIABLES up, conn, sent, new, gone, k, left, hist
vars == <<up, conn, sent, new, gone, k, left, hist>>
View == <<up, conn, sent, new, gone, k, left>>

(* conn: the client has a connection; sent: requests the server has and has not answered; new: calls that
   wait for a connection; gone: those of them whose caller has gone. *)
Init == /\ up = TRUE /\ conn = FALSE /\ sent = {} /\ new = {} /\ gone = {} /\ k = 0
        /\ left = [lose |-> MaxLose, side |-> MaxSide, down |-> MaxDown] /\ hist = <<>>
Do(o) == hist' = Append(hist, o)

Call == /\ k < MaxCalls /\ k' = k + 1 /\ Do([op |-> "call", k |-> k + 1])
        /\ IF up THEN conn' = TRUE /\ sent' = sent \cup {k + 1} /\ UNCHANGED new ELSE new' = new \cup {k + 1} /\ UNCHANGED <<conn, sent>>
        /\ UNCHANGED <<up, gone, left>>
Answer(c, a) == /\ c \in sent /\ sent' = sent \ {c} /\ gone' = gone \ {c} /\ Do([op |-> "answer", k |-> c, a |-> a])
                /\ UNCHANGED <<up, conn, new, k, left>>
Abandon(c) == /\ c \in (sent \cup new) \ gone
              /\ IF c \in new THEN new' = new \ {c} /\ UNCHANGED gone ELSE gone' = gone \cup {c} /\ UNCHANGED new
              /\ Do([op |-> "abandon", k |-> c]) /\ UNCHANGED <<up, conn, sent, k, left>>
Side(w) == /\ left.side > 0 /\ conn /\ left' = [left EXCEPT !.side = @ - 1] /\ Do([op |-> w])
           /\ UNCHANGED <<up, conn, sent, new, gone, k>>
Lost == conn' = FALSE /\ sent' = {} /\ gone' = {}
Lose(how) == /\ left.lose > 0 /\ conn /\ left' = [left EXCEPT !.lose = @ - 1] /\ Lost /\ Do([op |-> how]) /\ UNCHANGED <<up, new, k>>
Down == /\ left.down > 0 /\ up /\ left' = [left EXCEPT !.down = @ - 1] /\ up' = FALSE /\ Lost /\ Do([op |-> "down"]) /\ UNCHANGED <<new, k>>
Up == /\ ~up /\ up' = TRUE /\ conn' = (new # {}) /\ sent' = new /\ new' = {} /\ Do([op |-> "up"]) /\ UNCHANGED <<gone, k, left>>

Next == \/ Call \/ Down \/ Up
        \/ \E c \in 1 .. MaxCalls : Abandon(c) \/ \E a \in {"chunks", "zero"} : Answer(c, a)
        \/ \E w \in {"expired", "ping", "report"} : Side(w)
        \/ \E h \in {"drop", "close", "rubbish"} : Lose(h)
Spec == Init /\ [][Next]_vars

FP(v) == ToString(TLCFP(v))
Emit == PrintT("E " \o FP(View) \o " " \o FP(View') \o " " \o ToJson(hist'[Len(hist')]))
EmitLong == Len(hist') = Depth => PrintT("B " \o ToJson(hist'))
=============================================================================
