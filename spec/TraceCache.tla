------------------------------ MODULE TraceCache -----------------------------
(***************************************************************************)
(* Recorded histories of processes sharing a cache directory.  Events:     *)
(*   reset            a new, empty cache directory                         *)
(*   start/kill  p                                                         *)
(*   value       id, kind/n guess, rows: a matrix the code returned, times *)
(*               2^n for inverses                                          *)
(*   call        p, kind, n                                                *)
(*   return      p, id  |  raise p, what                                   *)
(* State: which processes run, what each is asked for, and which value     *)
(* every id denotes.                                                       *)
(***************************************************************************)
EXTENDS MatrixValue, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, up, pending, denotes
vars == <<l, up, pending, denotes, size>>
None == <<"none", 0>>
TInit == l = 0 /\ up = {} /\ pending = [p \in 1 .. 9 |-> None] /\ denotes = << >> /\ size = 0

Valid(k) == k[2] \in 1 .. 5
Denotes(e) == IF e.n \in 1 .. 5 /\ e.rows = Value(e.kind, e.n) THEN <<e.kind, e.n>> ELSE None

Verdict(e) ==
  CASE e.e = "return" ->
         IF ~Valid(pending[e.p]) THEN "answered-a-size-to-refuse"
         ELSE IF denotes[e.id] # pending[e.p] THEN "wrong-matrix"
         ELSE "ok"
    [] e.e = "raise" -> IF Valid(pending[e.p]) THEN "request-failed" ELSE "ok"
    [] e.e = "start" -> IF e.ok THEN "ok" ELSE "new-process-cannot-start"
    [] OTHER -> "ok"

TNext ==
  /\ l < Len(Trace) /\ l' = l + 1 /\ size' = size
  /\ LET e == Trace[l + 1]
         v == Verdict(e)
     IN /\ IF v = "ok" THEN TRUE ELSE PrintT("VERDICT " \o ToString(l) \o " " \o v)
        /\ CASE e.e = "reset" -> up' = {} /\ pending' = [p \in 1 .. 9 |-> None] /\ UNCHANGED denotes
             [] e.e = "start" -> up' = up \union {e.p} /\ pending' = [pending EXCEPT ![e.p] = None] /\ UNCHANGED denotes
             [] e.e = "kill" -> up' = up \ {e.p} /\ pending' = [pending EXCEPT ![e.p] = None] /\ UNCHANGED denotes
             [] e.e = "value" -> denotes' = Append(denotes, Denotes(e)) /\ UNCHANGED <<up, pending>>
             [] e.e = "call" -> pending' = [pending EXCEPT ![e.p] = <<e.kind, e.n>>] /\ UNCHANGED <<up, denotes>>
             [] e.e \in {"return", "raise"} -> pending' = [pending EXCEPT ![e.p] = None] /\ UNCHANGED <<up, denotes>>
=============================================================================
