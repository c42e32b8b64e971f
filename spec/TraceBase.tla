------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Walks over a recorded trace.  Events are independent calls here, so the *)
(* trace is cut in blocks that TLC's workers judge in parallel.  Each step *)
(* consumes one event whatever its verdict; an event the specification     *)
(* does not allow is reported with the name of the clause it breaks.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANT Judge(_)      \* Judge(event) = "ok" or the name of a broken clause

Trace == ndJsonDeserialize("trace.ndjson")
N == Len(Trace)
Block == 8

VARIABLE l
TraceInit == l \in {b * Block : b \in 0 .. ((N - 1) \div Block)}
TraceNext ==
  /\ l < N
  /\ LET v == Judge(Trace[l + 1])
     IN IF v = "ok" THEN TRUE ELSE PrintT("VERDICT " \o ToString(l) \o " " \o v)
  /\ l' = l + 1
=============================================================================
