------------------------------ MODULE TraceVTS -------------------------------
(* Recorded verdicts of the decision procedures against module Poly's       *)
(* satisfiability.                                                          *)
EXTENDS PolyGen, TraceBase

\* The sign tables of the implementation are documented to hold at most five
\* polynomials.  A root is described by at most (number of roots - 1)
\* discriminating derivatives, so five distinct real roots always fit.
BeyondLimit(e) == e.op = "vts" /\ \E i \in 1 .. Len(e.ps) : NumRoots(e.ps[i]) > 5

JudgeVTS(e) ==
  LET sat == Satisfiable(e.ps, e.rels)
  IN IF e.out.kind = "val"
     THEN IF e.out.v = sat THEN "ok"
          ELSE IF sat THEN "says-unsatisfiable-but-a-solution-exists"
          ELSE "says-satisfiable-but-there-is-no-solution"
     ELSE IF e.out.kind = "exc" /\ BeyondLimit(e) THEN "ok"
     ELSE "no-verdict-" \o e.out.kind
=============================================================================
