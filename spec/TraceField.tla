----------------------------- MODULE TraceField ------------------------------
(* Recorded answers over non-rational coefficients against module Field.     *)
EXTENDS Field, TraceBase

JudgeSat(e) ==
  LET sat == Solvable(e.ps, e.rels)
  IN IF e.out.v = sat THEN "ok"
     ELSE IF sat THEN "says-unsatisfiable-but-a-solution-exists"
     ELSE "says-satisfiable-but-there-is-no-solution"

JudgeQuery(e) == IF e.out.v = Query(e.ps[1], e.ps[2]) THEN "ok" ELSE "tarski-query-is-not-the-count"

\* e.out.v: one record per described root, [root |-> number, at |-> sign, right |-> sign]
JudgeNear(e) ==
  LET v == e.out.v
      got == {v[i].root : i \in 1 .. Len(v)}
  IN IF got # RootsOf(e.ps[1]) \/ Len(v) # Cardinality(RootsOf(e.ps[1])) THEN "not-each-root-described-once"
     ELSE IF \E i \in 1 .. Len(v) : v[i].at # SignAt(e.ps[2], <<"at", v[i].root>>) THEN "wrong-sign-at-a-root"
     ELSE IF \E i \in 1 .. Len(v) : v[i].right # SignAt(e.ps[2], <<"right", v[i].root>>) THEN "wrong-sign-right-of-a-root"
     ELSE "ok"

JudgeField(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE CASE e.op \in {"vts", "ts"} -> JudgeSat(e)
         [] e.op = "tarski" -> JudgeQuery(e)
         [] e.op = "at" -> JudgeNear(e)
=============================================================================
