------------------------------- MODULE Sequent -------------------------------
(***************************************************************************)
(* Validity of an implication, and the clauses refuting it.                *)
(*                                                                         *)
(* The first part is the design of vts_preformat on abstract relations: a  *)
(* relation is a polynomial (by number) and an operator, or TRUE or FALSE; *)
(* the machine removes decided relations, negates conclusions, orients     *)
(* relations and distributes.  Checked for every sign vector of the        *)
(* polynomials: a point falsifies the implication iff it satisfies a       *)
(* clause.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NPoly, MaxA, MaxS
Ops == {"le", "lt", "eq", "ne", "ge", "gt"}
\* operator applied to s * p, s = 1 or -1
Rel == {[op |-> o, p |-> i, s |-> 1] : o \in Ops, i \in 1 .. NPoly} \union
       {[op |-> b, p |-> 0, s |-> 1] : b \in {"true", "false"}}
Holds(r, sv) ==
  IF r.p = 0 THEN r.op = "true"
  ELSE LET v == r.s * sv[r.p]
       IN CASE r.op = "le" -> v <= 0 [] r.op = "lt" -> v < 0 [] r.op = "eq" -> v = 0
            [] r.op = "ne" -> v # 0 [] r.op = "ge" -> v >= 0 [] r.op = "gt" -> v > 0
Negated(r) == [r EXCEPT !.op = CASE r.op = "le" -> "gt" [] r.op = "lt" -> "ge" [] r.op = "eq" -> "ne"
                                 [] r.op = "ne" -> "eq" [] r.op = "ge" -> "lt" [] r.op = "gt" -> "le"]
Oriented(r) == IF r.op = "ge" THEN [r EXCEPT !.op = "le", !.s = -r.s]
               ELSE IF r.op = "gt" THEN [r EXCEPT !.op = "lt", !.s = -r.s] ELSE r

VARIABLES ante, succ, stage, clauses
vars == <<ante, succ, stage, clauses>>
Init == /\ ante \in {A \in SUBSET Rel : Cardinality(A) <= MaxA}
        /\ succ \in {S \in SUBSET Rel : Cardinality(S) <= MaxS}
        /\ stage = "filter" /\ clauses = {}
UndecidedOr(S) == {r \in S : r.op # "true"}
Filter == /\ stage = "filter"
          /\ IF UndecidedOr(ante) = {} \/ UndecidedOr(succ) = {} THEN stage' = "refused" /\ UNCHANGED clauses
             ELSE IF \E r \in ante : r.op = "false" THEN stage' = "done" /\ clauses' = {}
             ELSE stage' = "distribute" /\ UNCHANGED clauses
          /\ UNCHANGED <<ante, succ>>
Distribute ==
  /\ stage = "distribute" /\ stage' = "done"
  /\ LET a == {Oriented(r) : r \in UndecidedOr(ante)}
     IN clauses' = {IF r.op = "false" THEN a ELSE a \union {Oriented(Negated(r))} : r \in UndecidedOr(succ)}
  /\ UNCHANGED <<ante, succ>>
Next == Filter \/ Distribute
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

SignVectors == [1 .. NPoly -> {-1, 0, 1}]
Falsified(sv) == (\A r \in ante : Holds(r, sv)) /\ (\E r \in succ : ~Holds(r, sv))
Equivalent == stage = "done" =>
  \A sv \in SignVectors : Falsified(sv) <=> \E c \in clauses : \A r \in c : Holds(r, sv)
NoGreater == stage = "done" => \A c \in clauses : \A r \in c : r.op \in {"le", "lt", "eq", "ne"}
Decides == <>(stage \in {"done", "refused"})
=============================================================================
