------------------------------- MODULE GRFLoop -------------------------------
(***************************************************************************)
(* The relevance-filtering loop (RCF_GD_Decide.check).                     *)
(*                                                                         *)
(* The world is a finite set of points; a hypothesis is the set of points  *)
(* where it holds, and so is the goal.  In each round some points are      *)
(* sampled: at least one at which the goal sequent (used hypotheses imply  *)
(* the goal) is false, if there is one (every cell has a sample point),    *)
(* and any others near them (local search).  From the sampled points the   *)
(* bad subsets are read off: the withheld hypotheses that hold where the   *)
(* goal sequent fails.  A point where all of them hold is a counterexample;*)
(* otherwise a lightest set of hypotheses leaving no bad subset whole is   *)
(* computed and one of them (or, interactively, any withheld hypothesis)   *)
(* is promoted.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANTS NHyps, NPoints, Weights, Interactive
VARIABLES hold,      \* hypothesis -> points where it holds
          goal,      \* points where the goal holds
          weight, used, hidden, status, cex
vars == <<hold, goal, weight, used, hidden, status, cex>>
Hyps == 1 .. NHyps
Pts == 1 .. NPoints

TrueAt(U, p) == p \in goal \/ \E h \in U : p \notin hold[h]
BadPts == {p \in Pts : ~TrueAt(used, p)}
Bad(p) == {h \in hidden : p \in hold[h]}
Hits(C, B) == \A b \in B : C \ b # {}
RECURSIVE WeightOf(_)
WeightOf(C) == IF C = {} THEN 0 ELSE LET h == CHOOSE h \in C : TRUE IN weight[h] + WeightOf(C \ {h})
Lightest(B) == {C \in SUBSET hidden : Hits(C, B) /\ \A D \in SUBSET hidden : Hits(D, B) => WeightOf(D) >= WeightOf(C)}

Init == /\ hold \in [Hyps -> SUBSET Pts] /\ goal \in SUBSET Pts /\ weight \in [Hyps -> Weights]
        /\ used = {} /\ hidden = Hyps /\ status = "run" /\ cex = 0
Promote(h) == /\ used' = used \union {h} /\ hidden' = hidden \ {h} /\ UNCHANGED <<status, cex>>
Finish == /\ status = "run" /\ BadPts = {} /\ status' = "done" /\ UNCHANGED <<hold, goal, weight, used, hidden, cex>>
Round(S) ==   \* S: the sampled bad points
  IF \E p \in S : Bad(p) = hidden
  THEN /\ status' = "cex" /\ cex' = (CHOOSE p \in S : Bad(p) = hidden) /\ UNCHANGED <<used, hidden>>
  ELSE LET B == {Bad(p) : p \in S}
       IN \/ \E C \in Lightest(B) : \E h \in C : Promote(h)
          \/ Interactive /\ \E h \in hidden : Promote(h)
Step == /\ status = "run" /\ BadPts # {}
        /\ \E S \in SUBSET BadPts : S # {} /\ Round(S)
        /\ UNCHANGED <<hold, goal, weight>>
Next == Finish \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Partition == used \union hidden = Hyps /\ used \intersect hidden = {}
\* a finished run kept enough hypotheses: whatever the hidden ones say
Sound == status = "done" => \A p \in Pts : TrueAt(used, p)
\* a counterexample falsifies the sequent with all its hypotheses
Truthful == status = "cex" => ~TrueAt(Hyps, cex)
\* valid sequents never end with a counterexample
Complete == (\A p \in Pts : TrueAt(Hyps, p)) => status # "cex"
\* there is always a hypothesis to promote
NeverStuck == status = "run" => (BadPts = {} \/ \A S \in SUBSET BadPts :
   S # {} => (\E p \in S : Bad(p) = hidden) \/ (\A C \in Lightest({Bad(p) : p \in S}) : C # {}))
Ends == <>(status # "run")
=============================================================================
