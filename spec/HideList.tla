-------------------------------- MODULE HideList -----------------------------
(***************************************************************************)
(* From a filtering run to hide lists (SMTContext.perform_grf): antecedents*)
(* 1 .. A and succedents 1 .. S of a sequent; the last succedent is the    *)
(* goal, the others become negated hypotheses behind the antecedents, last *)
(* first.  The loop withholds some hypotheses; positions to hide are       *)
(* counted in the sequent as given.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxA, MaxS
VARIABLES a, s, withheld, i, ha, hs, pc
\* hypotheses: <<"a", n>> and <<"s", n>>
HypSeq == [n \in 1 .. a |-> <<"a", n>>] \o [n \in 1 .. (s - 1) |-> <<"s", s - n>>]
Range(q) == {q[n] : n \in 1 .. Len(q)}
Init == /\ a \in 0 .. MaxA /\ s \in 1 .. MaxS /\ withheld = {} /\ i = 1 /\ ha = << >> /\ hs = << >> /\ pc = "filter"
Filter == /\ pc = "filter" /\ \E W \in SUBSET Range(HypSeq) : withheld' = W
          /\ pc' = "ante" /\ UNCHANGED <<a, s, i, ha, hs>>
Ante == /\ pc = "ante" /\ UNCHANGED <<a, s, withheld, hs>>
        /\ IF i <= a THEN i' = i + 1 /\ pc' = pc /\ ha' = IF <<"a", i>> \in withheld THEN Append(ha, i) ELSE ha
           ELSE i' = 1 /\ pc' = "succ" /\ ha' = ha
Succ == /\ pc = "succ" /\ UNCHANGED <<a, s, withheld, ha>>
        /\ IF i <= s THEN i' = i + 1 /\ pc' = pc /\ hs' = IF <<"s", i>> \in withheld THEN Append(hs, i) ELSE hs
           ELSE i' = i /\ pc' = "done" /\ hs' = hs
Next == Filter \/ Ante \/ Succ
vars == <<a, s, withheld, i, ha, hs, pc>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InRange == Range(ha) \subseteq 1 .. a /\ Range(hs) \subseteq 1 .. s
GoalKept == s \notin Range(hs)
Exact == pc = "done" => {<<"a", n>> : n \in Range(ha)} \union {<<"s", n>> : n \in Range(hs)} = withheld
Ends == <>(pc = "done")
=============================================================================
