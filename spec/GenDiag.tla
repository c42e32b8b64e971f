------------------------------- MODULE GenDiag -------------------------------
(***************************************************************************)
(* Polynomials with parameters for one sign diagram (partial elimination): *)
(* how the signs of the parameter conditions are chosen (typed for a       *)
(* parameter point, or all alike), the point, and answers to be refused    *)
(* before each right one.                                                  *)
(***************************************************************************)
EXTENDS GenQE
VARIABLE more
Rational(z) == IF RInt(1, 3) <= 2 THEN <<RInt(-3, 3), 1>> ELSE <<RInt(-7, 7), RandomElement({2, 3, 5})>>
Typo(z) == RandomElement({IF n < 0 THEN "" ELSE "3", "", "2", "-1", "-2", "x", "1.0", " 1", "+1", "00"})
RECURSIVE Typos(_)
Typos(k) == IF k = 0 THEN << >> ELSE <<Typo(k)>> \o Typos(k - 1)
DInit == Init /\ more = << >>
Choose == /\ stage = "add" /\ n = want /\ stage' = "chosen"
          /\ more' = [at |-> <<Rational(1), IF Two THEN Rational(2) ELSE <<0, 1>>>>,
                      mode |-> (<<"ask", "ask", "ask", "given", "pos", "zero", "neg">>)[RInt(n - n + 1, 7)],
                      typos |-> TLCEval(Typos(RInt(n - n, 5)))]
          /\ UNCHANGED <<groups, n, want>>
DAsk == /\ stage = "chosen" /\ stage' = "done"
        /\ CSVWrite("%1$s", <<ToJson([ps |-> groups[1], at |-> more.at, mode |-> more.mode, typos |-> more.typos])>>, "stim.ndjson")
        /\ UNCHANGED <<groups, n, want, more>>
DNext == \/ (Start \/ (\E g \in 1 .. NGroups : Add(g) \/ Again(g))) /\ UNCHANGED more
         \/ Choose \/ DAsk
=============================================================================
