------------------------------ MODULE GoalReduce -----------------------------
(***************************************************************************)
(* Adding hypotheses to a goal one by one, with equations used to simplify *)
(* the others (RCF_Goal.add_goal_hyp), for linear polynomials a x + b y + c.*)
(* The new hypothesis is reduced by the basis of the equations already     *)
(* there; if it is an equation and not trivial, the others are reduced by  *)
(* it, and it joins the basis.  With Mutual, both reductions use what was  *)
(* there before, which can lose one of them.              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS C, NHyps, Mutual
VARIABLES given, hyps, gb
Coef == (-C) .. C
Polys == Coef \X Coef \X Coef
Atoms == [p : Polys, op : {"eq", "gt"}]
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Abs(n) == IF n < 0 THEN -n ELSE n
LM(p) == IF p[1] # 0 THEN 1 ELSE IF p[2] # 0 THEN 2 ELSE 3
\* a positive multiple of p minus a multiple of b, without b's leading monomial
Red1(p, b) == LET i == LM(b)
                  m == Abs(b[i])
                  k == Sgn(b[i]) * p[i]
              IN <<m * p[1] - k * b[1], m * p[2] - k * b[2], m * p[3] - k * b[3]>>
RECURSIVE Red(_, _)
Red(p, B) == IF B = << >> THEN p ELSE Red(Red1(p, Head(B)), Tail(B))
Zero == <<0, 0, 0>>
RedHyp(h, B) == [h EXCEPT !.p = Red(@, B)]
AddToBasis(B, g) == Append([i \in 1 .. Len(B) |-> IF Red1(B[i], g) = Zero THEN g ELSE Red1(B[i], g)], g)

Init == given = << >> /\ hyps = << >> /\ gb = << >>
Add(a) ==
  LET g == RedHyp(a, gb)
      others(b) == [i \in 1 .. Len(hyps) |-> RedHyp(hyps[i], <<b>>)]
  IN /\ given' = Append(given, a)
     /\ IF a.op = "eq" /\ (IF Mutual THEN a.p ELSE g.p) # Zero
        THEN /\ hyps' = Append(others(IF Mutual THEN a.p ELSE g.p), g)
             /\ gb' = IF g.p = Zero THEN gb ELSE AddToBasis(gb, g.p)
        ELSE /\ hyps' = Append(hyps, g) /\ gb' = gb
Next == Len(given) < NHyps /\ \E a \in Atoms : Add(a)
Spec == Init /\ [][Next]_<<given, hyps, gb>>

\* points with coordinates k / 2
At(p, x, y) == p[1] * x + p[2] * y + 2 * p[3]
Holds(a, x, y) == LET v == At(a.p, x, y) IN IF a.op = "eq" THEN v = 0 ELSE v > 0
Grid == -4 .. 4
Faithful == \A x, y \in Grid :
  (\A i \in 1 .. Len(given) : Holds(given[i], x, y)) = (\A i \in 1 .. Len(hyps) : Holds(hyps[i], x, y))

=============================================================================
