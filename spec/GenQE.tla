-------------------------------- MODULE GenQE --------------------------------
(***************************************************************************)
(* Systems of sign conditions with parameters, built one polynomial at a   *)
(* time.  Shapes (x eliminated; a, b, c small polynomials in y and z):     *)
(* linear, quadratic, cubic, products of linear factors, derived from      *)
(* earlier ones, parameter-only, constants and zero.                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV

CONSTANTS NGroups,    \* 3: negative, zero, positive; 2: zero, not zero
          MaxPolys,   \* polynomials per system
          Shapes,     \* kinds of polynomials
          Two         \* may the second parameter z occur?

VARIABLES groups, n, want, stage

RInt(lo, hi) == RandomElement(lo .. hi)

\* polynomials as sequences of monomials <<c, ex, ey, ez>>
Times(m1, m2) == <<m1[1] * m2[1], m1[2] + m2[2], m1[3] + m2[3], m1[4] + m2[4]>>
RECURSIVE MulMono(_, _)
MulMono(m, p) == IF p = << >> THEN << >> ELSE <<Times(m, Head(p))>> \o MulMono(m, Tail(p))
\* sums may list a monomial twice; the reader adds them up
RECURSIVE Mul(_, _)
Mul(p, q) == IF p = << >> THEN << >> ELSE MulMono(Head(p), q) \o Mul(Tail(p), q)
Const(c) == IF c = 0 THEN << >> ELSE << <<c, 0, 0, 0>> >>
X(k) == << <<1, k, 0, 0>> >>
Neg(p) == Mul(Const(-1), p)
Y == << <<1, 0, 1, 0>> >>
Par(z) == IF Two /\ RInt(1, 2) = 1 THEN << <<1, 0, 0, 1>> >> ELSE Y

\* a coefficient
Unit(z) == Const(RandomElement({-2, -1, 1, 2, 1, -1}))
Small(z) == Const(RInt(-2, 2))
PCoef(z) == LET k == RInt(1, 8)
            IN IF k <= 3 THEN Par(1)
               ELSE IF k <= 5 THEN Par(1) \o Unit(2)
               ELSE IF k = 6 THEN Neg(Par(1))
               ELSE IF k = 7 THEN Mul(Const(2), Par(1)) \o Small(3)
               ELSE Mul(Y, Par(2)) \o Small(4)
Coef(z) == IF RInt(1, 5) <= 3 THEN Small(z) ELSE PCoef(z)
Lead(z) == IF RInt(1, 3) <= 2 THEN Unit(z) ELSE PCoef(z)
\* sparing with parameters
Coef1(z) == IF RInt(1, 5) <= 4 THEN Small(z) ELSE Par(z)

Lin(z) == Mul(Lead(1), X(1)) \o Coef(2)
LinC(z) == Mul(Unit(1), X(1)) \o Small(2)
LinP(z) == LET k == RInt(1, 3) IN IF k = 1 THEN X(1) \o Neg(Par(1)) ELSE IF k = 2 THEN X(1) \o Small(1) ELSE LinC(2)
Quad(z) == Mul(Lead(1), X(2)) \o Mul(Coef1(2), X(1)) \o Coef(3)
Pick == [s \in {"lin", "linp", "quad", "quad1", "sqr", "prod", "cub", "quadc", "cubc", "conic", "par", "const", "zero"} |-> s]
Draw(s) ==
  CASE s = "lin"  -> Lin(0)
    [] s = "linp" -> LinP(0)
    [] s = "quad" -> Quad(0)
    [] s = "quad1" -> Mul(Unit(1), X(2)) \o Mul(Small(2), X(1)) \o (IF RInt(1, 2) = 1 THEN Coef(3) ELSE Par(3))
    [] s = "sqr"  -> LET l == LinP(1) IN Mul(Unit(1), Mul(l, l))
    [] s = "prod" -> Mul(Unit(1), Mul(LinP(2), LinP(3)))
    [] s = "cub"  -> Mul(Unit(1), X(3)) \o Mul(Small(2), X(2)) \o Mul(Small(3), X(1)) \o Coef1(4)
    [] s = "quadc" -> Mul(Unit(1), X(2)) \o Mul(Small(2), X(1)) \o Small(3)
    [] s = "cubc" -> Mul(Unit(1), X(3)) \o Mul(Small(3), X(1)) \o Small(4)
    [] s = "conic" -> X(2) \o Mul(Unit(1), Mul(Y, Y)) \o Small(2)
    [] s = "par"  -> Mul(Unit(1), Par(1)) \o Small(2)
    [] s = "const" -> Unit(1)
    [] s = "zero" -> << >>

Put(g, p) == [groups EXCEPT ![g] = Append(@, p)]

Init == groups = [g \in 1 .. NGroups |-> << >>] /\ n = 0 /\ want = 0 /\ stage = "start"
Start == stage = "start" /\ stage' = "add" /\ want' = RInt(1, MaxPolys) /\ UNCHANGED <<groups, n>>
Add(g) == /\ stage = "add" /\ n < want
          /\ groups' = Put(g, TLCEval(Draw(RandomElement(Shapes)))) /\ n' = n + 1
          /\ UNCHANGED <<want, stage>>
\* a polynomial stated before, its negation, or a multiple
Again(g) == /\ stage = "add" /\ n < want /\ n > 0 /\ RInt(1, 4) = 1
            /\ \E h \in 1 .. NGroups :
                 /\ groups[h] # << >>
                 /\ LET p == groups[h][RInt(1, Len(groups[h]))]
                    IN groups' = Put(g, Mul(Const(RandomElement({1, -1, 2})), p))
            /\ n' = n + 1 /\ UNCHANGED <<want, stage>>
Ask == /\ stage = "add" /\ n = want /\ stage' = "done"
       /\ CSVWrite("%1$s", <<ToJson([groups |-> groups])>>, "stim.ndjson")
       /\ UNCHANGED <<groups, n, want>>
Next == Start \/ (\E g \in 1 .. NGroups : Add(g) \/ Again(g)) \/ Ask
=============================================================================
