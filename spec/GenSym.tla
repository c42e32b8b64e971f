------------------------------- MODULE GenSym --------------------------------
(***************************************************************************)
(* Symbolic polynomials with rational coefficients, written in many ways   *)
(* (sums, products, powers, quotients by constants, terms that cancel).    *)
(***************************************************************************)
EXTENDS Expr, Json, CSV
CONSTANTS MaxDepth, MaxDeg
VARIABLES e, name, stage

Names == <<"x", "y", "z", "alpha", "X1", "t_0", "lambda", "E", "I", "pi", "S", "N", "x_", "sympy", "Q", "beta">>
Nums(z) == LET k == RInt(1, 12)
           IN IF k <= 6 THEN Num(RInt(-5, 5))
              ELSE IF k <= 9 THEN Frac(RInt(-7, 7), Rand({2, 3, 4, 6, 10, 15}))
              ELSE IF k = 10 THEN Frac(BMul(RInt(-9, 9), BPow(10, RInt(8, 20))), Rand({1, 7, 1000003}))
              ELSE IF k = 11 THEN Frac(RInt(-3, 3), BPow(10, RInt(6, 16)))
              ELSE Num(RInt(0, 1))
NonZero(z) == Frac(Rand({-12, -5, -4, -3, -2, -1, 1, 2, 3, 6, 7, 30}), Rand({1, 2, 5, 9}))

RECURSIVE Draw(_)
Draw(d) ==
  IF d = 0 THEN (IF RInt(1, 5) <= 3 THEN Var("x") ELSE Nums(0))
  ELSE LET k == RInt(1, 16)
       IN IF k <= 4 THEN Bin("add", Draw(d - 1), Draw(RInt(0, d - 1)))
          ELSE IF k <= 7 THEN Bin("sub", Draw(RInt(0, d - 1)), Draw(d - 1))
          ELSE IF k <= 11 THEN Bin("mul", Draw(d - 1), Draw(RInt(0, d - 1)))
          ELSE IF k <= 12 THEN Bin("div", Draw(d - 1), NonZero(0))
          ELSE IF k <= 13 THEN [t |-> "neg", a |-> Draw(d - 1)]
          ELSE IF k <= 14 THEN [t |-> "pow", a |-> Draw(RInt(0, d - 1)), k |-> RInt(0, 4)]
          ELSE IF k <= 15 THEN Draw(0)
          ELSE LET f == Draw(RInt(0, d - 1)) IN Bin("sub", f, f)      \* cancels

\* a dense or sparse sum of monomials c x^k in some order
RECURSIVE Sum(_)
Sum(m) == LET mono == Bin("mul", Nums(m), [t |-> "pow", a |-> Var("x"), k |-> RInt(0, MaxDeg)])
          IN IF m = 0 THEN mono ELSE Bin("add", mono, Sum(m - 1))

Init == e = Num(0) /\ name = "x" /\ stage = "draw"
DrawIt == /\ stage = "draw" /\ stage' = "say"
          /\ e' = IF RInt(1, 4) = 1 THEN Sum(RInt(1, 6)) ELSE Draw(RInt(0, MaxDepth))
          /\ name' = Names[RInt(1, Len(Names))]
Say == /\ stage = "say" /\ stage' = "done" /\ UNCHANGED <<e, name>>
       /\ IF Degree(e) <= MaxDeg
          THEN CSVWrite("%1$s", <<ToJson([e |-> e, name |-> name])>>, "stim.ndjson") ELSE TRUE
Next == DrawIt \/ Say
=============================================================================
