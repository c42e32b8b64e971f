------------------------------- MODULE PolyGen -------------------------------
(***************************************************************************)
(* Random polynomials and constraint systems, biased towards the places    *)
(* where sign-based decision procedures go wrong: shared and repeated      *)
(* roots, irrational roots, roots that nearly coincide, definite factors,  *)
(* negative leading coefficients, constants, the zero polynomial, large    *)
(* coefficients, and polynomials derived from one another.                 *)
(*                                                                         *)
(* The operators take a (dummy) argument so that TLC draws afresh at each  *)
(* evaluation; TLC's -seed makes the draws reproducible.                   *)
(***************************************************************************)
EXTENDS Poly, TLC, Randomization, FiniteSets

Rand(S) == RandomElement(S)
RInt(lo, hi) == RandomElement(lo .. hi)

Lin(a, b) == <<b, a>>         \* a x + b

LinFactors  == {<<b, a>> : a \in {1}, b \in -4 .. 4} \union
               {<<1, 2>>, <<-1, 2>>, <<3, 2>>, <<-3, 2>>, <<1, 3>>, <<-2, 3>>, <<-5, 3>>, <<7, 5>>}
QuadFactors == {<<-2, 0, 1>>, <<-3, 0, 1>>, <<-5, 0, 1>>, <<-1, -1, 1>>, <<-1, 2, 1>>, <<-3, 0, 2>>,
                <<1, -3, 1>>, <<-1, 1, 3>>}
DefFactors  == {<<1, 0, 1>>, <<1, 1, 1>>, <<1, -2, 2>>, <<3, 0, 1>>, <<1, 0, 0, 0, 1>>}
CubFactors  == {<<-2, 0, 0, 1>>, <<1, -3, 0, 1>>, <<-1, -1, 0, 1>>, <<-1, 3, -3, 2>>, <<1, 0, -1, 1>>}
NearFactors == {<<-1414, 1000>>, <<-1415, 1000>>, <<-17, 12>>, <<-1732, 1000>>, <<-1618, 1000>>, <<-99, 70>>}
\* roots far from, or close to, the origin
FarFactors  == {<<10000000, 1>>, <<-10000000, 1>>, <<1, 10000000>>, <<-1, 10000000>>, <<2000000011, 1>>,
                <<-999, 1>>, <<1001, 1>>, <<50000, 1>>, <<-1, 5000>>, <<1, 300>>, <<30000001, 10000000>>,
                <<10000001, 1>>}
Factors == LinFactors \union QuadFactors \union DefFactors \union CubFactors \union NearFactors

\* mostly linear and quadratic
RandFactor(z) ==
  LET k == RInt(1, 20)
  IN IF k <= 9 THEN Rand(LinFactors)
     ELSE IF k <= 14 THEN Rand(QuadFactors)
     ELSE IF k <= 16 THEN Rand(DefFactors)
     ELSE IF k <= 18 THEN Rand(CubFactors)
     ELSE Rand(NearFactors)

Unit(z) == Rand({1, -1, 1, -1, 2, -3, 5, -7})

RECURSIVE RandCoefs(_, _)
RandCoefs(n, m) == IF n = 0 THEN <<Rand((-m .. m) \ {0})>>
                   ELSE <<RInt(-m, m)>> \o RandCoefs(n - 1, m)

\* degree n, coefficients in -m..m, leading coefficient not zero
RandPoly(n, m) == RandCoefs(n, m)

RECURSIVE SparseCoefs(_, _)
SparseCoefs(n, m) == IF n = 0 THEN <<Rand((-m .. m) \ {0})>>
                     ELSE <<IF RInt(1, 3) = 1 THEN RInt(-m, m) ELSE 0>> \o SparseCoefs(n - 1, m)

\* product of k factors of the pool (with repetition) times a unit
RECURSIVE PoolProd(_, _)
PoolProd(pool, k) == IF k = 0 THEN <<Unit(0)>>
                     ELSE PMul(pool[RInt(1, Len(pool))], PoolProd(pool, k - 1))

RECURSIVE LinProd(_)
LinProd(k) == IF k = 0 THEN <<Unit(0)>> ELSE PMul(Rand(LinFactors), LinProd(k - 1))

RECURSIVE ProdOf(_)
ProdOf(S) == IF S = {} THEN <<1>> ELSE LET f == CHOOSE f \in S : TRUE IN PMul(f, ProdOf(S \ {f}))
\* five different real roots
Five(z) == LET k == RInt(1, 3)
           IN PMul(<<Unit(7)>>, IF k = 1 THEN ProdOf(RandomSubset(5, {<<b, 1>> : b \in -4 .. 4}))
                                ELSE IF k = 2 THEN ProdOf(RandomSubset(5, LinFactors))
                                ELSE PMul(ProdOf(RandomSubset(2, QuadFactors)), Rand(LinFactors)))

RandPool(n) == [i \in 1 .. n |-> RandFactor(i)]

\* number of distinct real roots
NumRoots(p) == LET q == PNorm(p)
               IN IF Len(q) <= 1 THEN 0 ELSE Len(RootIntervals(PSquareFree(q)))

Kinds == {"prod1", "prod2", "prod3", "sqr", "rand", "rand2", "sparse", "lins", "five", "const", "zero", "big", "far",
          "deriv", "neg", "dup", "shift", "mult"}

\* prev: the polynomials drawn so far
DrawPoly(kind, pool, prev) ==
  LET p0 == IF prev = << >> THEN pool[1] ELSE prev[RInt(1, Len(prev))]
  IN CASE kind = "prod1" -> PoolProd(pool, 1)
       [] kind = "prod2" -> PoolProd(pool, 2)
       [] kind = "prod3" -> PoolProd(pool, 3)
       [] kind = "sqr"   -> LET f == pool[RInt(1, Len(pool))] IN PMul(<<Unit(1)>>, PMul(f, f))
       [] kind = "rand"  -> RandPoly(RInt(1, 3), 6)
       [] kind = "rand2" -> RandPoly(RInt(3, 5), 9)
       [] kind = "sparse" -> SparseCoefs(RInt(2, 6), 4)
       [] kind = "lins"  -> LinProd(RInt(3, 4))
       [] kind = "five"  -> Five(0)
       [] kind = "const" -> <<Unit(2)>>
       [] kind = "zero"  -> << >>
       [] kind = "big"   -> PScale(BMul(Unit(3), BPow(10, RInt(3, 14))), PAdd(PoolProd(pool, 1), <<RInt(0, 1)>>))
       [] kind = "far"   -> PMul(<<Unit(5)>>, LET f == Rand(FarFactors) k == RInt(1, 6) IN IF k <= 2 THEN PMul(Rand(LinFactors), Rand(LinFactors)) ELSE IF k = 3 THEN Rand(LinFactors) ELSE f)
       [] kind = "deriv" -> PDeriv(p0)
       [] kind = "neg"   -> PNeg(p0)
       [] kind = "dup"   -> p0
       [] kind = "shift" -> PAdd(p0, <<Unit(4)>>)
       [] kind = "mult"  -> PMul(p0, Rand(LinFactors))

KindWeights == <<"prod1", "prod1", "prod1", "prod2", "prod2", "prod2", "prod3", "sqr", "sqr", "rand", "rand",
                 "rand2", "sparse", "lins", "five", "const", "zero", "big", "deriv", "deriv", "neg", "dup", "shift",
                 "mult">>
DrawKind(z) == KindWeights[RInt(1, Len(KindWeights))]
=============================================================================
