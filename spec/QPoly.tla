-------------------------------- MODULE QPoly --------------------------------
(***************************************************************************)
(* Polynomials in x with a parameter y: the sequence of coefficients in x, *)
(* each a polynomial in y (module Poly), without trailing zeros; and the   *)
(* closure under leading-term removal, derivation and pseudo-remainders    *)
(* that Muchnik's procedures start from.                                   *)
(***************************************************************************)
EXTENDS Poly, FiniteSets

CONSTANTS Coefs,     \* coefficients of the input polynomials
          MaxDeg,    \* degree of the input polynomials in x
          NPolys,    \* input polynomials
          Pars       \* parameter values <<num, den>>

RECURSIVE QNorm(_)
QNorm(p) == IF p = << >> THEN p
            ELSE IF p[Len(p)] = << >> THEN QNorm(SubSeq(p, 1, Len(p) - 1)) ELSE p
QC(p, i) == IF i <= Len(p) THEN p[i] ELSE << >>
QSub(p, q) == QNorm(TLCEval([i \in 1 .. PMax(Len(p), Len(q)) |-> PSub(QC(p, i), QC(q, i))]))
QScale(c, p) == QNorm(TLCEval([i \in 1 .. Len(p) |-> PMul(c, p[i])]))
QShift(p, k) == IF p = << >> THEN p ELSE [i \in 1 .. (Len(p) + k) |-> IF i <= k THEN << >> ELSE p[i - k]]
QLc(p) == p[Len(p)]
QTail(p) == QNorm(SubSeq(p, 1, Len(p) - 1))
QDeriv(p) == IF Len(p) <= 1 THEN << >> ELSE QNorm(TLCEval([i \in 1 .. (Len(p) - 1) |-> PScale(i, p[i + 1])]))

\* remainder r of  lc(g)^(deg f - deg g + 1) * f  by g
RECURSIVE QPRemFrom(_, _, _)
QPRemFrom(f, g, left) ==
  IF Len(f) < Len(g)
  THEN IF left = 0 THEN f ELSE QPRemFrom(QScale(QLc(g), f), g, left - 1)
  ELSE QPRemFrom(TLCEval(QSub(QScale(QLc(g), f), QShift(QScale(QLc(f), g), Len(f) - Len(g)))), g, left - 1)
QPRem(f, g) == IF Len(f) < Len(g) THEN f ELSE QPRemFrom(f, g, Len(f) - Len(g) + 1)

\* the value at a parameter point, a polynomial in x up to a positive factor
RECURSIVE QYDeg(_, _)
QYDeg(p, i) == IF i = 0 THEN 0 ELSE PMax(Len(p[i]), QYDeg(p, i - 1))
At(p, y) == LET d == QYDeg(p, Len(p))
            IN PNorm(TLCEval([i \in 1 .. Len(p) |->
                   IF p[i] = << >> THEN 0 ELSE BMul(PNumAt(p[i], y), BPow(y[2], d - Len(p[i])))]))

RECURSIVE Close(_, _)
Close(done, todo) ==
  IF todo = {} THEN done
  ELSE LET p == CHOOSE q \in todo : TRUE
           new == {QTail(p), QDeriv(p)} \union
                  (IF Len(p) <= 1 THEN {}
                   ELSE {QPRem(p, q) : q \in {r \in done : Len(r) > 1 /\ Len(r) <= Len(p)}} \union
                        {QPRem(q, p) : q \in {r \in done : Len(r) > 1 /\ Len(r) >= Len(p)}})
       IN Close(done \union {p}, TLCEval((todo \union new) \ (done \union {p, << >>})))
Closure(S) == Close({}, S \ {<< >>})

RECURSIVE Inputs(_)
Inputs(d) == IF d = 0 THEN {<<c>> : c \in Coefs} ELSE {Append(p, c) : p \in Inputs(d - 1), c \in Coefs}
Universe == {p \in {QNorm(q) : q \in Inputs(MaxDeg)} : Len(p) > 1}

Systems == IF NPolys = 1 THEN {{p} : p \in Universe} ELSE {{p, q} : p, q \in Universe}

RECURSIVE ByDegree(_)
ByDegree(S) == IF S = {} THEN << >>
               ELSE LET p == CHOOSE q \in S : \A r \in S : Len(q) <= Len(r)
                    IN <<p>> \o ByDegree(S \ {p})

ConstSign(p, a) == IF p = << >> THEN 0 ELSE BSign(PNumAt(p[1], a))

\* the highest derivative is a positive multiple of the leading coefficient
RECURSIVE Fac(_)
Fac(n) == IF n = 0 THEN 1 ELSE n * Fac(n - 1)
LcRow(p) == <<PScale(Fac(Len(p) - 1), QLc(p))>>
=============================================================================
