------------------------------- MODULE ParPoly -------------------------------
(***************************************************************************)
(* Polynomials in one eliminated variable x and two parameters y, z.       *)
(*                                                                         *)
(* A polynomial is a sequence of monomials <<c, ex, ey, ez>> standing for  *)
(* c x^ex y^ey z^ez.  A parameter point is <<y, z>>, each a rational       *)
(* <<num, den>> with den > 0.  Specialising a polynomial at a parameter    *)
(* point gives a polynomial in x (module Poly), up to a positive factor.   *)
(***************************************************************************)
EXTENDS Poly

RECURSIVE MaxExp(_, _, _)
MaxExp(p, k, i) == IF i > Len(p) THEN 0
                   ELSE LET m == MaxExp(p, k, i + 1) IN IF p[i][k] > m THEN p[i][k] ELSE m

\* the monomial's coefficient at the parameter point, over the common
\* denominator yd^dy * zd^dz
MonoAt(m, a, dy, dz) ==
  BMul(m[1], BMul(BMul(BPow(a[1][1], m[3]), BPow(a[1][2], dy - m[3])),
                  BMul(BPow(a[2][1], m[4]), BPow(a[2][2], dz - m[4]))))

RECURSIVE CoefAt(_, _, _, _, _, _)
CoefAt(p, k, a, dy, dz, i) ==
  IF i > Len(p) THEN 0
  ELSE LET rest == CoefAt(p, k, a, dy, dz, i + 1)
       IN IF p[i][2] = k THEN BAdd(MonoAt(p[i], a, dy, dz), rest) ELSE rest

Specialise(p, a) ==
  LET dy == MaxExp(p, 3, 1)
      dz == MaxExp(p, 4, 1)
  IN PNorm(TLCEval([k \in 1 .. (MaxExp(p, 2, 1) + 1) |-> CoefAt(p, k - 1, a, dy, dz, 1)]))

\* sign of a polynomial without x at a parameter point
ParSign(p, a) == LET q == Specialise(p, a) IN IF q = << >> THEN 0 ELSE BSign(q[1])

HasX(p) == \E i \in 1 .. Len(p) : p[i][2] > 0

-----------------------------------------------------------------------------
(* Is there a solution over the reals: polynomials ps[i] with sign ss[i]?   *)
RealSolvable(ps, ss) ==
  LET t == SignTable(ps)
  IN \E c \in 1 .. Len(t) : \A i \in 1 .. Len(ps) : t[c][i] = ss[i]

RECURSIVE GcdOfAll(_, _, _)
GcdOfAll(ps, i, g) == IF i > Len(ps) THEN g ELSE GcdOfAll(ps, i + 1, TLCEval(PGcd(g, ps[i])))
RECURSIVE ProdOfAll(_, _, _)
ProdOfAll(ps, i, g) == IF i > Len(ps) THEN g ELSE ProdOfAll(ps, i + 1, TLCEval(PMul(g, ps[i])))

(* ... over the complex numbers: all of eqs zero, none of nes zero?  A      *)
(* common root of eqs is a root of their gcd g; g's distinct roots are      *)
(* those of its square-free part, and all of them are roots of the product  *)
(* n of nes exactly if the square-free part divides n.                      *)
ComplexSolvable(eqs, nes) ==
  IF \E i \in 1 .. Len(nes) : nes[i] = << >> THEN FALSE
  ELSE LET g == TLCEval(GcdOfAll(eqs, 1, << >>))
       IN IF g = << >> THEN TRUE
          ELSE IF Len(g) = 1 THEN FALSE
          ELSE LET s == TLCEval(PSquareFree(g))
                   n == TLCEval(ProdOfAll(nes, 1, <<1>>))
               IN Len(PGcd(s, n)) < Len(s)
=============================================================================
