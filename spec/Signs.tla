-------------------------------- MODULE Signs --------------------------------
(***************************************************************************)
(* What the counting primitives of vts/uni_vts.py have to compute, defined *)
(* from sign tables only.                                                  *)
(***************************************************************************)
EXTENDS PolyGen

RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)

\* sum of the signs of q over the distinct real roots of p # 0
TarskiQuery(p, q) ==
  LET t == SignTable(<<p, q>>)
  IN SumSeq([c \in 1 .. Len(t) |-> IF c % 2 = 0 /\ t[c][1] = 0 THEN t[c][2] ELSE 0], 1)

\* jumps of q/p from -oo to +oo minus jumps from +oo to -oo, p # 0
CauchyIndex(p, q) ==
  IF q = << >> THEN 0
  ELSE LET p1 == PQuo(p, PGcd(p, q))        \* the reduced denominator
           t  == SignTable(<<p, q, p1>>)
           side(c) == t[c][1] * t[c][2]     \* sign of q/p on a gap
       IN SumSeq([c \in 1 .. Len(t) |->
                    IF c % 2 = 0 /\ t[c][3] = 0 THEN (side(c + 1) - side(c - 1)) \div 2 ELSE 0], 1)

SamePositive(a, b) == PEqual(PPrim(PNorm(a)), PPrim(PNorm(b)))
NoPadding(p) == p = << >> \/ BSign(p[Len(p)]) # 0

RECURSIVE NthDeriv(_, _)
NthDeriv(p, n) == IF n = 0 THEN p ELSE NthDeriv(PDeriv(p), n - 1)
IsDerivativeOf(d, p) == \E n \in 1 .. PMax(1, Len(p) - 1) : SamePositive(d, NthDeriv(p, n))

\* columns of the table where the first polynomial vanishes (it is not zero)
RootColsOf(t) == SelectSeq([i \in 1 .. (Len(t) \div 2) |-> 2 * i], LAMBDA c : t[c][1] = 0)

\* the signs of q at the real roots of p # 0, from left to right
SignsAtRoots(p, q) == LET t  == TLCEval(SignTable(<<p, q>>))
                          rc == TLCEval(RootColsOf(t))
                      IN TLCEval([k \in 1 .. Len(rc) |-> t[rc[k]][2]])
=============================================================================
