-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Univariate polynomials with integer coefficients, real roots and signs. *)
(*                                                                         *)
(* A polynomial is the sequence of its coefficients, constant term first,  *)
(* without trailing zeros; the zero polynomial is << >>.                   *)
(*                                                                         *)
(* The real line is described by a SIGN TABLE: the polynomials' signs at   *)
(* every real root of every polynomial and on every open interval between  *)
(* them, from left to right.  The table is computed from Sturm's theorem   *)
(* (counting and isolating roots), which is not how the implementation     *)
(* works: it uses Tarski queries and derivative encodings.                 *)
(***************************************************************************)
EXTENDS BigInt, Sequences, TLC

RECURSIVE PNorm(_)
PNorm(p) == IF p = << >> THEN p
            ELSE IF BSign(p[Len(p)]) = 0 THEN PNorm(SubSeq(p, 1, Len(p) - 1))
            ELSE p

PIsZero(p) == PNorm(p) = << >>
PDeg(p)  == Len(p) - 1
PLc(p)   == p[Len(p)]
PCoef(p, i) == IF i + 1 <= Len(p) THEN p[i + 1] ELSE 0

PMax(a, b) == IF a > b THEN a ELSE b
PMin(a, b) == IF a < b THEN a ELSE b

PAdd(p, q) == PNorm(TLCEval([i \in 1 .. PMax(Len(p), Len(q)) |->
                       BAdd(PCoef(p, i - 1), PCoef(q, i - 1))]))
PNeg(p)    == TLCEval([i \in 1 .. Len(p) |-> BNeg(p[i])])
PSub(p, q) == PAdd(p, PNeg(q))
PScale(c, p) == IF BSign(c) = 0 THEN << >> ELSE TLCEval([i \in 1 .. Len(p) |-> BMul(c, p[i])])
PShift(p, k) == IF p = << >> THEN p ELSE [i \in 1 .. (Len(p) + k) |-> IF i <= k THEN 0 ELSE p[i - k]]

RECURSIVE BSumProd(_, _, _, _, _)
\* sum over i in lo..hi of p_i * q_(k-i)
BSumProd(p, q, k, lo, hi) ==
  IF lo > hi THEN 0
  ELSE BAdd(BMul(p[lo + 1], q[k - lo + 1]), BSumProd(p, q, k, lo + 1, hi))

PMul(p, q) == IF p = << >> \/ q = << >> THEN << >>
              ELSE TLCEval([k1 \in 1 .. (Len(p) + Len(q) - 1) |->
                      LET k == k1 - 1
                      IN BSumProd(p, q, k, PMax(0, k - (Len(q) - 1)), PMin(k, Len(p) - 1))])

PDeriv(p) == IF Len(p) <= 1 THEN << >>
             ELSE TLCEval([i \in 1 .. (Len(p) - 1) |-> BMul(i, p[i + 1])])

PEqual(p, q) == LET a == PNorm(p) b == PNorm(q)
                IN Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : BEq(a[i], b[i])

RECURSIVE PContentFrom(_, _, _)
PContentFrom(p, i, g) == IF i > Len(p) \/ (i > 1 /\ BEq(g, 1)) THEN g
                         ELSE PContentFrom(p, i + 1, BGcd(g, p[i]))
PContent(p) == PContentFrom(p, 1, 0)
\* division by the (positive) content: same signs, smaller numbers
PPrim(p) == IF p = << >> THEN p
            ELSE LET g == PContent(p)
                 IN IF BEq(g, 1) THEN p ELSE TLCEval([i \in 1 .. Len(p) |-> BQuo(p[i], g)])

\* A positive multiple of the remainder of f by g (g # 0).
RECURSIVE PRem(_, _)
PRem(f, g) ==
  IF Len(f) < Len(g) THEN f
  ELSE LET s  == BSign(PLc(g))
           cf == BMul(s, PLc(f))
           cg == BAbs(PLc(g))
           d  == Len(f) - Len(g)
           h  == TLCEval([i \in 1 .. (Len(f) - 1) |->
                    BSub(BMul(cg, f[i]),
                         IF i > d THEN BMul(cf, g[i - d]) ELSE 0)])
       IN PRem(TLCEval(PPrim(PNorm(h))), g)

\* A positive multiple of the exact quotient f / g up to sign of the
\* leading coefficient of g; only used where the sign does not matter.
RECURSIVE PQuoFrom(_, _, _)
PQuoFrom(f, g, q) ==
  IF Len(f) < Len(g) THEN q
  ELSE LET c  == PLc(g)
           d  == Len(f) - Len(g)
           h  == PNorm(TLCEval([i \in 1 .. (Len(f) - 1) |->
                    BSub(BMul(c, f[i]), IF i > d THEN BMul(PLc(f), g[i - d]) ELSE 0)]))
           q2 == PAdd(PScale(c, q), PShift(<<PLc(f)>>, d))
       IN PQuoFrom(h, g, q2)
PQuo(f, g) == PPrim(PQuoFrom(f, g, << >>))

RECURSIVE PGcd(_, _)
PGcd(f, g) == IF g = << >> THEN PPrim(f) ELSE PGcd(g, TLCEval(PPrim(PRem(f, g))))

\* square-free part (same distinct roots)
PSquareFree(p) == IF Len(p) <= 2 THEN p
                  ELSE LET g == PGcd(p, PDeriv(p))
                       IN IF Len(g) = 1 THEN PPrim(p) ELSE PQuo(p, g)

-----------------------------------------------------------------------------
(* Evaluation at rational points.  A rational is <<num, den>>, den > 0.     *)

RECURSIVE PHornerFrom(_, _, _, _, _, _)
\* Horner scheme for den^deg * p(num/den):  acc, dpow = den^(deg - i)
PHornerFrom(p, i, num, den, acc, dpow) ==
  IF i = 0 THEN acc
  ELSE PHornerFrom(p, i - 1, num, den,
                   BAdd(BMul(acc, num), BMul(p[i], dpow)), BMul(dpow, den))

\* numerator of p(r) over den^deg(p)
PNumAt(p, r) == IF p = << >> THEN 0
                ELSE PHornerFrom(p, Len(p), r[1], r[2], 0, 1)
PSignAt(p, r) == BSign(PNumAt(p, r))

RHalf(a, b, j, m) ==   \* a + (b - a) * j / 2^m
  LET den == BMul(BMul(a[2], b[2]), BPow(2, m))
      num == BAdd(BMul(BMul(a[1], b[2]), BSub(BPow(2, m), j)), BMul(BMul(b[1], a[2]), j))
      g   == BGcd(num, den)
  IN <<BQuo(num, g), BQuo(den, g)>>

RLess(a, b) == BCmp(BMul(a[1], b[2]), BMul(b[1], a[2])) < 0

-----------------------------------------------------------------------------
(* Sturm sequences                                                          *)

RECURSIVE SturmFrom(_, _)
SturmFrom(p, q) == IF q = << >> THEN <<p>>
                   ELSE <<p>> \o SturmFrom(q, TLCEval(PNeg(PPrim(PRem(p, q)))))
\* p square-free, not zero
Sturm(p) == SturmFrom(PPrim(p), PPrim(PDeriv(p)))

RECURSIVE SignChanges(_, _, _)
SignChanges(signs, i, last) ==
  IF i > Len(signs) THEN 0
  ELSE IF signs[i] = 0 THEN SignChanges(signs, i + 1, last)
  ELSE (IF last * signs[i] < 0 THEN 1 ELSE 0) + SignChanges(signs, i + 1, signs[i])
Variations(signs) == SignChanges(signs, 1, 0)

VarAt(seq, r) == Variations(TLCEval([i \in 1 .. Len(seq) |-> PSignAt(seq[i], r)]))

SignAtPosInf(p) == IF p = << >> THEN 0 ELSE BSign(PLc(p))
SignAtNegInf(p) == IF p = << >> THEN 0
                   ELSE BSign(PLc(p)) * (IF PDeg(p) % 2 = 0 THEN 1 ELSE -1)

\* a power of two above every root's absolute value (Cauchy's bound)
RECURSIVE PMaxAbs(_, _)
PMaxAbs(p, i) == IF i = 0 THEN 0
                 ELSE LET m == PMaxAbs(p, i - 1)
                      IN IF BCmp(BAbs(p[i]), m) > 0 THEN BAbs(p[i]) ELSE m
RootBound(p) == BMul(2, BPow2Ceil(BAdd(1, PMaxAbs(p, Len(p)))))

SplitOrder == <<16, 15, 17, 13, 19, 11, 21, 9, 23, 7, 25, 5, 27, 3, 29, 1, 31,
                14, 18, 12, 20, 10, 22, 8, 24, 6, 26, 4, 28, 2, 30>>
RECURSIVE SplitAt(_, _, _, _)
\* a point strictly between lo and hi where p does not vanish
SplitAt(p, lo, hi, k) ==
  LET m == RHalf(lo, hi, SplitOrder[k], 5)
  IN IF PSignAt(p, m) # 0 THEN m ELSE SplitAt(p, lo, hi, k + 1)

RECURSIVE Isolate(_, _, _, _, _, _)
Isolate(p, seq, lo, hi, vlo, vhi) ==
  IF vlo = vhi THEN << >>
  ELSE IF vlo = vhi + 1 THEN << <<lo, hi>> >>
  ELSE LET m  == TLCEval(SplitAt(p, lo, hi, 1))
           vm == TLCEval(VarAt(seq, m))
       IN Isolate(p, seq, lo, m, vlo, vm) \o Isolate(p, seq, m, hi, vm, vhi)

\* Isolating intervals <<lo, hi>> of the distinct real roots of a
\* square-free p, in increasing order; p vanishes at no end point.
RootIntervals(p) ==
  IF Len(p) <= 1 THEN << >>
  ELSE LET seq == TLCEval(Sturm(p))
           b   == TLCEval(RootBound(p))
           lo  == <<BNeg(b), 1>>
           hi  == <<b, 1>>
       IN Isolate(p, seq, lo, hi, VarAt(seq, lo), VarAt(seq, hi))

NumRootsIn(seq, lo, hi) == VarAt(seq, lo) - VarAt(seq, hi)

RECURSIVE ProdSF(_, _, _)
ProdSF(ps, i, acc) ==
  IF i > Len(ps) THEN acc
  ELSE IF Len(ps[i]) <= 1 THEN ProdSF(ps, i + 1, acc)
  ELSE LET s == PSquareFree(ps[i])
           g == PGcd(acc, s)
       IN ProdSF(ps, i + 1, PPrim(PMul(acc, IF Len(g) = 1 THEN s ELSE PQuo(s, g))))

-----------------------------------------------------------------------------
(***************************************************************************)
(* SignTable(ps): columns from left to right; the odd ones are the open    *)
(* intervals, the even ones the distinct real roots of the product of the  *)
(* non-zero polynomials among ps.  Each column gives each ps[i]'s sign.    *)
(***************************************************************************)
SignTable(ps0) ==
  LET ps   == TLCEval([i \in 1 .. Len(ps0) |-> PNorm(ps0[i])])
      prod == TLCEval(ProdSF(ps, 1, <<1>>))
      ivs  == TLCEval(RootIntervals(prod))
      st   == TLCEval([i \in 1 .. Len(ps) |->
                 IF Len(ps[i]) <= 1 THEN << >> ELSE Sturm(PSquareFree(ps[i]))])
      gap(k) == \* the k-th gap, k in 0..Len(ivs)
        IF ivs = << >> THEN <<0, 1>> ELSE IF k = 0 THEN ivs[1][1] ELSE ivs[k][2]
      gapcol(k) == LET r == gap(k) IN [i \in 1 .. Len(ps) |-> PSignAt(ps[i], r)]
      rootcol(k) == [i \in 1 .. Len(ps) |->
                       IF ps[i] = << >> THEN 0
                       ELSE IF Len(ps[i]) = 1 THEN BSign(ps[i][1])
                       ELSE IF NumRootsIn(st[i], ivs[k][1], ivs[k][2]) = 1 THEN 0
                       ELSE PSignAt(ps[i], ivs[k][1])]
  IN TLCEval([c \in 1 .. (2 * Len(ivs) + 1) |->
        IF c % 2 = 1 THEN gapcol((c - 1) \div 2) ELSE rootcol(c \div 2)])

RelHolds(rel, s) == CASE rel = "le" -> s <= 0
                      [] rel = "lt" -> s < 0
                      [] rel = "eq" -> s = 0
                      [] rel = "ne" -> s # 0
                      [] rel = "ge" -> s >= 0
                      [] rel = "gt" -> s > 0

\* Is some real number a solution of all the constraints rels[i](ps[i])?
Satisfiable(ps, rels) ==
  LET t == SignTable(ps)
  IN \E c \in 1 .. Len(t) : \A i \in 1 .. Len(ps) : RelHolds(rels[i], t[c][i])
=============================================================================
