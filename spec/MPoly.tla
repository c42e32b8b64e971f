-------------------------------- MODULE MPoly --------------------------------
(***************************************************************************)
(* Polynomials in x, y, z as sequences of monomials <<c, ex, ey, ez>>, not *)
(* necessarily collected; v (2, 3 or 4) is the position of the exponent of *)
(* the variable the algebra is about.  The operations of the algebra are   *)
(* given by what they mean.                                                *)
(***************************************************************************)
EXTENDS BigInt, Sequences, FiniteSets, TLC

Exps(p) == {<<p[i][2], p[i][3], p[i][4]>> : i \in 1 .. Len(p)}
RECURSIVE CoefSum(_, _, _)
CoefSum(p, e, i) == IF i > Len(p) THEN 0
                    ELSE LET r == CoefSum(p, e, i + 1)
                         IN IF <<p[i][2], p[i][3], p[i][4]>> = e THEN BAdd(p[i][1], r) ELSE r
MCoef(p, e) == CoefSum(p, e, 1)
MSupport(p) == {e \in Exps(p) : BSign(MCoef(p, e)) # 0}
MEq(p, q) == \A e \in Exps(p) \union Exps(q) : BEq(MCoef(p, e), MCoef(q, e))
MZero(p) == MSupport(p) = {}
MTimes(m, n) == <<BMul(m[1], n[1]), m[2] + n[2], m[3] + n[3], m[4] + n[4]>>
RECURSIVE MScaleBy(_, _)
MScaleBy(m, p) == IF p = << >> THEN << >> ELSE <<MTimes(m, Head(p))>> \o MScaleBy(m, Tail(p))
RECURSIVE MMul(_, _)
MMul(p, q) == IF p = << >> THEN << >> ELSE MScaleBy(Head(p), q) \o MMul(Tail(p), q)
RECURSIVE MPow(_, _)
MPow(p, n) == IF n = 0 THEN << <<1, 0, 0, 0>> >> ELSE MMul(p, MPow(p, n - 1))

SetMax(S) == CHOOSE a \in S : \A b \in S : b <= a
\* degree in the variable; -1 for the zero polynomial
MDeg(p, v) == IF MZero(p) THEN -1 ELSE SetMax({e[v - 1] : e \in MSupport(p)})
MLT(p, v) == LET d == MDeg(p, v) IN SelectSeq(p, LAMBDA m : m[v] = d)
MLC(p, v) == LET t == MLT(p, v) IN [i \in 1 .. Len(t) |-> [t[i] EXCEPT ![v] = 0]]
MTail(p, v) == LET d == MDeg(p, v) IN SelectSeq(p, LAMBDA m : m[v] # d)
MDeriv(p, v) == LET t == SelectSeq(p, LAMBDA m : m[v] > 0)
                IN [i \in 1 .. Len(t) |-> [t[i] EXCEPT ![v] = @ - 1, ![1] = BMul(t[i][1], t[i][v])]]
MHasVar(p) == \E e \in MSupport(p) : e # <<0, 0, 0>>
=============================================================================
