------------------------------ MODULE TraceDiag ------------------------------
(***************************************************************************)
(* Recorded runs of the partial elimination procedures.                    *)
(*                                                                         *)
(* e.op: "real" or "complex"; e.ps: the polynomials; e.mode: how signs of  *)
(* the conditions on the parameters were chosen ("ask": typed for the      *)
(* parameter point e.pts[1], "given": the same by an assigner handed in;   *)
(* "pos", "zero", "neg": all alike); e.out.v.rows: the polynomials of the  *)
(* diagram; e.out.v.cols: its columns from left to right, one sign per     *)
(* row; e.pts: parameter points.                                           *)
(***************************************************************************)
EXTENDS ParPoly, FiniteSets, TraceBase

HasPar(p) == \E i \in 1 .. Len(p) : p[i][3] > 0 \/ p[i][4] > 0
Alike(m) == IF m = "pos" THEN 1 ELSE IF m = "neg" THEN -1 ELSE 0
Sq(e, s) == IF e.op = "complex" /\ s # 0 THEN 1 ELSE s
Origin == <<<<0, 1>>, <<0, 1>>>>

\* the same polynomial (monomials in any order)
Same(p, q) == Len(p) = Len(q) /\ \A i \in 1 .. Len(p) : \E j \in 1 .. Len(q) : /\ BEq(p[i][1], q[j][1])
                                                                            /\ Tail(p[i]) = Tail(q[j])

\* complex: every way of vanishing or not occurs in as many columns as there
\* are distinct roots at which the polynomials vanish that way
RECURSIVE GcdIdx(_, _, _)
GcdIdx(sp, S, g) == IF S = {} THEN g ELSE LET i == CHOOSE i \in S : TRUE IN GcdIdx(sp, S \ {i}, TLCEval(PGcd(g, sp[i])))
RECURSIVE ProdIdx(_, _, _)
ProdIdx(sp, S, g) == IF S = {} THEN g ELSE LET i == CHOOSE i \in S : TRUE IN ProdIdx(sp, S \ {i}, TLCEval(PMul(g, sp[i])))
ComplexFault(sp, cols) ==
  LET R == 1 .. Len(sp)
      nz == {i \in R : sp[i] # << >>}
      sf == TLCEval([i \in R |-> IF sp[i] = << >> THEN << >> ELSE PSquareFree(sp[i])])
      U == TLCEval(ProdSF([i \in R |-> IF sp[i] = << >> THEN <<1>> ELSE sp[i]], 1, <<1>>))
      Z(c) == {i \in nz : cols[c][i] = 0}
      pats == {Z(c) : c \in 2 .. Len(cols)}
      \* roots of all of S, and of no other
      roots(S) == LET g == TLCEval(GcdIdx(sf, S, << >>))
                      o == TLCEval(ProdIdx(sf, nz \ S, <<1>>))
                  IN Len(g) - Len(PGcd(g, o))
  IN IF \E i \in nz : cols[1][i] # 1 THEN "polynomial-vanishes-everywhere-in-the-diagram"
     ELSE IF \E i \in R \ nz : \E c \in 1 .. Len(cols) : cols[c][i] # 0 THEN "zero-polynomial-does-not-vanish"
     ELSE IF Len(cols) - 1 # Len(U) - 1 THEN "wrong-number-of-roots"
     ELSE IF {} \in pats THEN "column-of-no-root"
     ELSE IF \E S \in pats : Cardinality({c \in 2 .. Len(cols) : Z(c) = S}) # roots(S) THEN "wrong-common-roots"
     ELSE "ok"

RealFault(sp, cols) ==
  LET t == TLCEval(SignTable(sp))
      n == Len(cols)
      mid == SubSeq(cols, 2, n - 1)
  IN IF n < 3 THEN "diagram-without-columns"
     ELSE IF cols[1] # t[1] \/ cols[n] # t[Len(t)] THEN "wrong-signs-at-infinity"
     ELSE IF Len(mid) # Len(t) THEN "wrong-number-of-roots"
     ELSE IF mid # t THEN "wrong-signs"
     ELSE "ok"

JudgeDiag(e) ==
  LET asked == e.mode \in {"ask", "given"}
  IN
  IF e.out.kind = "bad" THEN IF asked THEN "diagram-refused-for-signs-that-occur" ELSE "ok"
  ELSE IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE
  LET rows == e.out.v.rows
      cols == e.out.v.cols
      R == 1 .. Len(rows)
      free == {i \in R : ~HasX(rows[i])}
      sign(i, a) == Sq(e, ParSign(rows[i], a))
      given(i) == IF HasPar(rows[i]) /\ ~asked THEN Sq(e, Alike(e.mode)) ELSE sign(i, e.pts[1])
      fits(a) == \A i \in free : sign(i, a) = cols[1][i]
      pts == IF asked THEN {1} ELSE {k \in 1 .. Len(e.pts) : fits(e.pts[k])}
      fault(k) == LET sp == TLCEval([i \in R |-> Specialise(rows[i], e.pts[k])])
                  IN IF e.op = "complex" THEN ComplexFault(sp, cols) ELSE RealFault(sp, cols)
  IN IF \E i \in 1 .. Len(e.ps) : ~\E j \in R : Same(e.ps[i], rows[j]) THEN "polynomial-without-row"
     ELSE IF \E c \in 1 .. Len(cols) : Len(cols[c]) # Len(rows) THEN "diagram-with-holes"
     ELSE IF \E i \in free : \E c \in 1 .. Len(cols) : cols[c][i] # given(i) THEN "condition-with-another-sign-than-chosen"
     ELSE LET bad == {k \in pts : fault(k) # "ok"}
          IN IF bad = {} THEN "ok" ELSE fault(CHOOSE k \in bad : TRUE)
=============================================================================
