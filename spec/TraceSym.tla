------------------------------ MODULE TraceSym -------------------------------
(* Recorded conversions between symbolic polynomials and coefficient lists. *)
EXTENDS Expr, TraceBase

NoPad(p) == p = << >> \/ BSign(p[Len(p)]) # 0
SameList(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : BEq(a[i], b[i])

JudgeSym(ev) ==
  IF ev.op = "refuse" THEN IF ev.out.kind = "exc" THEN "ok" ELSE "accepted-what-is-no-rational-univariate-polynomial"
  ELSE IF ev.out.kind # "val" THEN "no-answer-" \o ev.out.kind
  ELSE IF ev.op = "convert" THEN
    LET w == ClearedPoly(ev.e)
    IN IF ~ev.ints THEN "not-integers"
       ELSE IF ~NoPad(ev.out.v) THEN "padded"
       ELSE IF SameList(ev.out.v, w) THEN "ok"
       ELSE IF SameList(ev.out.v, PNeg(w)) THEN "sign-flipped"
       ELSE IF SameList(PPrim(ev.out.v), PPrim(w)) THEN "not-the-least-multiple"
       ELSE "wrong-coefficients"
  ELSE \* back: coefficients, constant term first, of the symbolic polynomial that came back
    IF ~ev.inx THEN "not-a-polynomial-in-x"
    ELSE IF SameList(ev.out.v, PNorm(ev.p)) THEN "ok" ELSE "wrong-conversion-back"
=============================================================================
