---------------------------- MODULE TraceAlgebra -----------------------------
(* Recorded calls of the algebra wrappers.  e.v: variable; e.op; e.args:     *)
(* polynomials; e.out, e.plain: what the caching and the plain algebra       *)
(* returned.                                                                 *)
EXTENDS MPoly, TraceBase

Right(e, o) ==
  LET p == e.args[1]
      q == IF Len(e.args) > 1 THEN e.args[2] ELSE << >>
      v == e.v
  IN CASE e.op = "LT" -> MEq(o.v, MLT(p, v))
       [] e.op = "LC" -> MEq(o.v, MLC(p, v))
       [] e.op = "LS" -> IF MZero(p) THEN BSign(o.v) = 0
                         ELSE \E x \in MSupport(p) : BEq(MCoef(p, x), o.v)
       [] e.op = "degree" -> o.v = MDeg(p, v)
       [] e.op = "p_tail" -> MEq(o.v, MTail(p, v))
       [] e.op = "derivative" -> MEq(o.v, MDeriv(p, v))
       [] e.op = "has_variable" -> o.v = MHasVar(p)
       [] e.op = "sign" -> o.v = (IF MZero(p) THEN 0 ELSE BSign(MCoef(p, <<0, 0, 0>>)))
       [] e.op = "zero" -> MZero(o.v)
       [] e.op = "e_var" -> MEq(o.v, << <<1, IF v = 2 THEN 1 ELSE 0, IF v = 3 THEN 1 ELSE 0, IF v = 4 THEN 1 ELSE 0>> >>)
       [] e.op = "div" -> /\ MEq(p, MMul(o.v[1], q) \o o.v[2])
                          /\ MDeg(o.v[2], v) < MDeg(q, v)
       [] e.op = "pseudo_div" ->
            LET d == MDeg(p, v) - MDeg(q, v) + 1
                c == IF d > 0 THEN MPow(MLC(q, v), d) ELSE << <<1, 0, 0, 0>> >>
            IN /\ MEq(MMul(c, p), MMul(o.v[1], q) \o o.v[2])
               /\ MDeg(o.v[2], v) < MDeg(q, v)

JudgeAlgebra(e) ==
  IF e.plain.kind # "val" THEN "plain-no-answer-" \o e.plain.kind
  ELSE IF e.out.kind # "val" THEN "cached-no-answer-" \o e.out.kind
  ELSE IF ~Right(e, e.plain) THEN "plain-wrong-" \o e.op
  ELSE IF ~Right(e, e.out) THEN "cached-wrong-" \o e.op
  ELSE IF e.same # TRUE THEN "cached-differs-from-plain-" \o e.op
  ELSE "ok"
=============================================================================
