------------------------------- MODULE TraceQE -------------------------------
(***************************************************************************)
(* Recorded runs of the quantifier elimination procedures.                 *)
(*                                                                         *)
(* e.lt, e.eq, e.gt (reals) or e.eq, e.ne (complex numbers): the system;   *)
(* e.out.v.polys: the distinct polynomials in the returned cases;          *)
(* e.out.v.cases: each case a sequence of <<index in polys, sign>>         *)
(* (complex: sign 0, or 1 for "not zero"); e.pts: the parameter points at  *)
(* which the answer is compared.  e.par: does the system have parameters?  *)
(* e.out.v.said: "sat" or "unsat" as announced, "" if nothing is.          *)
(* e.out.v.shown: the cases of the printed formula (index 0: a condition    *)
(* that is on none of the returned polynomials).                            *)
(***************************************************************************)
EXTENDS ParPoly, TraceBase

Spec1(ps, a) == TLCEval([i \in 1 .. Len(ps) |-> Specialise(ps[i], a)])

TruthAt(e, a) ==
  IF e.op = "complex" THEN ComplexSolvable(Spec1(e.eq, a), Spec1(e.ne, a))
  ELSE RealSolvable(Spec1(e.lt, a) \o Spec1(e.eq, a) \o Spec1(e.gt, a),
                    [i \in 1 .. (Len(e.lt) + Len(e.eq) + Len(e.gt)) |->
                       IF i <= Len(e.lt) THEN -1 ELSE IF i <= Len(e.lt) + Len(e.eq) THEN 0 ELSE 1])

Squash(e, s) == IF e.op = "complex" /\ s # 0 THEN 1 ELSE s

\* some returned case has all its conditions met
AnswerAt(e, a) ==
  LET v  == e.out.v
      sg == TLCEval([i \in 1 .. Len(v.polys) |-> Squash(e, ParSign(v.polys[i], a))])
  IN \E c \in 1 .. Len(v.cases) :
        \A j \in 1 .. Len(v.cases[c]) : sg[v.cases[c][j][1]] = v.cases[c][j][2]

Conditions(cs) == {{<<cs[c][j][1], cs[c][j][2]>> : j \in 1 .. Len(cs[c])} : c \in 1 .. Len(cs)}

Origin == <<<<0, 1>>, <<0, 1>>>>
Num(r) == ToString(r[1]) \o "/" \o ToString(r[2])
Where(a) == Num(a[1]) \o "," \o Num(a[2])

JudgeQE(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE IF \E i \in 1 .. Len(e.out.v.polys) : HasX(e.out.v.polys[i]) THEN "condition-on-the-eliminated-variable"
  ELSE IF Conditions(e.out.v.shown) # Conditions(e.out.v.cases) THEN "printed-formula-is-not-the-returned-one"
  ELSE IF ~e.par THEN
    LET t == TruthAt(e, Origin)
    IN IF e.op = "ch"
       THEN IF t = (Len(e.out.v.cases) > 0) /\ \A c \in 1 .. Len(e.out.v.cases) : e.out.v.cases[c] = << >>
            THEN "ok" ELSE "wrong-satisfiability"
       ELSE IF e.out.v.said = (IF t THEN "sat" ELSE "unsat") THEN "ok" ELSE "wrong-satisfiability-announced"
  ELSE LET wrong == {i \in 1 .. Len(e.pts) : TruthAt(e, e.pts[i]) # AnswerAt(e, e.pts[i])}
       IN IF wrong = {} THEN "ok"
          ELSE LET a == e.pts[CHOOSE i \in wrong : TRUE]
               IN IF TruthAt(e, a) THEN "solvable-but-no-case-at-" \o Where(a)
                  ELSE "unsolvable-but-a-case-at-" \o Where(a)
=============================================================================
