------------------------------ MODULE TraceRel -------------------------------
(***************************************************************************)
(* Recorded calls of the checker's and the example loader's functions.     *)
(* Input relations are trees; relations the code returned are              *)
(* [r |-> operator | "true" | "false", p |-> polynomial compared with 0].  *)
(***************************************************************************)
EXTENDS Expr, TraceBase

OutHolds(o, s) == IF o.r = "true" THEN TRUE ELSE IF o.r = "false" THEN FALSE ELSE RelHolds(o.r, s)
IsOp(o) == o.r \in {"true", "false", "le", "lt", "eq", "ne", "ge", "gt"}

InPolys(rs) == TLCEval([i \in 1 .. Len(rs) |-> RelPoly(rs[i])])
OutPolys(os) == TLCEval([i \in 1 .. Len(os) |-> os[i].p])

RECURSIVE Flatten(_)
Flatten(cs) == IF cs = << >> THEN << >> ELSE Head(cs) \o Flatten(Tail(cs))

\* position of the first relation of clause c in the flattened list
RECURSIVE Offset(_, _)
Offset(cs, c) == IF c = 1 THEN 0 ELSE Len(cs[c - 1]) + Offset(cs, c - 1)

\* does some real number falsify the implication?
Falsifiable(ante, succ) ==
  LET t == SignTable(InPolys(ante) \o InPolys(succ))
      na == Len(ante)
  IN \E c \in 1 .. Len(t) :
       /\ \A i \in 1 .. na : RelHolds(ante[i].r, t[c][i])
       /\ \E j \in 1 .. Len(succ) : ~RelHolds(succ[j].r, t[c][na + j])

AllTrue(dec) == \A i \in 1 .. Len(dec) : dec[i] = "true"

JudgePre(e) ==
  IF e.out.kind # "val"
  THEN IF e.out.kind = "exc" /\ (AllTrue(e.deca) \/ AllTrue(e.decs)) THEN "ok" ELSE "refused-" \o e.out.kind
  ELSE LET cs == e.out.v
           fl == Flatten(cs)
           na == Len(e.ante)
           ns == Len(e.succ)
           t  == TLCEval(SignTable(InPolys(e.ante) \o InPolys(e.succ) \o OutPolys(fl)))
           fals(c) == /\ \A i \in 1 .. na : RelHolds(e.ante[i].r, t[c][i])
                      /\ \E j \in 1 .. ns : ~RelHolds(e.succ[j].r, t[c][na + j])
           sat(c)  == \E k \in 1 .. Len(cs) : \A m \in 1 .. Len(cs[k]) :
                         OutHolds(cs[k][m], t[c][na + ns + Offset(cs, k) + m])
       IN IF \E m \in 1 .. Len(fl) : ~IsOp(fl[m]) THEN "not-a-relation"
          ELSE IF \E m \in 1 .. Len(fl) : fl[m].r \in {"ge", "gt"} THEN "greater-than-left"
          ELSE IF \E c \in 1 .. Len(t) : fals(c) /\ ~sat(c) THEN "counterexample-lost"
          ELSE IF \E c \in 1 .. Len(t) : sat(c) /\ ~fals(c) THEN "counterexample-invented"
          ELSE "ok"

\* relation by relation: expect(s) is the truth wanted where the input's polynomial has sign s
PairOk(r, o, want(_)) ==
  LET t == SignTable(<<RelPoly(r), o.p>>)
  IN IsOp(o) /\ \A c \in 1 .. Len(t) : OutHolds(o, t[c][2]) = want(t[c][1])

JudgeNegate(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE IF Len(e.out.v) # Len(e.rels) THEN "relations-lost-or-invented"
  ELSE IF \A i \in 1 .. Len(e.rels) : LET W(s) == ~RelHolds(e.rels[i].r, s) IN PairOk(e.rels[i], e.out.v[i], W)
       THEN "ok" ELSE "not-the-complement"

JudgeLess(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE IF Len(e.out.v) # Len(e.rels) THEN "relations-lost-or-invented"
  ELSE IF \E i \in 1 .. Len(e.out.v) : e.out.v[i].r \in {"ge", "gt"} THEN "greater-than-left"
  ELSE IF \A i \in 1 .. Len(e.rels) : LET W(s) == RelHolds(e.rels[i].r, s) IN PairOk(e.rels[i], e.out.v[i], W)
       THEN "ok" ELSE "relation-changed"

\* the map of a clause: a bag of polynomials per kind
CountIn(ps, q) == Cardinality({i \in 1 .. Len(ps) : PEqual(PPrim(ps[i]), PPrim(q))})
JudgeMap(e) ==
  IF \E i \in 1 .. Len(e.rels) : e.rels[i].r \in {"gt", "ge"}
  THEN \* not of the four kinds: refusing is fine, dropping the relation is not
       IF e.out.kind # "val" THEN "ok"
       ELSE IF Len(e.out.v.le) + Len(e.out.v.lt) + Len(e.out.v.eq) + Len(e.out.v.ne) = Len(e.rels) THEN "ok"
       ELSE "relation-lost-invented-or-changed"
  ELSE IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE LET of(k) == LET sel == SelectSeq(e.rels, LAMBDA r : r.r = k) IN InPolys(sel)
           okk(k) == LET a == of(k)
                         b == e.out.v[k]
                     IN /\ Len(a) = Len(b)
                        /\ \A i \in 1 .. Len(a) : CountIn(a, a[i]) = CountIn(b, a[i])
       IN IF \A k \in {"le", "lt", "eq", "ne"} : okk(k) THEN "ok" ELSE "relation-lost-invented-or-changed"

(* merging variables: e.rels trees in several variables; outputs in x       *)
JudgeUni(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE IF Len(e.out.v) # Len(e.rels) THEN "relations-lost-or-invented"
  ELSE IF \E i \in 1 .. Len(e.rels) : e.dec[i] # "" /\ e.out.v[i].r # e.dec[i] THEN "decided-relation-changed"
  ELSE IF \E i \in 1 .. Len(e.rels) : e.out.v[i].r \notin {"true", "false", e.rels[i].r} THEN "kind-changed"
  ELSE IF \E i \in 1 .. Len(e.rels) : e.out.v[i].r \notin {"true", "false"} /\ ~e.out.v[i].rhs0 THEN "right-side-not-zero"
  ELSE IF \A i \in 1 .. Len(e.rels) : LET W(s) == RelHolds(e.rels[i].r, s) IN PairOk(e.rels[i], e.out.v[i], W)
       THEN "ok" ELSE "truth-changed"

JudgeRel(e) == CASE e.op = "pre" -> JudgePre(e) [] e.op = "negate" -> JudgeNegate(e) [] e.op = "less" -> JudgeLess(e)
                 [] e.op = "map" -> JudgeMap(e) [] e.op = "uni" -> JudgeUni(e)

(* The batch checker: e.examples = the stored examples in the order they    *)
(* were processed; out.v = [vals |-> printed values, false |-> positions    *)
(* listed as false, lines |-> ...]                                          *)
JudgeBatch(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE LET ex == e.out.v.examples
           n  == Len(ex)
           want == TLCEval([i \in 1 .. n |-> ~Falsifiable(ex[i].ante, ex[i].succ)])
       IN IF Len(e.out.v.vals) # n THEN "verdicts-missing"
          ELSE IF \E i \in 1 .. n : e.out.v.vals[i] = "True" /\ ~want[i] THEN "invalid-called-true"
          ELSE IF \E i \in 1 .. n : e.out.v.vals[i] # "True" /\ want[i] THEN "valid-called-false"
          ELSE IF {e.out.v.listed[i] : i \in 1 .. Len(e.out.v.listed)} # {ex[i].key : i \in {j \in 1 .. n : ~want[j]}}
               THEN "list-of-false-examples-wrong"
          ELSE "ok"
=============================================================================
