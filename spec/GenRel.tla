------------------------------- MODULE GenRel --------------------------------
(***************************************************************************)
(* Implications between relations in one variable, as the checker gets     *)
(* them: hypotheses, conclusions, both sides of relations possibly with    *)
(* terms, constants that decide a relation, repeated relations.            *)
(***************************************************************************)
EXTENDS ExprGen, Json, CSV
CONSTANTS MaxAnte, MaxSucc, MaxDegree, MaxRoots,
          Batch      \* TRUE: right-hand sides are zero and each side keeps an undecided relation
VARIABLES pool, drawn, ante, succ, na, ns, stage

Plain == {"prod1", "prod2", "rand", "sqr", "deriv", "neg", "dup", "shift", "mult", "lins", "rand2", "sparse"}
Weights == <<"prod1", "prod1", "prod1", "prod2", "prod2", "rand", "sqr", "deriv", "neg", "dup", "shift", "mult", "rand2", "sparse">>
Ok(p) == PDeg(p) <= MaxDegree /\ NumRoots(p) <= MaxRoots /\ (Batch => PDeg(p) >= 1)
Zero == Num(0)
\* a relation about the polynomial p
AsRel(p, op) ==
  LET k == RInt(1, 6)
      e == PolyTree(p, 0, "x")
  IN IF Batch \/ k <= 3 THEN [r |-> op, a |-> e, b |-> Zero]
     ELSE IF k = 4 THEN [r |-> op, a |-> Bin("add", e, Var("x")), b |-> Var("x")]
     ELSE IF k = 5 THEN [r |-> op, a |-> Zero, b |-> PolyTree(PNeg(p), 0, "x")]
     ELSE [r |-> op, a |-> Bin("div", e, Num(OneOf(<<2, 3, 10>>))), b |-> Zero]
Trivial(z) == [r |-> OneOf(RelOps), a |-> Num(RInt(-1, 1)), b |-> Num(RInt(-1, 1))]

Init == /\ pool = << >> /\ drawn = << >> /\ ante = << >> /\ succ = << >> /\ na = 0 /\ ns = 0 /\ stage = "start"
Start == /\ stage = "start" /\ stage' = "hyp"
         /\ pool' = TLCEval(RandPool(RInt(1, 3)))
         /\ na' = RInt(IF Batch THEN 1 ELSE 0, MaxAnte) /\ ns' = RInt(IF Batch THEN 1 ELSE 0, MaxSucc)
         /\ UNCHANGED <<drawn, ante, succ>>
Fresh(z) == DrawPoly(OneOf(Weights), pool, drawn)
AddHyp == /\ stage = "hyp" /\ Len(ante) < na
          /\ \E p \in {TLCEval(Fresh(0))} : Ok(p) /\ drawn' = Append(drawn, p)
                /\ ante' = Append(ante, TLCEval(AsRel(p, OneOf(RelOps))))
          /\ UNCHANGED <<pool, succ, na, ns, stage>>
AddTrivHyp == /\ stage = "hyp" /\ Len(ante) < na /\ (Batch => Len(drawn) >= 1) /\ RInt(1, 3) = 1
              /\ ante' = Append(ante, TLCEval(Trivial(0)))
              /\ UNCHANGED <<pool, drawn, succ, na, ns, stage>>
ToConc == stage = "hyp" /\ Len(ante) >= na /\ stage' = "conc" /\ UNCHANGED <<pool, drawn, ante, succ, na, ns>>
AddConc == /\ stage = "conc" /\ Len(succ) < ns
           /\ \E p \in {TLCEval(Fresh(0))} : Ok(p) /\ drawn' = Append(drawn, p)
                /\ succ' = Append(succ, TLCEval(AsRel(p, OneOf(RelOps))))
           /\ UNCHANGED <<pool, ante, na, ns, stage>>
\* a conclusion that weakens a hypothesis, so that valid implications are common
Weaken == /\ stage = "conc" /\ Len(succ) < ns /\ Len(ante) > 0
          /\ LET h == ante[RInt(1, Len(ante))]
                 w == CASE h.r = "lt" -> OneOf(<<"le", "ne", "lt">>) [] h.r = "gt" -> OneOf(<<"ge", "ne", "gt">>)
                        [] h.r = "eq" -> OneOf(<<"le", "ge", "eq">>) [] OTHER -> h.r
             IN HasVar(h.a) /\ succ' = Append(succ, [h EXCEPT !.r = w])
          /\ UNCHANGED <<pool, drawn, ante, na, ns, stage>>
AddTrivConc == /\ stage = "conc" /\ Len(succ) < ns /\ (Batch => Len(succ) >= 1) /\ RInt(1, 3) = 1
               /\ succ' = Append(succ, TLCEval(Trivial(0)))
               /\ UNCHANGED <<pool, drawn, ante, na, ns, stage>>
End == /\ stage = "conc" /\ Len(succ) >= ns /\ stage' = "done"
       /\ CSVWrite("%1$s", <<ToJson([ante |-> ante, succ |-> succ])>>, "stim.ndjson")
       /\ UNCHANGED <<pool, drawn, ante, succ, na, ns>>
Next == Start \/ AddHyp \/ AddTrivHyp \/ ToConc \/ AddConc \/ Weaken \/ AddTrivConc \/ End
=============================================================================
