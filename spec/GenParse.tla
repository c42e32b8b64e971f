------------------------------ MODULE GenParse -------------------------------
(***************************************************************************)
(* Parsing sessions: a process parses several texts one after the other.   *)
(* Variable names include those of the parser's own globals and functions, *)
(* of symbolic constants, and of the language's keywords.                  *)
(***************************************************************************)
EXTENDS ExprGen, Json, CSV
CONSTANTS MaxItems, MaxDepth
VARIABLES items, want, stage, vs

AllNames == <<"x", "y", "z", "x1", "X", "skoX", "skoY", "_t", "a_b", "sympy", "pyp", "int", "nat", "term", "t", "s", "l",
              "real", "number", "E", "I", "pi", "S", "N", "O", "Q", "lambda", "sequent", "antecedent", "succedent",
              "variable", "doInt", "doVariable", "e1", "E5", "rln", "cmd", "oo", "zoo", "nan", "gamma", "Float", "Integer">>
Dyadic == << <<0, 1>>, <<1, 1>>, <<-1, 1>>, <<2, 1>>, <<1, 2>>, <<-3, 2>>, <<5, 1>>, <<-7, 4>> >>
\* three assignments
Envs(names) == [i \in 1 .. 3 |-> [v \in names |-> Dyadic[RInt(1, Len(Dyadic))]]]
NameSet == {vs[i] : i \in 1 .. Len(vs)}

DrawTerm(z) == LET k == RInt(1, 10)
               IN IF k = 1 THEN Chain(RInt(6, 14), vs, RInt(1, 2) = 1)
                  ELSE DrawText(RInt(0, MaxDepth), vs, FALSE, 3)
DrawFl(z) == DrawText(RInt(1, 3), vs, TRUE, 2)
Side(z) == IF RInt(1, 6) = 1 THEN DrawFl(0) ELSE DrawText(RInt(0, MaxDepth - 1), vs, FALSE, 2)
DrawRel(z) == [r |-> OneOf(RelOps), a |-> Side(0), b |-> IF RInt(1, 3) = 1 THEN IntLit(0) ELSE Side(0)]
DrawRels(z) == LET k == RInt(0, 3) IN TLCEval([i \in 1 .. k |-> TLCEval(DrawRel(i))])
SeqNames == <<"a", "abs-problem-2-weak2.0001", "foo bar", "x", "sequent", "f_1 (2)">>

None == [x |-> 0]
Init == items = << >> /\ want = 0 /\ stage = "start" /\ vs = <<"x">>
Start == /\ stage = "start" /\ stage' = "say"
         /\ want' = RInt(2, MaxItems)
         /\ vs' = LET k == RInt(1, 4) IN TLCEval([i \in 1 .. k |-> OneOf(AllNames)])
         /\ UNCHANGED items
ParseTerm == /\ stage = "say" /\ Len(items) < want
             /\ \E e \in {TLCEval(IF RInt(1, 4) = 1 THEN DrawFl(0) ELSE DrawTerm(0))} :
                  items' = Append(items, TLCEval([kind |-> "term", e |-> e, text |-> Opt(0) \o TextOf(e), env |-> Envs(NameSet)]))
             /\ UNCHANGED <<want, stage, vs>>
ParseRel == /\ stage = "say" /\ Len(items) < want
            /\ \E r \in {TLCEval(DrawRel(0))} :
                 items' = Append(items, TLCEval([kind |-> "rel", e |-> r, text |-> RelText(r), env |-> Envs(NameSet)]))
            /\ UNCHANGED <<want, stage, vs>>
ParseSeq == /\ stage = "say" /\ Len(items) < want
            /\ \E q \in {TLCEval([name |-> OneOf(SeqNames), ante |-> DrawRels(0), succ |-> DrawRels(0)])} :
                 items' = Append(items, TLCEval([kind |-> "seq", e |-> q, text |-> SeqText(q.name, q.ante, q.succ), env |-> Envs(NameSet)]))
            /\ UNCHANGED <<want, stage, vs>>
\* parse an earlier text again
Again == /\ stage = "say" /\ Len(items) < want /\ Len(items) > 1
         /\ items' = Append(items, OneOf(items))
         /\ UNCHANGED <<want, stage, vs>>
End == /\ stage = "say" /\ Len(items) = want /\ stage' = "done"
       /\ CSVWrite("%1$s", <<ToJson([items |-> items])>>, "stim.ndjson")
       /\ UNCHANGED <<items, want, vs>>
Next == Start \/ ParseTerm \/ ParseRel \/ ParseSeq \/ Again \/ End
=============================================================================
