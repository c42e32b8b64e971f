------------------------------- MODULE GenUni --------------------------------
(* Lists of relations in several variables, some of them decided.           *)
EXTENDS ExprGen, Json, CSV
CONSTANTS MaxRels, MaxDepth
VARIABLES rels, vs, want, stage
Names == <<"x", "y", "z", "skoX", "t", "x_1", "_x", "X">>
Init == rels = << >> /\ vs = <<"x">> /\ want = 0 /\ stage = "start"
Start == /\ stage = "start" /\ stage' = "add" /\ want' = RInt(0, MaxRels) /\ rels' = rels
         /\ vs' = LET k == RInt(1, 5) IN TLCEval([i \in 1 .. k |-> OneOf(Names)])
Side(d) == IF RInt(1, 8) = 1 THEN Frac(RInt(-7, 7), RInt(1, 6)) ELSE DrawPolyText(d, vs)
AddRel == /\ stage = "add" /\ Len(rels) < want
          /\ \E r \in {TLCEval([r |-> OneOf(RelOps), a |-> Side(RInt(0, MaxDepth)), b |-> Side(RInt(0, MaxDepth - 1))])} :
               Degree(r.a) <= 9 /\ Degree(r.b) <= 9 /\ rels' = Append(rels, r)
          /\ UNCHANGED <<vs, want, stage>>
AddConst == /\ stage = "add" /\ Len(rels) < want /\ RInt(1, 4) = 1
            /\ rels' = Append(rels, TLCEval([r |-> OneOf(RelOps), a |-> Num(RInt(-2, 2)), b |-> Num(RInt(-2, 2))]))
            /\ UNCHANGED <<vs, want, stage>>
End == /\ stage = "add" /\ Len(rels) = want /\ stage' = "done"
       /\ CSVWrite("%1$s", <<ToJson([rels |-> rels])>>, "stim.ndjson") /\ UNCHANGED <<rels, vs, want>>
Next == Start \/ AddRel \/ AddConst \/ End
=============================================================================
