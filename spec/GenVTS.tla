------------------------------- MODULE GenVTS --------------------------------
(***************************************************************************)
(* Sessions of the decision procedures: a user states constraints one by   *)
(* one (AddConstraint) and asks for a verdict (Ask).  Every finished       *)
(* session is written to stim.ndjson.                                      *)
(***************************************************************************)
EXTENDS PolyGen, Json, CSV

CONSTANTS MaxCons,    \* constraints per session
          MaxRoots,   \* distinct real roots per polynomial
          Far,        \* TRUE: only rational roots, some of them very large or very small
          MaxDegree   \* degree of each polynomial

VARIABLES pool, ps, rels, want, stage
vars == <<pool, ps, rels, want, stage>>

Init == pool = << >> /\ ps = << >> /\ rels = << >> /\ want = 0 /\ stage = "start"

Start == /\ stage = "start"
         /\ pool' = RandPool(RInt(1, 3))
         /\ want' = RInt(1, MaxCons)
         /\ stage' = "add"
         /\ UNCHANGED <<ps, rels>>

Rels == {"le", "lt", "eq", "ne"}

AddConstraint(r) ==
  /\ stage = "add" /\ Len(ps) < want
  /\ \E p \in {DrawPoly(IF Far THEN "far" ELSE DrawKind(Len(ps)), pool, ps)} :
       /\ PDeg(p) <= MaxDegree
       /\ NumRoots(p) <= MaxRoots
       /\ ps' = Append(ps, p)
  /\ rels' = Append(rels, r)
  /\ UNCHANGED <<pool, want, stage>>

Ask == /\ stage = "add" /\ Len(ps) = want
       /\ stage' = "done"
       /\ CSVWrite("%1$s", <<ToJson([ps |-> ps, rels |-> rels])>>, "stim.ndjson")
       /\ UNCHANGED <<pool, ps, rels, want>>

Next == Start \/ (\E r \in Rels : AddConstraint(r)) \/ Ask
=============================================================================
