------------------------------ MODULE GenField -------------------------------
(***************************************************************************)
(* Sessions over coefficients that are not rational: constraints are stated *)
(* one by one, with roots that coincide, lie infinitely close together or   *)
(* are far apart, and then a question is asked.                             *)
(***************************************************************************)
EXTENDS Field, TLC, Randomization, Json, CSV
CONSTANTS MaxCons, MaxRoots
VARIABLES style, pool, ps, rels, want, op, stage
vars == <<style, pool, ps, rels, want, op, stage>>

Rand(S) == RandomElement(S)
Styles == {"alg", "pi", "eps", "eps2"}
Coord(st, i) ==
  CASE i = 1 -> Rand(-3 .. 3)
    [] i = 2 -> IF st = "alg" THEN Rand(-1 .. 1) ELSE 0
    [] i = 3 -> IF st \in {"pi"} THEN Rand(-1 .. 1) ELSE 0
    [] i = 4 -> IF st \in {"eps", "eps2"} THEN Rand(-1 .. 1) ELSE 0
    [] i = 5 -> IF st = "eps2" THEN Rand(-1 .. 1) ELSE 0
RandNum(st) == <<Coord(st, 1), Coord(st, 2), Coord(st, 3), Coord(st, 4), Coord(st, 5)>>
\* infinitely close to x, if the style has infinitesimals
Nudge(st, x) == <<x[1], x[2], x[3], Coord(st, 4), Coord(st, 5)>>

Units == {"one", "three", "half", "sqrt2", "pi", "eps", "inf"}
UnitOf(st) == IF Rand(1 .. 3) = 1 THEN "one"
              ELSE Rand({"three", "half"} \union (IF st \in {"alg"} THEN {"sqrt2"} ELSE {})
                        \union (IF st \in {"pi"} THEN {"pi"} ELSE {})
                        \union (IF st \in {"eps", "eps2"} THEN {"eps"} ELSE {}))
DefOf(st) == IF st \in {"alg", "eps2"} \/ Rand(1 .. 5) # 1 THEN << >>
             ELSE <<Rand({"one"} \union (IF st = "eps" THEN {"eps"} ELSE {}))>>
DrawRoots(pl, k) == [i \in 1 .. k |-> pl[Rand(1 .. Len(pl))]]

DrawPoly(st, pl, max) ==
  LET t == Rand(1 .. 24)
  IN IF t = 1 THEN [s |-> 0, unit |-> "one", roots |-> << >>, defs |-> << >>]
     ELSE IF t = 2 THEN [s |-> Rand({-1, 1}), unit |-> UnitOf(st), roots |-> << >>, defs |-> << >>]
     ELSE LET d == DefOf(st)
          IN [s |-> Rand({-1, 1}), unit |-> UnitOf(st),
              roots |-> DrawRoots(pl, Rand((IF d = << >> THEN 1 ELSE 0) .. (IF d = << >> THEN max ELSE max - 1))),
              defs |-> d]

\* the same polynomial with one root moved by less than anything standard
Sibling(st, p) ==
  LET i == Rand(1 .. Len(p.roots))
      x == p.roots[i]
      y == <<x[1], x[2], x[3], Rand((-2 .. 2) \ {x[4]}), IF st = "eps2" THEN Rand(-1 .. 1) ELSE 0>>
  IN [p EXCEPT !.roots[i] = y]
DrawNext(st, pl, max) ==
  IF st \in {"eps", "eps2"} /\ ps # << >> /\ Len(ps[Len(ps)].roots) > 0 /\ Rand(1 .. 2) = 1
  THEN Sibling(st, ps[Len(ps)]) ELSE DrawPoly(st, pl, max)

Init == style = "" /\ pool = << >> /\ ps = << >> /\ rels = << >> /\ want = 0 /\ op = "" /\ stage = "start"

Start(st) ==
  /\ stage = "start"
  /\ style' = st
  /\ LET x == RandNum(st) IN LET y == RandNum(st)
     IN pool' = <<x, y, Nudge(st, x), Nudge(st, y)>>
  /\ op' = Rand({"vts", "vts2", "ts", "tarski", "at"})
  /\ want' = IF op' \in {"tarski", "at"} THEN 2 ELSE Rand(1 .. MaxCons)
  /\ stage' = "add"
  /\ UNCHANGED <<ps, rels>>

Add(r) ==
  /\ stage = "add" /\ Len(ps) < want
  /\ \E p \in {DrawNext(style, pool, IF style = "alg" /\ MaxRoots > 2 THEN 2 ELSE MaxRoots)} :
       /\ (op \in {"tarski", "at"} /\ ps = << >>) => Len(p.roots) > 0
       /\ ps' = Append(ps, p)
  /\ rels' = Append(rels, r)
  /\ UNCHANGED <<style, pool, want, op, stage>>

Ask == /\ stage = "add" /\ Len(ps) = want
       /\ stage' = "done"
       /\ CSVWrite("%1$s", <<ToJson([op |-> IF op = "vts2" THEN "vts" ELSE op, ps |-> ps, rels |-> rels])>>, "stim.ndjson")
       /\ UNCHANGED <<style, pool, ps, rels, want, op>>

Next == (\E st \in Styles : Start(st)) \/ (\E r \in {"le", "lt", "eq", "ne"} : Add(r)) \/ Ask
=============================================================================
