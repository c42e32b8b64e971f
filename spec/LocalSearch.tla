----------------------------- MODULE LocalSearch -----------------------------
(***************************************************************************)
(* The neighbourhood search of local_search.py, over a line of NP points.  *)
(* Truth tables stand for the hypotheses still withheld and for the goal;  *)
(* neighbours on the line stand for points an epsilon apart.  A chain       *)
(* starts at the given point; a link picks a withheld hypothesis (a true    *)
(* one when there is one), lets the numerical solver jump (anywhere: nothing*)
(* is assumed of it) and looks around the place reached.                    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS NP, NHyps, Chains, Length,
          Careful          \* keeps only points where the goal fails
P == 0 .. NP - 1
H == 1 .. NHyps
Near(p) == {q \in P : q = p \/ q = p + 1 \/ p = q + 1}
VARIABLES hyp, goal, start, cur, chain, link, out, seen, aims
vars == <<hyp, goal, start, cur, chain, link, out, seen, aims>>

Init == /\ hyp \in [H -> SUBSET P]        \* where each hypothesis is true
        /\ goal \in SUBSET P
        /\ start \in P
        /\ cur = start
        /\ chain = 1 /\ link = 1
        /\ out = Near(start)
        /\ seen = {}
        /\ aims = {}

Open == chain <= Chains /\ H # {}
True(p) == {h \in H : p \in hyp[h]}
Aimable(p) == IF True(p) = {} THEN H ELSE True(p)
Step == /\ Open
        /\ \E h \in Aimable(cur), q \in P, around \in SUBSET P :
             /\ around \subseteq Near(q)
             /\ LET new == {q} \union around
                IN out' = out \union (IF Careful THEN new \ goal ELSE new)
             /\ cur' = IF link = Length THEN start ELSE q
             /\ aims' = {<<cur, h>>}
             /\ seen' = seen \union {q}
        /\ link' = IF link = Length THEN 1 ELSE link + 1
        /\ chain' = IF link = Length THEN chain + 1 ELSE chain
        /\ UNCHANGED <<hyp, goal, start>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

\* what is returned besides the neighbourhood can matter to the filter
Useful == \A q \in out \ Near(start) : q \notin goal
\* a counterexample to the goal that was reached is never lost
Found == seen \ goal \subseteq out
\* the filter is sent where a hypothesis that held stops holding
Aimed == \A a \in aims : True(a[1]) # {} => a[1] \in hyp[a[2]]
Ends == <>(~Open)
=============================================================================
