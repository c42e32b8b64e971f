------------------------------ MODULE RootDesc -------------------------------
(***************************************************************************)
(* Describing roots by the signs of derivatives (get_discri_der_signs): a  *)
(* work list of groups of roots; a group is split by the sign of the next  *)
(* derivative; the derivative is recorded only if it splits the group.     *)
(*                                                                         *)
(* The model checks on all polynomials within the bounds that the groups   *)
(* always end up as singletons (Thom's lemma) and that the recorded signs  *)
(* identify their root among ALL roots of the polynomial.                  *)
(***************************************************************************)
EXTENDS Signs
CONSTANTS Roots, MaxMult, Extra   \* integer roots, multiplicities, extra factors

VARIABLES p, tabs, work, desc
vars == <<p, tabs, work, desc>>

RECURSIVE PPow(_, _)
PPow(f, n) == IF n = 0 THEN <<1>> ELSE PMul(f, PPow(f, n - 1))
RECURSIVE ProdSet(_, _)
ProdSet(S, mult) == IF S = {} THEN <<1>>
                    ELSE LET r == CHOOSE r \in S : TRUE
                         IN PMul(PPow(<<0 - r, 1>>, mult[r]), ProdSet(S \ {r}, mult))

Init ==
  /\ \E S \in (SUBSET Roots) \ {{}} : \E mult \in [S -> 1 .. MaxMult] : \E x \in Extra : \E u \in {1, -1} :
        p = PScale(u, PMul(ProdSet(S, mult), x))
  /\ tabs = LET sg == TLCEval([j \in 1 .. PDeg(p) |-> SignsAtRoots(p, NthDeriv(p, j))])
            IN [k \in 1 .. Len(sg[1]) |-> [j \in 1 .. PDeg(p) |-> sg[j][k]]]
  /\ work = { [group |-> 1 .. Len(tabs), level |-> 1, rec |-> {}] }
  /\ desc = [k \in {} |-> {}]

Split ==
  /\ work # {}
  /\ \E w \in {CHOOSE w \in work : TRUE} :
       IF Cardinality(w.group) = 1
       THEN /\ work' = work \ {w}
            /\ desc' = [k \in DOMAIN desc \union w.group |-> IF k \in w.group THEN w.rec ELSE desc[k]]
       ELSE LET part(s) == {k \in w.group : tabs[k][w.level] = s}
                splits == \E s \in {-1, 0, 1} : part(s) # {} /\ part(s) # w.group
            IN /\ work' = (work \ {w}) \union
                    { [group |-> part(s), level |-> w.level + 1,
                       rec |-> IF splits THEN w.rec \union {<<w.level, s>>} ELSE w.rec] :
                      s \in {s2 \in {-1, 0, 1} : part(s2) # {}} }
               /\ desc' = desc
  /\ UNCHANGED <<p, tabs>>

Next == Split
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Meets(k, rec) == \A d \in rec : tabs[k][d[1]] = d[2]
LevelOk == \A w \in work : Cardinality(w.group) > 1 => w.level <= PDeg(p)
Unique == work = {} => /\ DOMAIN desc = 1 .. Len(tabs)
                       /\ \A k, m \in 1 .. Len(tabs) : Meets(m, desc[k]) <=> m = k
\* at most (number of roots - 1) derivatives are recorded for a root
Few == \A k \in DOMAIN desc : Cardinality(desc[k]) < PMax(2, Len(tabs))
Finishes == <>(work = {})
=============================================================================
