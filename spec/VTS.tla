--------------------------------- MODULE VTS ---------------------------------
(***************************************************************************)
(* The decision procedures of vts/uni_vts.py (internal_ts, internal_vts)   *)
(* as a state machine over test points.                                    *)
(*                                                                         *)
(* Input: a system of constraints  ps[i] rels[i] 0,  rels[i] in            *)
(* {le, lt, eq, ne}.  All that matters about the polynomials is their sign *)
(* table (module Poly): the procedures only ever look at signs at          *)
(*   - the real roots of the le/eq polynomials         (action TryRoot)    *)
(*   - points infinitesimally right of lt/ne roots     (action TryEps)     *)
(*   - minus infinity                                  (action TryNegInf)  *)
(* and answer TRUE as soon as one of these satisfies every constraint.     *)
(*                                                                         *)
(* Design property (Exact): when the machine is done, its verdict is TRUE  *)
(* iff SOME real number satisfies the system.  The model quantifies over   *)
(* every sign table continuous functions with finitely many zeros can have *)
(* within the bounds, so it covers polynomials of any degree.              *)
(***************************************************************************)
EXTENDS Poly, FiniteSets

CONSTANTS NPoly,   \* number of constraints
          NRoot    \* at most this many distinct roots altogether

Rels == {"le", "lt", "eq", "ne"}

VARIABLES
  tab,      \* sign table: tab[c][i], odd c are gaps, even c roots
  rels,     \* rels[i]
  phase,    \* "roots" -> "eps" -> "neginf" -> "done"
  tried,    \* columns tried in this phase
  verdict   \* "none", or the answer

vars == <<tab, rels, phase, tried, verdict>>

(***************************************************************************)
(* Rows of sign tables: the zero polynomial, or a non-vanishing sign on    *)
(* each gap and at each root column either zero or (no sign change) the    *)
(* sign of both neighbours.                                                *)
(***************************************************************************)
RowOk(row) ==
  \/ \A c \in DOMAIN row : row[c] = 0
  \/ \A c \in DOMAIN row :
       IF c % 2 = 1 THEN row[c] # 0
       ELSE row[c] = 0 \/ (row[c] = row[c - 1] /\ row[c] = row[c + 1])

Rows(k) == {row \in [1 .. (2 * k + 1) -> {-1, 0, 1}] : RowOk(row)}

TransposeOf(rows, k) == [c \in 1 .. (2 * k + 1) |-> [i \in 1 .. NPoly |-> rows[i][c]]]

ColHolds(c) == \A i \in 1 .. NPoly : RelHolds(rels[i], tab[c][i])

ZeroPoly(i) == \A c \in 1 .. Len(tab) : tab[c][i] = 0

\* the column of a root of polynomial i
IsRootOf(c, i) == c % 2 = 0 /\ tab[c][i] = 0 /\ ~ZeroPoly(i)

RootCols == {c \in 1 .. Len(tab) : \E i \in 1 .. NPoly : rels[i] \in {"le", "eq"} /\ IsRootOf(c, i)}
EpsCols  == {c + 1 : c \in {d \in 1 .. Len(tab) :
               \E i \in 1 .. NPoly : rels[i] \in {"lt", "ne"} /\ IsRootOf(d, i)}}

Init ==
  /\ \E k \in 0 .. NRoot :
       \E rows \in [1 .. NPoly -> Rows(k)] : tab = TransposeOf(rows, k)
  /\ rels \in [1 .. NPoly -> Rels]
  /\ phase = "roots" /\ tried = {} /\ verdict = "none"

\* A constraint 0 < 0 or 0 # 0 is refused before any test point is tried.
RefuseZero ==
  /\ phase = "roots" /\ tried = {}
  /\ \E i \in 1 .. NPoly : ZeroPoly(i) /\ rels[i] \in {"lt", "ne"}
  /\ phase' = "done" /\ verdict' = "unsat"
  /\ UNCHANGED <<tab, rels, tried>>

Hopeful == ~ \E i \in 1 .. NPoly : ZeroPoly(i) /\ rels[i] \in {"lt", "ne"}

Try(ph, cols, next) ==
  /\ phase = ph /\ Hopeful
  /\ IF cols \ tried = {}
     THEN phase' = next /\ tried' = {} /\ UNCHANGED verdict
     ELSE \E c \in cols \ tried :
            IF ColHolds(c)
            THEN phase' = "done" /\ verdict' = "sat" /\ tried' = tried
            ELSE tried' = tried \union {c} /\ UNCHANGED <<phase, verdict>>
  /\ UNCHANGED <<tab, rels>>

TryRoot == Try("roots", RootCols, "eps")
TryEps  == Try("eps", EpsCols, "neginf")
TryNegInf ==
  /\ phase = "neginf"
  /\ phase' = "done"
  /\ verdict' = IF ColHolds(1) THEN "sat" ELSE "unsat"
  /\ UNCHANGED <<tab, rels, tried>>

Next == RefuseZero \/ TryRoot \/ TryEps \/ TryNegInf
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Exact == phase = "done" =>
           (verdict = "sat" <=> \E c \in 1 .. Len(tab) : ColHolds(c))
Decides == <>(phase = "done")
=============================================================================
