-------------------------------- MODULE Field --------------------------------
(***************************************************************************)
(* Polynomials over a non-archimedean ordered field.  A number is a tuple   *)
(*     <<a, b, c, d, e>>   standing for   a + b sqrt(2) + c pi + d E + e F  *)
(* where E is a positive infinitesimal and F one that is infinitely smaller *)
(* than E.  A polynomial is given by its leading coefficient, its roots in  *)
(* the field (with repetition) and factors that are positive everywhere,    *)
(* so its sign at any place follows from the order alone.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* the order of the standard parts, exact for the small numbers used here
Std(x) == 1000000 * x[1] + 1414214 * x[2] + 3141593 * x[3]
Less(x, y) ==
  \/ Std(x) < Std(y)
  \/ Std(x) = Std(y) /\ x[4] < y[4]
  \/ Std(x) = Std(y) /\ x[4] = y[4] /\ x[5] < y[5]
Cmp(x, y) == IF Less(x, y) THEN -1 ELSE IF Less(y, x) THEN 1 ELSE 0

\* the numbers that may occur
Numbers == {<<a, b, c, d, e>> : a \in -3 .. 3, b \in -1 .. 2, c \in -1 .. 1, d \in -2 .. 2, e \in -1 .. 1}
Standard == {<<a, b, c>> : a \in -3 .. 3, b \in -1 .. 2, c \in -1 .. 1}
\* rounding the irrational parts identifies no two numbers, nor swaps any
ASSUME \A x \in Standard, y \in Standard : x = y \/ Std(x) - Std(y) > 20 \/ Std(y) - Std(x) > 20
\* transfer: the order is the one for small positive values of E and F
Small(x) == 1000000 * x[1] + 1000 * x[4] + x[5]
ASSUME \A x \in Numbers, y \in {z \in Numbers : z[2] = 0 /\ z[3] = 0} :
         (x[2] = 0 /\ x[3] = 0) => (Less(x, y) <=> Small(x) < Small(y))

\* a place: "minf", "at" a number, or "right" of it (closer than anything else)
Places(S) == {<<"minf", <<0, 0, 0, 0, 0>>>>} \union {<<"at", x>> : x \in S} \union {<<"right", x>> : x \in S}

Side(place, root) ==
  IF place[1] = "minf" THEN -1
  ELSE LET c == Cmp(place[2], root)
       IN IF c = 0 /\ place[1] = "right" THEN 1 ELSE c

RECURSIVE SignProd(_, _)
SignProd(place, roots) == IF roots = << >> THEN 1 ELSE Side(place, Head(roots)) * SignProd(place, Tail(roots))

\* p = [s |-> sign of the leading coefficient, roots |-> ..., ...]
SignAt(p, place) == p.s * SignProd(place, p.roots)

Holds(rel, s) == CASE rel = "le" -> s <= 0 [] rel = "lt" -> s < 0 [] rel = "eq" -> s = 0 [] rel = "ne" -> s # 0

RootsOf(p) == {p.roots[i] : i \in 1 .. Len(p.roots)}
AllRoots(ps) == UNION {RootsOf(ps[i]) : i \in 1 .. Len(ps)}

Solvable(ps, rels) ==
  \E place \in Places(AllRoots(ps)) : \A i \in 1 .. Len(ps) : Holds(rels[i], SignAt(ps[i], place))

\* roots of p where q is positive, minus those where it is negative
Query(p, q) ==
  Cardinality({x \in RootsOf(p) : SignAt(q, <<"at", x>>) > 0})
    - Cardinality({x \in RootsOf(p) : SignAt(q, <<"at", x>>) < 0})
=============================================================================
