------------------------------- MODULE SignDet -------------------------------
(***************************************************************************)
(* Sign determination as done by evaluate_single_on_sign_assignment: the   *)
(* sign of a goal polynomial g at the root of p described by the signs of  *)
(* discriminating polynomials, found by solving                            *)
(*        M * counts = Tarski queries of the 3^k products                  *)
(* where M is the matrix of signs, and reading the goal's sign off the     *)
(* counts consistent with the description.                                 *)
(*                                                                         *)
(* All that matters about the polynomials is the list of sign vectors at   *)
(* the roots of p, so the model ranges over EVERY list of up to NRoot sign *)
(* vectors for NPoly polynomials (discriminators and, last, the goal) in   *)
(* which the discriminators tell the roots apart.                          *)
(*                                                                         *)
(* Conventions of the implementation that the model shares and the trace   *)
(* checks bind: the order 0, +, - of signs (columns), the order of the     *)
(* exponents 0, 1, 2 (rows), first polynomial slowest.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NPoly, NRoot

SignAt(k) == CASE k = 0 -> 0 [] k = 1 -> 1 [] k = 2 -> -1      \* column order
Base == [e \in 0 .. 2 |-> [k \in 0 .. 2 |-> IF e = 0 THEN 1 ELSE IF e = 1 THEN SignAt(k) ELSE SignAt(k) * SignAt(k)]]

Pow3(n) == 3 ^ n
Digit(i, pos) == (i \div Pow3(NPoly - pos)) % 3       \* pos 1 is the slowest digit

RECURSIVE ProdOver(_, _, _)
ProdOver(row, col, pos) == IF pos > NPoly THEN 1
                           ELSE Base[Digit(row, pos)][Digit(col, pos)] * ProdOver(row, col, pos + 1)
\* Kronecker power of the base matrix
Mat == [row \in 0 .. (Pow3(NPoly) - 1) |-> [col \in 0 .. (Pow3(NPoly) - 1) |-> ProdOver(row, col, 1)]]

VARIABLES roots,   \* sign vectors at the roots of p
          which,   \* the described root
          taq,     \* Tarski queries found so far
          counts,  \* solution of the linear system
          sign,    \* the answer
          pc
vars == <<roots, which, taq, counts, sign, pc>>

Vec == [1 .. NPoly -> {-1, 0, 1}]
SameDesc(a, b) == \A i \in 1 .. (NPoly - 1) : a[i] = b[i]

Init ==
  /\ \E n \in 1 .. NRoot : roots \in [1 .. n -> Vec]
  /\ which \in 1 .. Len(roots)
  /\ \A j \in 1 .. Len(roots) : j # which => ~SameDesc(roots[j], roots[which])
  /\ taq = << >> /\ counts = << >> /\ sign = 9 /\ pc = "query"

RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
RECURSIVE ProdSigns(_, _, _)
ProdSigns(v, row, pos) == IF pos > NPoly THEN 1 ELSE Power(v[pos], Digit(row, pos)) * ProdSigns(v, row, pos + 1)
RECURSIVE SumRoots(_, _)
SumRoots(row, j) == IF j > Len(roots) THEN 0 ELSE ProdSigns(roots[j], row, 1) + SumRoots(row, j + 1)

Query == /\ pc = "query"
         /\ taq' = [row \in 0 .. (Pow3(NPoly) - 1) |-> SumRoots(row, 1)]
         /\ pc' = "solve" /\ UNCHANGED <<roots, which, counts, sign>>

ColOf(v) == CHOOSE col \in 0 .. (Pow3(NPoly) - 1) : \A pos \in 1 .. NPoly : SignAt(Digit(col, pos)) = v[pos]

\* The base matrix is invertible, so the system has exactly one solution;
\* 2 * inverse is integral: [2 0 -2; 0 1 1; 0 -1 1].
Inv2 == << <<2, 0, -2>>, <<0, 1, 1>>, <<0, -1, 1>> >>
RECURSIVE InvProd(_, _, _)
InvProd(row, col, pos) == IF pos > NPoly THEN 1
                          ELSE Inv2[Digit(row, pos) + 1][Digit(col, pos) + 1] * InvProd(row, col, pos + 1)
InvMat == [row \in 0 .. (Pow3(NPoly) - 1) |-> [col \in 0 .. (Pow3(NPoly) - 1) |-> InvProd(row, col, 1)]]
RECURSIVE Dot(_, _, _)
Dot(a, b, i) == IF i < 0 THEN 0 ELSE a[i] * b[i] + Dot(a, b, i - 1)

Solve == /\ pc = "solve"
         /\ counts' = [c \in 0 .. (Pow3(NPoly) - 1) |-> Dot(InvMat[c], taq, Pow3(NPoly) - 1) \div (2 ^ NPoly)]
         /\ pc' = "pick" /\ UNCHANGED <<roots, which, taq, sign>>

Offset(s) == CASE s = 0 -> 0 [] s = 1 -> 1 [] s = -1 -> 2
RECURSIVE Shift(_)
Shift(pos) == IF pos >= NPoly THEN 0
              ELSE Pow3(NPoly - pos) * Offset(roots[which][pos]) + Shift(pos + 1)
Pick == /\ pc = "pick"
        /\ LET cand == {s \in {-1, 0, 1} : counts[Shift(1) + Offset(s)] = 1}
           IN sign' = IF Cardinality(cand) = 1 THEN CHOOSE s \in cand : TRUE ELSE 9
        /\ pc' = "done" /\ UNCHANGED <<roots, which, taq, counts>>

Next == Query \/ Solve \/ Pick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the counts are the numbers of roots with each sign vector ...
CountsRight == counts # << >> =>
  \A c \in 0 .. (Pow3(NPoly) - 1) :
     counts[c] = Cardinality({j \in 1 .. Len(roots) : ColOf(roots[j]) = c})
\* ... the linear system is consistent ...
SystemRight == counts # << >> =>
  \A row \in 0 .. (Pow3(NPoly) - 1) : Dot(Mat[row], counts, Pow3(NPoly) - 1) = taq[row]
\* ... and the answer is the goal's sign at the described root.
SignRight == pc = "done" => sign = roots[which][NPoly]
Answers == <>(pc = "done")
=============================================================================
