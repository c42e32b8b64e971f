---------------------------- MODULE RootDiagram ------------------------------
(***************************************************************************)
(* Muchnik's procedure over the complex numbers, at one parameter point.   *)
(*                                                                         *)
(* Diagram: column 1 stands for a point that is a root of nothing, each    *)
(* further column for one root; entries tell zero (0) from not zero (1).   *)
(* Extending by p: at known roots the value comes from the remainder by    *)
(* the lowest row vanishing there; its multiplicity from the derivatives   *)
(* that vanish there too; the roots still missing are new and simple.      *)
(*                                                                         *)
(* Faithful: rows vanish together in exactly as many columns as the        *)
(* specialised polynomials have distinct complex roots in common.          *)
(***************************************************************************)
EXTENDS QPoly

VARIABLES y, rows, todo, diagram
vars == <<y, rows, todo, diagram>>

ConstVal(p, a) == IF p = << >> THEN 0 ELSE IF BSign(PNumAt(p[1], a)) = 0 THEN 0 ELSE 1

Init ==
  \E S \in Systems : \E a \in Pars :
    LET cl == TLCEval(Closure(S))
        cs == TLCEval(ByDegree({p \in cl : Len(p) = 1} \union {<< >>}))
    IN /\ y = a /\ rows = cs /\ todo = ByDegree({p \in cl : Len(p) > 1})
       /\ diagram = << TLCEval([i \in 1 .. Len(cs) |-> ConstVal(cs[i], a)]) >>

Row(p) == CHOOSE i \in 1 .. Len(rows) : rows[i] = p
NC == Len(diagram)
Zeros(c) == {i \in 1 .. Len(rows) : diagram[c][i] = 0 /\ diagram[1][i] # 0}
AtRoot(p, c) ==
  LET z == CHOOSE i \in Zeros(c) : \A j \in Zeros(c) : Len(rows[i]) <= Len(rows[j])
  IN diagram[c][Row(QPRem(p, rows[z]))]
\* how many derivatives of p from the first on vanish in column c
RECURSIVE Vanishing(_, _)
Vanishing(d, c) == IF d = << >> \/ diagram[c][Row(d)] # 0 THEN 0 ELSE 1 + Vanishing(QDeriv(d), c)

RECURSIVE SumTo(_, _)
SumTo(f, c) == IF c = 1 THEN 0 ELSE f[c] + SumTo(f, c - 1)

Extend ==
  /\ todo # << >>
  /\ LET p == Head(todo)
     IN diagram' = TLCEval(
          IF diagram[1][Row(LcRow(p))] = 0
          THEN [c \in 1 .. NC |-> Append(diagram[c], diagram[c][Row(QTail(p))])]
          ELSE LET val  == TLCEval([c \in 2 .. NC |-> AtRoot(p, c)])
                   mult == TLCEval([c \in 2 .. NC |->
                              IF val[c] = 0 THEN 1 + Vanishing(QDeriv(p), c) ELSE 0])
                   new  == Len(p) - 1 - SumTo(mult, NC)
               IN [c \in 1 .. (NC + new) |->
                     IF c = 1 THEN Append(diagram[1], 1)
                     ELSE IF c <= NC THEN Append(diagram[c], val[c])
                     ELSE Append(diagram[1], 0)])
     /\ rows' = Append(rows, p)
  /\ todo' = Tail(todo) /\ UNCHANGED y
Next == Extend
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* number of distinct common complex roots of three non-zero polynomials
Common(p, q, r) == Len(PGcd(PGcd(PSquareFree(p), PSquareFree(q)), PSquareFree(r))) - 1
Faithful ==
  LET sp == TLCEval([i \in 1 .. Len(rows) |-> At(rows[i], y)])
      nz == {i \in 1 .. Len(rows) : sp[i] # << >>}
      rd == TLCEval(ProdSF(TLCEval([i \in 1 .. Len(rows) |-> IF sp[i] = << >> THEN <<1>> ELSE sp[i]]), 1, <<1>>))
      Z(i) == {c \in 2 .. NC : diagram[c][i] = 0}
  IN /\ NC - 1 = Len(rd) - 1
     /\ \A i \in 1 .. Len(rows) : diagram[1][i] = (IF i \in nz THEN 1 ELSE 0)
     /\ \A i \in (1 .. Len(rows)) \ nz : Z(i) = 2 .. NC
     /\ \A i, j, k \in nz : i <= j /\ j <= k /\ k = Len(rows) =>
          Cardinality(Z(i) \intersect Z(j) \intersect Z(k)) = Common(sp[i], sp[j], sp[k])
Finishes == <>(todo = << >>)
=============================================================================
