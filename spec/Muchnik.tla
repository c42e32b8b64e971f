------------------------------- MODULE Muchnik -------------------------------
(***************************************************************************)
(* Muchnik's procedure over the reals, at one parameter point.             *)
(*                                                                         *)
(* The procedure closes the input under leading-term removal, derivation   *)
(* and pseudo-remainders, knows the signs of the members without x at the  *)
(* parameter point (that is the case it is in), and extends a sign diagram *)
(* by one member with x at a time, lowest degree first.  It never looks at *)
(* roots, nor at the value of the parameter.                               *)
(*                                                                         *)
(* Diagram: columns from left to right, first and last are the infinities, *)
(* in between intervals and roots alternate.  Invariant Faithful: without  *)
(* the infinities, the diagram is the sign table of the specialised        *)
(* members, as Sturm sequences give it.                                    *)
(***************************************************************************)
EXTENDS QPoly

VARIABLES y, rows, todo, diagram, stuck
vars == <<y, rows, todo, diagram, stuck>>
\* rows: the polynomials of the diagram, in order of their extension;
\* diagram: sequence of columns, each a sequence of signs, one per row

Init ==
  \E S \in Systems : \E a \in Pars :
    LET cl == TLCEval(Closure(S))
        cs == TLCEval(ByDegree({p \in cl : Len(p) = 1} \union {<< >>}))
        col == TLCEval([i \in 1 .. Len(cs) |-> ConstSign(cs[i], a)])
    IN /\ y = a /\ rows = cs /\ todo = ByDegree({p \in cl : Len(p) > 1})
       /\ diagram = <<col, col, col>> /\ stuck = FALSE

Row(p) == CHOOSE i \in 1 .. Len(rows) : rows[i] = p
NC == Len(diagram)
Flip(v, on) == IF on THEN 0 - v ELSE v

\* rows that vanish in column c without being zero throughout
Zeros(c) == {i \in 1 .. Len(rows) : diagram[c][i] = 0 /\ diagram[1][i] # 0}
\* sign of p at a root of an earlier row: that of the remainder by the lowest
\* row vanishing there, up to the sign of the pseudo-division factor
AtRoot(p, c) ==
  LET z == CHOOSE i \in Zeros(c) : \A j \in Zeros(c) : Len(rows[i]) <= Len(rows[j])
      g == rows[z]
      rem == QPRem(p, g)
      neg == diagram[c][Row(LcRow(g))] < 0
      odd == (Len(p) - Len(g) + 1) % 2 = 1
  IN Flip(diagram[c][Row(rem)], neg /\ odd)

Extend ==
  /\ todo # << >> /\ ~stuck
  /\ LET p  == Head(todo)
         lc == diagram[1][Row(LcRow(p))]
         n  == Len(p) - 1
     IN IF lc = 0
        THEN /\ diagram' = TLCEval([c \in 1 .. NC |-> Append(diagram[c], diagram[c][Row(QTail(p))])])
             /\ stuck' = FALSE
        ELSE LET ends == <<IF n % 2 = 0 THEN lc ELSE 0 - lc, lc>>
                 known(c) == c \in {1, NC} \/ Zeros(c) # {}
                 val == TLCEval([c \in {d \in 1 .. NC : known(d)} |->
                           IF c = 1 THEN ends[1] ELSE IF c = NC THEN ends[2] ELSE AtRoot(p, c)])
                 bad == \E c \in 2 .. (NC - 1) : ~known(c) /\ val[c - 1] = 0 /\ val[c + 1] = 0
                 \* the columns that column c turns into
                 piece(c) ==
                   IF known(c) THEN << Append(diagram[c], val[c]) >>
                   ELSE LET a == val[c - 1] b == val[c + 1]
                        IN IF a * b < 0
                           THEN <<Append(diagram[c], a), Append(diagram[c], 0), Append(diagram[c], b)>>
                           ELSE <<Append(diagram[c], IF a + b > 0 THEN 1 ELSE -1)>>
                 RECURSIVE pieces(_)
                 pieces(c) == IF c > NC THEN << >> ELSE piece(c) \o pieces(c + 1)
             IN IF bad THEN stuck' = TRUE /\ UNCHANGED diagram
                ELSE stuck' = FALSE /\ diagram' = TLCEval(pieces(1))
  /\ rows' = Append(rows, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED y
Next == Extend
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NeverStuck == ~stuck
Faithful ==
  LET t == SignTable(TLCEval([i \in 1 .. Len(rows) |-> At(rows[i], y)]))
  IN SubSeq(diagram, 2, NC - 1) = t
Finishes == <>(todo = << >>)
=============================================================================
