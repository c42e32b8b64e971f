------------------------------- MODULE MCMerge -------------------------------
(***************************************************************************)
(* Merging all variables into one: the polynomial RelPoly(r) has, at every *)
(* point, the sign of left minus right at the assignment that gives all    *)
(* variables that value.  All relations grown in two steps per side.       *)
(***************************************************************************)
EXTENDS Expr
VARIABLES r, k
Leaves == {Var("x"), Var("y"), Num(1), Frac(-2, 3)}
Init == \E a, b \in Leaves : \E op \in {"lt", "eq", "ge"} : r = [r |-> op, a |-> a, b |-> b] /\ k = 0
Grow(e) == {Bin(op, e, f) : op \in {"add", "sub", "mul"}, f \in Leaves} \union {[t |-> "neg", a |-> e], Bin("div", e, Num(-3))}
Next == /\ k < 2 /\ k' = k + 1
        /\ \/ \E f \in Grow(r.a) : r' = [r EXCEPT !.a = f]
           \/ \E f \in Grow(r.b) : r' = [r EXCEPT !.b = f]
Points == {<<0, 1>>, <<1, 1>>, <<-1, 1>>, <<2, 3>>, <<-7, 2>>}
Merged == LET p == RelPoly(r)
          IN \A q \in Points :
               RelHolds(r.r, PSignAt(p, q)) =
               OpHolds(r.r, RCmp(ValueOf(r.a, [x |-> q, y |-> q]), ValueOf(r.b, [x |-> q, y |-> q])))
=============================================================================
