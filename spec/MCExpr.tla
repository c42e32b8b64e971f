------------------------------- MODULE MCExpr --------------------------------
(***************************************************************************)
(* The two meanings of terms agree: the value of a tree at a rational is   *)
(* the value of the polynomial it denotes.  Trees are grown by a machine   *)
(* that combines what it has; all trees reachable in three steps.          *)
(***************************************************************************)
EXTENDS Expr
VARIABLES e, k
Leaves == {Var("x"), Num(0), Num(2), Frac(-1, 3)}
Init == e \in Leaves /\ k = 0
Next == /\ k < 3 /\ k' = k + 1
        /\ \/ \E f \in Leaves : \E op \in {"add", "sub", "mul"} : e' = Bin(op, e, f) \/ e' = Bin(op, f, e)
           \/ \E c \in {Num(2), Frac(-3, 4)} : e' = Bin("div", e, c)
           \/ e' = [t |-> "neg", a |-> e]
           \/ e' = [t |-> "pow", a |-> e, k |-> 2]
           \/ e' = Bin("sub", e, e)
Points == {<<0, 1>>, <<1, 1>>, <<-2, 1>>, <<5, 7>>}
PolyValue(q, r) == IF q.n = << >> THEN <<0, 1>>
                   ELSE RNorm(PNumAt(q.n, r), BMul(q.d, BPow(r[2], PDeg(q.n))))
Agree == \A r \in Points : REq(ValueOf(e, [x |-> r]), PolyValue(PolyOf(e), r))
\* the cleared list is the least positive multiple with integer coefficients
Least == LET q == PolyOf(e)
         IN q.n = << >> \/ (BSign(q.d) > 0 /\ BEq(BGcd(PContent(q.n), q.d), 1))
=============================================================================
