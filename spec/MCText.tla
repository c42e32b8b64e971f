------------------------------- MODULE MCText --------------------------------
(***************************************************************************)
(* The text language is unambiguous: a recursive-descent reading of the    *)
(* tokens of a tree's text gives back the tree.  All trees reachable in    *)
(* three combination steps.                                                *)
(***************************************************************************)
EXTENDS ExprGen
VARIABLES e, k
Leaves == {Var("x"), Var("y"), IntLit(0), IntLit(-2)}
Init == e \in Leaves /\ k = 0
Next == /\ k < 3 /\ k' = k + 1
        /\ \/ \E f \in Leaves : \E op \in {"add", "sub", "mul", "div"} : e' = Bin(op, e, f) \/ e' = Bin(op, f, e)
           \/ e' = [t |-> "neg", a |-> e]
\* tokens of the text, one per sequence element
RECURSIVE Tokens(_)
Tokens(f) == CASE f.t = "num" -> <<f.s>>
               [] f.t = "var" -> <<f.v>>
               [] f.t = "neg" -> <<"(", "-">> \o Tokens(f.a) \o <<")">>
               [] OTHER -> <<"(", OpText(f.t)>> \o Tokens(f.a) \o Tokens(f.b) \o <<")">>
\* Read(ts): [e, rest], rest = tokens left over
OpOf(s) == CASE s = "+" -> "add" [] s = "-" -> "sub" [] s = "*" -> "mul" [] s = "/" -> "div"
RECURSIVE Read(_)
Read(ts) ==
  IF Head(ts) # "("
  THEN [e |-> CHOOSE f \in Leaves : Tokens(f) = <<Head(ts)>>, rest |-> Tail(ts)]
  ELSE LET a == Read(Tail(Tail(ts)))
       IN IF Head(a.rest) = ")" THEN [e |-> [t |-> "neg", a |-> a.e], rest |-> Tail(a.rest)]
          ELSE LET b == Read(a.rest)
               IN [e |-> Bin(OpOf(ts[2]), a.e, b.e), rest |-> Tail(b.rest)]
RoundTrip == LET r == Read(Tokens(e)) IN r.e = e /\ r.rest = << >>
=============================================================================
