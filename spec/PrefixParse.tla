------------------------------ MODULE PrefixParse ----------------------------
(***************************************************************************)
(* Reading terms in prefix notation, ( op term term ), ( - term ), with a  *)
(* stack of unfinished terms; a minus sign with one argument negates, with *)
(* two subtracts.  The value (at x = X) of the term read equals the value  *)
(* of the tree whose text it is, and reading never gets stuck.             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANTS Depth, X
VARIABLES tree, toks, stack, done
Leaf == {[t |-> "x", a |-> << >>], [t |-> "2", a |-> << >>]}
RECURSIVE Trees(_)
Trees(d) == IF d = 0 THEN Leaf
            ELSE LET S == Trees(d - 1)
                 IN S \union {[t |-> o, a |-> <<l, r>>] : o \in {"+", "-", "*"}, l \in S, r \in S}
                      \union {[t |-> "-", a |-> <<l>>] : l \in S}
RECURSIVE Text(_)
Text(n) == IF n.a = << >> THEN <<n.t>>
           ELSE <<"(", n.t>> \o Text(n.a[1]) \o (IF Len(n.a) = 2 THEN Text(n.a[2]) ELSE << >>) \o <<")">>
Op(o, args) == IF o = "+" THEN args[1] + args[2] ELSE IF o = "*" THEN args[1] * args[2]
               ELSE IF Len(args) = 1 THEN -args[1] ELSE args[1] - args[2]
RECURSIVE Val(_)
Val(n) == IF n.t = "x" THEN X ELSE IF n.t = "2" THEN 2 ELSE Op(n.t, [i \in 1 .. Len(n.a) |-> Val(n.a[i])])
Init == tree \in Trees(Depth) /\ toks = Text(tree) /\ stack = << [op |-> "", args |-> << >>] >> /\ done = FALSE
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Give(s, v) == [s EXCEPT ![Len(s)].args = Append(@, v)]
Read == /\ toks # << >> /\ toks' = Tail(toks) /\ UNCHANGED <<tree, done>>
        /\ LET k == Head(toks)
           IN stack' = IF k = "(" THEN Append(stack, [op |-> "?", args |-> << >>])
                       ELSE IF k = ")" THEN Give(Below, Op(Top.op, Top.args))
                       ELSE IF Top.op = "?" THEN [stack EXCEPT ![Len(stack)].op = k]
                       ELSE Give(stack, IF k = "x" THEN X ELSE 2)
Stop == toks = << >> /\ ~done /\ done' = TRUE /\ UNCHANGED <<tree, toks, stack>>
Next == Read \/ Stop
Spec == Init /\ [][Next]_<<tree, toks, stack, done>> /\ WF_<<tree, toks, stack, done>>(Next)
Faithful == done => stack = << [op |-> "", args |-> <<Val(tree)>>] >>
Ends == <>done
=============================================================================
