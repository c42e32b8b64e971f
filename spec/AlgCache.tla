------------------------------- MODULE AlgCache ------------------------------
(***************************************************************************)
(* Memoised algebra operations.  Several algebras, one per eliminated      *)
(* variable, each with its own memory from (operation, arguments) to the   *)
(* result.  A call is answered from the memory if it is there and computed *)
(* and remembered otherwise.  Transparent: every answer is the one the     *)
(* plain operation gives for that algebra, operation and arguments.        *)
(*                                                                         *)
(* Ops is a set of operation names, Arity their number of arguments; the   *)
(* plain result is taken to be the free term [alg, op, args], so that any  *)
(* confusion of algebras, operations, arguments or argument order shows.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Algs, Polys, MaxMem, MaxCalls
Ops == {"LT", "LC", "pseudo_div"}
Arity(op) == IF op = "pseudo_div" THEN 2 ELSE 1
Args(op) == IF Arity(op) = 1 THEN {<<p>> : p \in Polys} ELSE {<<p, q>> : p, q \in Polys}
Plain(a, op, args) == <<a, op, args>>

VARIABLES mem, last, calls
vars == <<mem, last, calls>>
Init == mem = [a \in Algs |-> << >>] /\ last = << >> /\ calls = 0
\* mem[a]: sequence of <<key, result>>, key = <<op, args>>
Hits(a, key) == {i \in 1 .. Len(mem[a]) : mem[a][i][1] = key}
Call(a, op, args) ==
  LET key == <<op, args>>
      h   == Hits(a, key)
      ret == IF h # {} THEN mem[a][CHOOSE i \in h : TRUE][2] ELSE Plain(a, op, args)
  IN /\ calls < MaxCalls /\ calls' = calls + 1
     /\ last' = <<a, op, args, ret>>
     /\ mem' = IF h # {} THEN mem ELSE [mem EXCEPT ![a] = Append(@, <<key, ret>>)]
Next == \E a \in Algs : \E op \in Ops : \E args \in Args(op) : Call(a, op, args)
Spec == Init /\ [][Next]_vars
Transparent == last # << >> => last[4] = Plain(last[1], last[2], last[3])
OneEntry == \A a \in Algs : \A i, j \in 1 .. Len(mem[a]) : mem[a][i][1] = mem[a][j][1] => i = j
=============================================================================
