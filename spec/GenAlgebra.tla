----------------------------- MODULE GenAlgebra ------------------------------
(***************************************************************************)
(* Sessions with several algebras over a small stock of polynomials, so    *)
(* that calls recur with the same, with swapped and with merely equal      *)
(* arguments, for other operations and for other algebras.                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Randomization, Json, CSV
CONSTANTS Calls, Stock
VARIABLES stock, session, stage
RInt(lo, hi) == RandomElement(lo .. hi)
Mono(z) == <<RandomElement({-3, -2, -1, 1, 2, 5, 1, -1}), RandomElement({0, 0, 1, 1, 2, 3}), RandomElement({0, 0, 0, 1, 2}), RandomElement({0, 0, 0, 0, 1})>>
RECURSIVE Monos(_)
Monos(n) == IF n = 0 THEN << >> ELSE <<Mono(n)>> \o Monos(n - 1)
RandP(z) == LET k == RInt(1, 12)
            IN IF k = 1 THEN << <<RInt(1, 4) - 5, 0, 0, 0>> >>
               ELSE IF k = 2 THEN << <<1, 1, 0, 0>> >>
               ELSE IF k = 3 THEN << <<1, 0, 1, 0>> >>
               ELSE IF k = 4 THEN << >>
               ELSE Monos(RInt(1, 4))
Unary == <<"LT", "LC", "LS", "degree", "p_tail", "derivative", "has_variable">>
Draw(z) == stock[RInt(1, Stock)]
\* a monic divisor free of other variables' leading coefficients
Monic(v) == <<[<<1, 0, 0, 0>> EXCEPT ![v] = RInt(1, 2)]>> \o
            (IF RInt(1, 2) = 1 THEN << >> ELSE << <<RInt(-2, 2), 0, 0, 0>> >>)
CallOf(k) ==
  LET v == RandomElement({2, 2, 3, 4})
      s == RandomElement({0, 1})
  IN IF k <= 8 THEN [op |-> Unary[RInt(1, Len(Unary))], v |-> v, args |-> <<Draw(1)>>, twin |-> s]
     ELSE IF k <= 11 THEN [op |-> "pseudo_div", v |-> v, args |-> <<Draw(1), Draw(2)>>, twin |-> s]
     ELSE IF k = 12 THEN [op |-> "div", v |-> v, args |-> <<Draw(1), Monic(v)>>, twin |-> s]
     ELSE IF k = 13 THEN [op |-> "sign", v |-> v, args |-> << << <<RInt(-3, 3), 0, 0, 0>> >> >>, twin |-> s]
     ELSE [op |-> RandomElement({"zero", "e_var"}), v |-> v, args |-> << << >> >>, twin |-> s]
\* ask an earlier question again, of the same or of another algebra, or with
\* the arguments exchanged
Repeat(k) ==
  LET c == session[RInt(1, Len(session))]
      j == RInt(1, 4)
  IN IF j = 1 THEN c
     ELSE IF j = 2 /\ c.op \notin {"div"} THEN [c EXCEPT !.v = RandomElement({2, 3, 4})]
     ELSE IF j = 3 /\ c.op = "pseudo_div" THEN [c EXCEPT !.args = <<c.args[2], c.args[1]>>]
     ELSE IF j = 4 /\ c.op \in {"LT", "LC", "LS", "degree", "p_tail", "derivative", "has_variable"}
          THEN [c EXCEPT !.op = Unary[RInt(1, Len(Unary))]]
     ELSE [c EXCEPT !.twin = 1 - c.twin]
Init == stock = << >> /\ session = << >> /\ stage = "start"
Start == stage = "start" /\ stage' = "call" /\ stock' = TLCEval([i \in 1 .. Stock |-> RandP(i)]) /\ UNCHANGED session
Ask == /\ stage = "call" /\ Len(session) < Calls
       /\ session' = Append(session, TLCEval(CallOf(RInt(1, 14)))) /\ UNCHANGED <<stock, stage>>
AskAgain == /\ stage = "call" /\ Len(session) < Calls /\ Len(session) > 0
            /\ session' = Append(session, TLCEval(Repeat(0))) /\ UNCHANGED <<stock, stage>>
End == /\ stage = "call" /\ Len(session) = Calls /\ stage' = "done"
       /\ CSVWrite("%1$s", <<ToJson([calls |-> session])>>, "stim.ndjson") /\ UNCHANGED <<stock, session>>
Next == Start \/ Ask \/ AskAgain \/ End
=============================================================================
