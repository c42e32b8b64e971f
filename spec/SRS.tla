--------------------------------- MODULE SRS ---------------------------------
(***************************************************************************)
(* The signed remainder sequence (signed_remainder_sequence) and the sign- *)
(* change count on it (signed_remainder_cauchy_index), as a state machine: *)
(* one pseudo-division step per action, as in signed_pseudo_remainder.     *)
(***************************************************************************)
EXTENDS Signs
CONSTANTS D, M      \* degrees and coefficients of the inputs

Small == UNION {{p \in [1 .. n -> -M .. M] : p[n] # 0} : n \in 1 .. (D + 1)}

VARIABLES p, q,     \* inputs
          seq,      \* sequence so far
          rest,     \* current partial remainder of seq[n-1] by seq[n]
          pc        \* "divide" or "done"
vars == <<p, q, seq, rest, pc>>

Init == /\ p \in Small /\ q \in Small
        /\ seq = <<p, q>> /\ rest = p /\ pc = "divide"

Last == seq[Len(seq)]

\* eliminate the leading term of the partial remainder, multiplying by a
\* positive number only
Reduce ==
  /\ pc = "divide" /\ Len(rest) >= Len(Last)
  /\ LET cg == BAbs(PLc(Last))
         cf == BMul(BSign(PLc(Last)), PLc(rest))
         d  == Len(rest) - Len(Last)
     IN rest' = PNorm(PSub(PScale(cg, rest), PScale(cf, PShift(Last, d))))
  /\ UNCHANGED <<p, q, seq, pc>>

Push ==
  /\ pc = "divide" /\ Len(rest) < Len(Last) /\ rest # << >>
  /\ seq' = Append(seq, PNeg(rest)) /\ rest' = Last
  /\ UNCHANGED <<p, q, pc>>

Finish ==
  /\ pc = "divide" /\ rest = << >>
  /\ pc' = "done" /\ UNCHANGED <<p, q, seq, rest>>

Next == Reduce \/ Push \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Drop == Variations([i \in 1 .. Len(seq) |-> SignAtNegInf(seq[i])])
        - Variations([i \in 1 .. Len(seq) |-> SignAtPosInf(seq[i])])

CauchyExact == pc = "done" => Drop = CauchyIndex(p, q)
EndsWithGcd == pc = "done" => SamePositive(Last, PGcd(p, q)) \/ SamePositive(PNeg(Last), PGcd(p, q))
RestSound   == pc = "divide" =>
                 SamePositive(PRem(PNorm(rest), Last), PRem(seq[Len(seq) - 1], Last))
Terminates  == <>(pc = "done")
TarskiExact == pc = "done" /\ Len(p) > 1 /\ q = PDeriv(p) => Drop = TarskiQuery(p, <<1>>)
=============================================================================
