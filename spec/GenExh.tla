------------------------------- MODULE GenExh --------------------------------
(* All K-tuples of polynomials of degree at most D with coefficients in     *)
(* -M..M (breadth-first, so exhaustive).                                    *)
EXTENDS Poly, Json, CSV
CONSTANTS K, D, M
VARIABLES ps, stage
Small == {<< >>} \union UNION {{p \in [1 .. n -> -M .. M] : p[n] # 0} : n \in 1 .. (D + 1)}
Init == ps \in [1 .. K -> Small] /\ stage = "ask"
Next == /\ stage = "ask" /\ stage' = "done" /\ ps' = ps
        /\ CSVWrite("%1$s", <<ToJson([ps |-> ps])>>, "stim.ndjson")
=============================================================================
