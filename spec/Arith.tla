-------------------------------- MODULE Arith --------------------------------
(***************************************************************************)
(* Multiplication of coefficient lists as the implementation does it: for  *)
(* each power, the products of coefficients whose powers add up to it.     *)
(* Checked against the meaning of a product: evaluation is a homomorphism. *)
(***************************************************************************)
EXTENDS Signs
CONSTANTS D, M
Small == {<< >>} \union UNION {{p \in [1 .. n -> -M .. M] : p[n] # 0} : n \in 1 .. (D + 1)}
VARIABLES p, q, power, ret
vars == <<p, q, power, ret>>
Init == p \in Small /\ q \in Small /\ power = 0 /\ ret = << >>
RECURSIVE Conv(_, _)
Conv(k, i) == IF i >= Len(p) THEN 0
              ELSE (IF k - i >= 0 /\ k - i < Len(q) THEN p[i + 1] * q[k - i + 1] ELSE 0) + Conv(k, i + 1)
Next == /\ power < Len(p) + Len(q) - 1
        /\ ret' = Append(ret, Conv(power, 0)) /\ power' = power + 1
        /\ UNCHANGED <<p, q>>
Points == {<<0, 1>>, <<1, 1>>, <<-2, 1>>, <<1, 2>>, <<-5, 3>>, <<7, 2>>}
RECURSIVE PDen(_, _)
PDen(r, k) == IF k = 0 THEN 1 ELSE r[2] * PDen(r, k - 1)
Done == power >= Len(p) + Len(q) - 1 =>
          /\ PEqual(ret, PMul(p, q))
          /\ \A r \in Points :
               \* p(r) q(r) = (pq)(r), over a common denominator
               (p # << >> /\ q # << >>) => PNumAt(p, r) * PNumAt(q, r) = PNumAt(PNorm(ret), r)
          /\ PEqual(PDeriv(PNorm(ret)), PAdd(PMul(PDeriv(p), q), PMul(p, PDeriv(q))))
=============================================================================
