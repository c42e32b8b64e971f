-------------------------------- MODULE Sectors ------------------------------
(***************************************************************************)
(* Sample points from isolating intervals (QE_Factory.iso_root_intvls,     *)
(* sector_sps).  Positions are 0 .. N; rational roots are even positions   *)
(* that are known exactly, irrational ones odd positions.  The roots of    *)
(* the product are isolated by pairwise disjoint open intervals with ends  *)
(* at even positions that are no roots; an interval containing a rational  *)
(* root shrinks to it.  Sampling takes a point of every gap between        *)
(* neighbouring intervals, one on each side, and one of every interval.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS N
VARIABLES roots, ivs, samples, pc
Pos == 0 .. N
Even(p) == p % 2 = 0
Inner(l, u) == {p \in Pos : l < p /\ p < u}
\* isolations of the roots: one open interval each, ends even and no roots
Cover(R, I) == /\ \A i \in I : i[1] < i[2] /\ Cardinality(Inner(i[1], i[2]) \intersect R) = 1
               /\ \A i, j \in I : i # j => i[2] <= j[1] \/ j[2] <= i[1]
               /\ Cardinality(I) = Cardinality(R)
Ends(R) == {p \in Pos : Even(p) /\ p \notin R}
Shrink(i, R) == LET r == CHOOSE r \in Inner(i[1], i[2]) \intersect R : TRUE
                IN IF Even(r) THEN <<r, r>> ELSE i
Init == /\ roots \in {R \in SUBSET (1 .. (N - 1)) : Cardinality(R) <= 3}
        /\ ivs = {} /\ samples = {} /\ pc = "isolate"
RECURSIVE Seqd(_)
Seqd(I) == IF I = {} THEN << >>
           ELSE LET i == CHOOSE i \in I : \A j \in I : i[1] <= j[1] IN <<i>> \o Seqd(I \ {i})
Choices(S) == {T \in SUBSET UNION S : \A X \in S : T \intersect X # {} /\ Cardinality(T) <= Cardinality(S)}
Isolate == /\ pc = "isolate"
           /\ \E I \in SUBSET {i \in Ends(roots) \X Ends(roots) : i[1] < i[2] /\ i[2] - i[1] <= 6} :
                Cover(roots, I) /\ ivs' = {Shrink(i, roots) : i \in I}
           /\ pc' = "sample" /\ UNCHANGED <<roots, samples>>
Sample == /\ pc = "sample" /\ pc' = "done" /\ UNCHANGED <<roots, ivs>>
          /\ LET s == Seqd(ivs)
                 k == Len(s)
                 gap(i) == LET l == s[i][2] u == s[i + 1][1] IN IF l = u THEN {l} ELSE {p \in Pos : l <= p /\ p <= u} \ roots
             IN IF k = 0 THEN samples' = {0}
                ELSE \E f \in [1 .. (k - 1) -> Pos] :
                       /\ \A i \in 1 .. (k - 1) : f[i] \in gap(i)
                       /\ samples' = {s[1][1] - 1, s[k][2] + 1} \union {f[i] : i \in 1 .. (k - 1)}
Next == Isolate \/ Sample
Spec == Init /\ [][Next]_<<roots, ivs, samples, pc>>
\* every sector between neighbouring roots, and outside them, has a sample
Between(a, b) == \E p \in samples : a < p /\ p < b
EverySector == pc = "done" =>
  LET B == roots \union {-2, N + 2}
  IN \A a, b \in B : (a < b /\ ~\E c \in B : a < c /\ c < b) => Between(a, b)
=============================================================================
