------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Exact integer arithmetic.                                               *)
(*                                                                         *)
(* In TLA+ an integer is unbounded, so each operator below is simply       *)
(* defined by the corresponding operator of module Integers.  TLC computes *)
(* with 32-bit integers; BigInt.java overrides these definitions with      *)
(* java.math.BigInteger, representing an integer outside the 32-bit range  *)
(* by its decimal string.  (Consequence: compare with BEq/BCmp/BSign, not  *)
(* with = and <, whenever a value may be large.)                           *)
(***************************************************************************)
EXTENDS Integers

BAdd(a, b) == a + b
BSub(a, b) == a - b
BMul(a, b) == a * b
BNeg(a)    == 0 - a
BAbs(a)    == IF a < 0 THEN 0 - a ELSE a
BSign(a)   == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
BCmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
BEq(a, b)  == a = b
\* exact quotient; b divides a
BQuo(a, b) == CHOOSE q \in Int : q * b = a
\* greatest common divisor, non-negative; BGcd(0, 0) = 0
BGcd(a, b) == IF a = 0 /\ b = 0 THEN 0
              ELSE CHOOSE g \in 1 .. (BAbs(a) + BAbs(b)) :
                     /\ a % g = 0 /\ b % g = 0
                     /\ \A h \in 1 .. (BAbs(a) + BAbs(b)) :
                          (a % h = 0 /\ b % h = 0) => h <= g
BPow(a, n) == a ^ n
\* smallest power of two that is >= |a|
BPow2Ceil(a) == CHOOSE p \in {2 ^ k : k \in 0 .. 1000} :
                   /\ p >= BAbs(a) /\ (p = 1 \/ p < 2 * BAbs(a))



=============================================================================
