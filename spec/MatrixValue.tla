----------------------------- MODULE MatrixValue -----------------------------
(***************************************************************************)
(* The values: the matrix of signs of n polynomials is the n-fold          *)
(* Kronecker power of the 3x3 base matrix, and the inverse is the          *)
(* Kronecker power of the base's inverse.  Inverses are kept times 2^n, so *)
(* that all entries are integers.  Rows and columns count from 0.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Base    == << <<1, 1, 1>>, <<0, 1, -1>>, <<0, 1, 1>> >>
BaseInv == << <<2, 0, -2>>, <<0, 1, 1>>, <<0, -1, 1>> >>       \* times 2
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Entry(_, _, _, _)
Entry(b, n, i, j) ==
  IF n = 0 THEN 1 ELSE Entry(b, n - 1, i \div 3, j \div 3) * b[(i % 3) + 1][(j % 3) + 1]
\* rows as sequences
Kron(b, n) == TLCEval([i \in 1 .. Pow(3, n) |-> [j \in 1 .. Pow(3, n) |-> Entry(b, n, i - 1, j - 1)]])
Value(kind, n) == Kron(IF kind = "mat" THEN Base ELSE BaseInv, n)

RECURSIVE Dot(_, _, _, _, _)
Dot(a, c, i, j, k) == IF k = 0 THEN 0 ELSE a[i][k] * c[k][j] + Dot(a, c, i, j, k - 1)
\* the defining law: matrix times inverse is 2^n times the unit matrix
InverseLaw(n) ==
  LET a == Value("mat", n)
      c == Value("inv", n)
      m == Pow(3, n)
  IN \A i \in 1 .. m : \A j \in 1 .. m : Dot(a, c, i, j, m) = (IF i = j THEN Pow(2, n) ELSE 0)
\* the Kronecker power is the repeated Kronecker product, from either side
KronLaw(n) ==
  \A b \in {Base, BaseInv} :
  LET a == Kron(b, n)
      s == Kron(b, n - 1)
      h == Pow(3, n - 1)
  IN \A i, j \in 1 .. (3 * h) :
       /\ a[i][j] = s[(i - 1) \div 3 + 1][(j - 1) \div 3 + 1] * b[((i - 1) % 3) + 1][((j - 1) % 3) + 1]
       /\ a[i][j] = b[(i - 1) \div h + 1][(j - 1) \div h + 1] * s[((i - 1) % h) + 1][((j - 1) % h) + 1]
(* What the matrix means: column s (a sign vector), row a (exponents):      *)
(* the entry is the product of s_i^a_i, so matrix * counts = Tarski queries *)
Sg(d) == IF d = 2 THEN -1 ELSE d
RECURSIVE Meaning(_, _, _)
Meaning(n, i, j) ==
  IF n = 0 THEN 1
  ELSE Meaning(n - 1, i \div 3, j \div 3) *
       (CASE i % 3 = 0 -> 1 [] i % 3 = 1 -> Sg(j % 3) [] i % 3 = 2 -> Sg(j % 3) * Sg(j % 3))
MeaningLaw(n) == LET a == Value("mat", n)
                 IN \A i, j \in 1 .. Pow(3, n) : a[i][j] = Meaning(n, i - 1, j - 1)

VARIABLE size
Init == size = 1
Next == size < 4 /\ size' = size + 1
Laws == KronLaw(size) /\ MeaningLaw(size) /\ (size <= 3 => InverseLaw(size))
=============================================================================
