------------------------------- MODULE TraceAlg ------------------------------
(* Recorded calls of the counting and arithmetic primitives.                *)
EXTENDS Signs, TraceBase

Val(e) == e.out.kind = "val"

JudgeTarski(e) ==
  IF ~Val(e) THEN "no-answer-" \o e.out.kind
  ELSE IF e.op = "tarski" THEN
         IF e.out.v = TarskiQuery(e.p, e.q) THEN "ok" ELSE "wrong-tarski-query"
  ELSE IF e.out.v = CauchyIndex(e.p, e.q) THEN "ok" ELSE "wrong-cauchy-index"

JudgeRem(e) ==
  IF ~Val(e) THEN "no-answer-" \o e.out.kind
  ELSE IF e.op = "rem" THEN
    LET r == e.out.v
    IN IF ~NoPadding(r) THEN "remainder-padded"
       ELSE IF Len(r) >= Len(e.q) THEN "remainder-degree"
       ELSE IF SamePositive(r, PRem(e.p, e.q)) THEN "ok"
       ELSE IF SamePositive(PNeg(r), PRem(e.p, e.q)) THEN "remainder-sign-flipped"
       ELSE "not-the-remainder"
  ELSE
    LET s == e.out.v
        n == Len(s)
    IN IF n < 2 THEN "sequence-too-short"
       ELSE IF ~(PEqual(s[1], e.p) /\ PEqual(s[2], e.q)) THEN "sequence-start"
       ELSE IF \E i \in 3 .. n : PIsZero(s[i]) THEN "sequence-zero-member"
       ELSE IF \E i \in 3 .. n : ~SamePositive(s[i], PNeg(PRem(PNorm(s[i - 2]), PNorm(s[i - 1]))))
            THEN "sequence-step"
       ELSE IF PRem(PNorm(s[n - 1]), PNorm(s[n])) # << >> THEN "sequence-stops-early"
       ELSE "ok"

(***************************************************************************)
(* Root descriptions.  e.p: the polynomial; e.nroots: the number of roots  *)
(* handed over; e.out.v[i]: [root |-> position among the roots in          *)
(* increasing order, ds |-> recorded polynomials, ss |-> recorded signs].  *)
(***************************************************************************)
JudgeDesc(e) ==
  IF ~Val(e) THEN "no-answer-" \o e.out.kind
  ELSE
  LET v  == e.out.v
      n  == TLCEval(NumRoots(e.p))
      bad(d) == \* d: one description
        LET sg == TLCEval([j \in 1 .. Len(d.ds) |-> SignsAtRoots(e.p, d.ds[j])])
            meets(k) == \A j \in 1 .. Len(d.ds) : sg[j][k] = d.ss[j]
        IN IF d.root < 1 \/ d.root > n THEN "not-a-root"
           ELSE IF \E j \in 1 .. Len(d.ds) : ~IsDerivativeOf(d.ds[j], e.p) THEN "not-a-derivative"
           ELSE IF ~meets(d.root) THEN "recorded-sign-wrong"
           ELSE IF \E k \in 1 .. n : k # d.root /\ meets(k) THEN "two-roots-share-a-description"
           ELSE "ok"
  IN IF e.nroots # n THEN "root-count"
     ELSE IF Len(v) # n THEN "number-of-descriptions"
     ELSE IF {v[i].root : i \in 1 .. Len(v)} # 1 .. n THEN "a-root-is-missing-or-repeated"
     ELSE IF \E i \in 1 .. Len(v) : bad(v[i]) # "ok"
          THEN bad(v[CHOOSE i \in 1 .. Len(v) : bad(v[i]) # "ok"])
     ELSE "ok"

(***************************************************************************)
(* Signs at a described root: e.out.v = sequence over roots of             *)
(* [root, at, right]                                                       *)
(***************************************************************************)
JudgeAt(e) ==
  IF ~Val(e) THEN "no-answer-" \o e.out.kind
  ELSE
  LET t  == SignTable(<<e.p, e.q>>)
      rc == RootColsOf(t)
      v  == e.out.v
      bad(d) == IF d.root < 1 \/ d.root > Len(rc) THEN "not-a-root"
                ELSE IF d.at # t[rc[d.root]][2] THEN "wrong-sign-at-root"
                ELSE IF d.right # t[rc[d.root] + 1][2] THEN "wrong-sign-right-of-root"
                ELSE "ok"
  IN IF Len(v) # Len(rc) THEN "number-of-roots"
     ELSE IF \E i \in 1 .. Len(v) : bad(v[i]) # "ok"
          THEN bad(v[CHOOSE i \in 1 .. Len(v) : bad(v[i]) # "ok"])
     ELSE "ok"

(***************************************************************************)
(* Coefficient-list arithmetic                                             *)
(***************************************************************************)
RECURSIVE ProductList(_)
ProductList(ps) ==
  IF ps = << >> THEN << <<1>> >>
  ELSE LET rest == ProductList(Tail(ps))
           h1   == Head(ps)
           h2   == PMul(h1, h1)
       IN rest \o [i \in 1 .. Len(rest) |-> PMul(rest[i], h1)]
               \o [i \in 1 .. Len(rest) |-> PMul(rest[i], h2)]

\* value of p at r = num/den as a normalised pair
ValueAt(p, r) ==
  LET d == IF p = << >> THEN 1 ELSE BPow(r[2], PDeg(p))
      n == PNumAt(p, r)
      g == BGcd(n, d)
  IN <<BQuo(n, g), BQuo(d, g)>>

JudgeArith(e) ==
  IF ~Val(e) THEN "no-answer-" \o e.out.kind
  ELSE IF ~e.intact THEN "argument-changed"
  ELSE CASE e.op = "mul" -> IF PEqual(e.out.v, PMul(e.p, e.q)) THEN "ok" ELSE "wrong-product"
         [] e.op = "der" -> IF PEqual(e.out.v, PDeriv(e.p)) THEN "ok" ELSE "wrong-derivative"
         [] e.op = "eval" -> LET w == ValueAt(e.p, e.r)
                             IN IF BEq(w[1], e.out.v[1]) /\ BEq(w[2], e.out.v[2]) THEN "ok" ELSE "wrong-value"
         [] e.op = "evalroot" ->   \* sign of q at each real root of p
              LET t == SignTable(<<e.p, e.q>>)
                  rc == RootColsOf(t)
              IN IF Len(rc) = Len(e.out.v) /\ \A i \in 1 .. Len(rc) : t[rc[i]][2] = e.out.v[i]
                 THEN "ok" ELSE "wrong-value-at-root"
         [] e.op = "plist" -> LET w == ProductList(e.ps)
                              IN IF Len(w) # Len(e.out.v) THEN "wrong-number-of-products"
                                 ELSE IF \A i \in 1 .. Len(w) : PEqual(w[i], e.out.v[i]) THEN "ok"
                                 ELSE "wrong-product-or-order"
=============================================================================
