-------------------------------- MODULE Expr ---------------------------------
(***************************************************************************)
(* Terms, relations and sequents as trees, with their meaning.             *)
(*                                                                         *)
(*   term:     [t |-> "num", n, d]  (the rational n/d, d > 0)              *)
(*             [t |-> "real", n, d, s] (written with a decimal point as s) *)
(*             [t |-> "var", v]                                            *)
(*             [t |-> "add"|"sub"|"mul"|"div", a, b], [t |-> "neg", a]     *)
(*             [t |-> "pow", a, k]                                         *)
(*   relation: [r |-> "le"|"lt"|"eq"|"ne"|"ge"|"gt", a, b]                 *)
(*                                                                         *)
(* Two meanings of a term: its value at an assignment of rationals to the  *)
(* variables (Undefined if it divides by zero), and, when it divides by    *)
(* non-zero constants only, the polynomial it denotes once all variables   *)
(* are one, as [n |-> integer polynomial, d |-> positive integer].         *)
(***************************************************************************)
EXTENDS PolyGen

RNorm(n, d) == LET g == BGcd(n, d)
                   s == BSign(d)
               IN IF BSign(n) = 0 THEN <<0, 1>> ELSE <<BQuo(BMul(s, n), g), BQuo(BMul(s, d), g)>>
Undefined == <<1, 0>>
Defined(r) == BSign(r[2]) # 0
RAddQ(a, b) == RNorm(BAdd(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2]))
RMulQ(a, b) == RNorm(BMul(a[1], b[1]), BMul(a[2], b[2]))
RNegQ(a) == <<BNeg(a[1]), a[2]>>
RDivQ(a, b) == IF BSign(b[1]) = 0 THEN Undefined ELSE RNorm(BMul(a[1], b[2]), BMul(a[2], b[1]))
REq(a, b) == BEq(a[1], b[1]) /\ BEq(a[2], b[2])
RCmp(a, b) == BCmp(BMul(a[1], b[2]), BMul(b[1], a[2]))
RECURSIVE RPowQ(_, _)
RPowQ(a, k) == IF k = 0 THEN <<1, 1>> ELSE RMulQ(a, RPowQ(a, k - 1))

\* env: a function (record) from variable names to rationals
RECURSIVE ValueOf(_, _)
ValueOf(e, env) ==
  CASE e.t \in {"num", "real"} -> RNorm(e.n, e.d)
    [] e.t = "var" -> env[e.v]
    [] e.t = "neg" -> LET a == ValueOf(e.a, env) IN IF Defined(a) THEN RNegQ(a) ELSE Undefined
    [] e.t = "pow" -> LET a == ValueOf(e.a, env) IN IF Defined(a) THEN RPowQ(a, e.k) ELSE Undefined
    [] OTHER ->
        LET a == ValueOf(e.a, env)
            b == ValueOf(e.b, env)
        IN IF ~Defined(a) \/ ~Defined(b) THEN Undefined
           ELSE CASE e.t = "add" -> RAddQ(a, b)
                  [] e.t = "sub" -> RAddQ(a, RNegQ(b))
                  [] e.t = "mul" -> RMulQ(a, b)
                  [] e.t = "div" -> RDivQ(a, b)

OpHolds(r, c) == CASE r = "le" -> c <= 0 [] r = "lt" -> c < 0 [] r = "eq" -> c = 0
                   [] r = "ne" -> c # 0 [] r = "ge" -> c >= 0 [] r = "gt" -> c > 0

QP(n, d) == LET g == BGcd(PContent(n), d)
            IN IF n = << >> THEN [n |-> << >>, d |-> 1]
               ELSE TLCEval([n |-> TLCEval([i \in 1 .. Len(n) |-> BQuo(n[i], g)]), d |-> BQuo(d, g)])
RECURSIVE PPowOf(_, _)
PPowOf(f, k) == IF k = 0 THEN <<1>> ELSE PMul(f, PPowOf(f, k - 1))
RECURSIVE PolyOf(_)
PolyOf(e) ==
  CASE e.t \in {"num", "real"} -> QP(PNorm(<<e.n>>), e.d)
    [] e.t = "var" -> QP(<<0, 1>>, 1)
    [] e.t = "neg" -> LET a == PolyOf(e.a) IN QP(PNeg(a.n), a.d)
    [] e.t = "pow" -> LET a == PolyOf(e.a) IN QP(PPowOf(a.n, e.k), BPow(a.d, e.k))
    [] OTHER ->
        LET a == PolyOf(e.a)
            b == PolyOf(e.b)
        IN CASE e.t = "add" -> QP(PAdd(PScale(b.d, a.n), PScale(a.d, b.n)), BMul(a.d, b.d))
             [] e.t = "sub" -> QP(PSub(PScale(b.d, a.n), PScale(a.d, b.n)), BMul(a.d, b.d))
             [] e.t = "mul" -> QP(PMul(a.n, b.n), BMul(a.d, b.d))
             [] e.t = "div" -> \* b is a constant other than zero
                  QP(PScale(BMul(BSign(b.n[1]), b.d), a.n), BMul(a.d, BAbs(b.n[1])))
\* the polynomial compared with zero by a relation, up to a positive factor
RelPoly(r) == PolyOf([t |-> "sub", a |-> r.a, b |-> r.b]).n

\* integer list of the least positive multiple clearing the denominators
ClearedPoly(e) == PolyOf(e).n

-----------------------------------------------------------------------------
(* Drawing trees                                                            *)
Num(n) == [t |-> "num", n |-> n, d |-> 1]
Frac(n, d) == [t |-> "num", n |-> n, d |-> d]
Var(v) == [t |-> "var", v |-> v]
Bin(op, a, b) == [t |-> op, a |-> a, b |-> b]

RECURSIVE HasVar(_)
HasVar(e) == CASE e.t \in {"num", "real"} -> FALSE
               [] e.t = "var" -> TRUE
               [] e.t \in {"neg", "pow"} -> HasVar(e.a)
               [] OTHER -> HasVar(e.a) \/ HasVar(e.b)

RECURSIVE Degree(_)
Degree(e) == CASE e.t \in {"num", "real"} -> 0
               [] e.t = "var" -> 1
               [] e.t = "neg" -> Degree(e.a)
               [] e.t = "pow" -> Degree(e.a) * e.k
               [] e.t = "mul" -> Degree(e.a) + Degree(e.b)
               [] e.t = "div" -> Degree(e.a)
               [] OTHER -> PMax(Degree(e.a), Degree(e.b))

RECURSIVE Vars(_)
Vars(e) == CASE e.t \in {"num", "real"} -> {}
             [] e.t = "var" -> {e.v}
             [] e.t \in {"neg", "pow"} -> Vars(e.a)
             [] OTHER -> Vars(e.a) \union Vars(e.b)
=============================================================================
