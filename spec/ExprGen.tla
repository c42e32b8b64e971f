------------------------------- MODULE ExprGen -------------------------------
(***************************************************************************)
(* Random terms, relations and sequents, and their texts in the input      *)
(* language of the parser.                                                 *)
(***************************************************************************)
EXTENDS Expr

\* one of a sequence
OneOf(s) == s[RInt(1, Len(s))]

\* a polynomial as a tree: c0 + c1 x + c2 x^2 ..., terms in either order
Mono(c, k, v) == IF k = 0 THEN Num(c)
                 ELSE IF k = 1 THEN Bin("mul", Num(c), Var(v))
                 ELSE Bin("mul", Num(c), [t |-> "pow", a |-> Var(v), k |-> k])
RECURSIVE PolyTree(_, _, _)
PolyTree(p, k, v) ==
  IF p = << >> THEN Num(0)
  ELSE IF Len(p) = 1 THEN Mono(p[1], k, v)
  ELSE IF BSign(p[1]) = 0 THEN PolyTree(Tail(p), k + 1, v)
  ELSE Bin("add", Mono(p[1], k, v), PolyTree(Tail(p), k + 1, v))

(* Terms of the text language.  fl: decimal fractions may occur; then all   *)
(* numbers are dyadic, so that binary floating point is exact.              *)
IntLit(n) == [t |-> "num", n |-> n, d |-> 1, s |-> ToString(n)]
DotLit(n) == [t |-> "num", n |-> n, d |-> 1, s |-> ToString(n) \o "."]
RealLits == << [t |-> "real", n |-> 1, d |-> 2, s |-> "0.5"], [t |-> "real", n |-> -1, d |-> 4, s |-> "-0.25"],
               [t |-> "real", n |-> 3, d |-> 2, s |-> "1.5"], [t |-> "real", n |-> 11, d |-> 4, s |-> "2.75"],
               [t |-> "real", n |-> 3, d |-> 1, s |-> "3.0"], [t |-> "real", n |-> -7, d |-> 2, s |-> "-3.50"],
               [t |-> "real", n |-> 1, d |-> 8, s |-> "0.125"], [t |-> "real", n |-> 21, d |-> 2, s |-> "10.5"] >>
BigLits == << [t |-> "num", n |-> "12345678901234567890", d |-> 1, s |-> "12345678901234567890"],
              [t |-> "num", n |-> "-100000000000", d |-> 1, s |-> "-100000000000"],
              [t |-> "num", n |-> 2016, d |-> 1, s |-> "2016."] >>
Lit(fl) == LET k == RInt(1, 10)
           IN IF k <= 5 THEN IntLit(RInt(0, 9))
              ELSE IF k <= 7 THEN IntLit(RInt(-9, -1))
              ELSE IF k <= 8 THEN DotLit(RInt(0, 9))
              ELSE IF fl THEN OneOf(RealLits) ELSE OneOf(BigLits)

RECURSIVE DrawText(_, _, _, _)
\* negs: how many unary minuses may still be nested (parsing them is costly)
DrawText(d, vs, fl, negs) ==
  IF d = 0 THEN (IF RInt(1, 5) <= 3 THEN Var(OneOf(vs)) ELSE Lit(fl))
  ELSE LET k == RInt(1, 14)
       IN IF k <= 4 THEN Bin("add", DrawText(d - 1, vs, fl, negs), DrawText(RInt(0, d - 1), vs, fl, negs))
          ELSE IF k <= 7 THEN Bin("sub", DrawText(RInt(0, d - 1), vs, fl, negs), DrawText(d - 1, vs, fl, negs))
          ELSE IF k <= 10 THEN Bin("mul", DrawText(d - 1, vs, fl, negs), DrawText(RInt(0, d - 1), vs, fl, negs))
          ELSE IF k <= 12 THEN Bin("div", DrawText(d - 1, vs, fl, negs),
                                   IF fl THEN IntLit(OneOf(<<1, 2, 4, -2, 8>>)) ELSE DrawText(RInt(0, d - 1), vs, fl, negs))
          ELSE IF negs > 0 THEN [t |-> "neg", a |-> DrawText(d - 1, vs, fl, negs - 1)]
          ELSE DrawText(0, vs, fl, negs)

\* polynomial terms only: quotients by non-zero constants
RECURSIVE DrawPolyText(_, _)
DrawPolyText(d, vs) ==
  IF d = 0 THEN (IF RInt(1, 5) <= 3 THEN Var(OneOf(vs)) ELSE IntLit(RInt(-9, 9)))
  ELSE LET k == RInt(1, 13)
       IN IF k <= 4 THEN Bin("add", DrawPolyText(d - 1, vs), DrawPolyText(RInt(0, d - 1), vs))
          ELSE IF k <= 7 THEN Bin("sub", DrawPolyText(RInt(0, d - 1), vs), DrawPolyText(d - 1, vs))
          ELSE IF k <= 10 THEN Bin("mul", DrawPolyText(d - 1, vs), DrawPolyText(RInt(0, d - 1), vs))
          ELSE IF k <= 11 THEN Bin("div", DrawPolyText(d - 1, vs), IntLit(OneOf(<<1, 2, 3, 4, -2, -7, 60>>)))
          ELSE IF k <= 12 THEN [t |-> "neg", a |-> DrawPolyText(d - 1, vs)]
          ELSE DrawPolyText(0, vs)

\* a long chain, nested to the left or to the right
RECURSIVE Chain(_, _, _)
Chain(d, vs, left) == IF d = 0 THEN Var(OneOf(vs))
                      ELSE LET op == OneOf(<<"add", "sub", "mul", "add">>)
                               leaf == IF RInt(1, 2) = 1 THEN Var(OneOf(vs)) ELSE IntLit(RInt(-3, 3))
                           IN IF left THEN Bin(op, Chain(d - 1, vs, left), leaf) ELSE Bin(op, leaf, Chain(d - 1, vs, left))

RelOps == <<"le", "lt", "eq", "ne", "ge", "gt">>

-----------------------------------------------------------------------------
(* Texts                                                                    *)
Sp(z)  == OneOf(<<" ", " ", " ", "  ", "\n", "\t", " \n  ">>)
Opt(z) == OneOf(<<"", "", "", " ", "\n ">>)
OpText(o) == CASE o = "add" -> "+" [] o = "sub" -> "-" [] o = "mul" -> "*" [] o = "div" -> "/" [] o = "neg" -> "-"
               [] o = "le" -> "<=" [] o = "lt" -> "<" [] o = "eq" -> "=" [] o = "ne" -> "!=" [] o = "ge" -> ">=" [] o = "gt" -> ">"
IsLeaf(e) == e.t \in {"num", "real", "var"}
\* space before a term: needed before a leaf
Before(e) == IF IsLeaf(e) THEN Sp(0) ELSE OneOf(<<"", " ", " ", "\n">>)
RECURSIVE TextOf(_)
TextOf(e) ==
  CASE e.t \in {"num", "real"} -> e.s
    [] e.t = "var" -> e.v
    [] e.t = "neg" -> "(" \o Opt(0) \o "-" \o Before(e.a) \o TextOf(e.a) \o Opt(0) \o ")"
    [] OTHER -> "(" \o Opt(0) \o OpText(e.t) \o Before(e.a) \o TextOf(e.a) \o Before(e.b) \o TextOf(e.b) \o Opt(0) \o ")"
RelText(r) == "(" \o Opt(0) \o OpText(r.r) \o Before(r.a) \o TextOf(r.a) \o Before(r.b) \o TextOf(r.b) \o Opt(0) \o ")"
RECURSIVE RelsText(_)
RelsText(rs) == IF rs = << >> THEN "" ELSE Opt(0) \o RelText(Head(rs)) \o RelsText(Tail(rs))
SeqText(name, ante, succ) ==
  "(" \o Opt(0) \o "sequent" \o Sp(0) \o "\"" \o name \o "\"" \o Opt(0)
  \o "(" \o Opt(0) \o "antecedent" \o Opt(0) \o RelsText(ante) \o Opt(0) \o ")" \o Opt(0)
  \o "(" \o "succedent" \o Opt(0) \o RelsText(succ) \o Opt(0) \o ")" \o Opt(0) \o ")"
=============================================================================
