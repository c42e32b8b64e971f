------------------------------- MODULE GenGRF --------------------------------
(***************************************************************************)
(* Problems for the relevance filter: relations, goals built up hypothesis *)
(* by hypothesis, sequents with typed answers, sets of polynomials to      *)
(* sample, points and bad subsets, searches, texts and problem files.            *)
(* Polynomials stay small: products of linear factors, circles, parabolas, *)
(* hyperbolas, cubics with rational and irrational roots, and combinations.*)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV
CONSTANTS Kind, NV, MaxHyps
VARIABLES item, stage
\* depends on the state, or else TLC would draw only once
RE(S) == IF stage = "never" THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
RInt(lo, hi) == RE(lo .. hi)
OpsAll == <<"gt", "ge", "lt", "le", "eq", "ne">>
OpsStrict == <<"gt", "lt", "gt", "lt", "ge", "le">>
E(i) == <<1, IF i = 1 THEN 1 ELSE 0, IF i = 2 THEN 1 ELSE 0, IF i = 3 THEN 1 ELSE 0>>
V(z) == RInt(1, NV)
Mul1(m, n) == <<m[1] * n[1], m[2] + n[2], m[3] + n[3], m[4] + n[4]>>
RECURSIVE ScaleM(_, _)
ScaleM(m, p) == IF p = << >> THEN << >> ELSE <<Mul1(m, Head(p))>> \o ScaleM(m, Tail(p))
RECURSIVE Mul(_, _)
Mul(p, q) == IF p = << >> THEN << >> ELSE ScaleM(Head(p), q) \o Mul(Tail(p), q)
K(c) == IF c = 0 THEN << >> ELSE << <<c, 0, 0, 0>> >>
Var(i) == <<E(i)>>
\* a (x_i) - b
Lin1(i, a, b) == <<ScaleM(<<a, 0, 0, 0>>, Var(i))[1]>> \o K(-b)
Sq(i, k) == Mul(Var(i), Var(i)) \o K(-k)
RECURSIVE Factors(_, _)
Factors(i, n) == IF n = 0 THEN K(1) ELSE Mul(Lin1(i, RE({1, 1, 1, 2, -1}), RInt(-4, 4)), Factors(i, n - 1))
LinAll(z) == <<ScaleM(<<RE({-2, -1, 1, 2}), 0, 0, 0>>, Var(1))[1], ScaleM(<<RE({-1, 1, 3}), 0, 0, 0>>, Var(IF NV > 1 THEN 2 ELSE 1))[1]>>
             \o (IF NV > 2 /\ RInt(1, 2) = 1 THEN ScaleM(<<RE({-1, 1}), 0, 0, 0>>, Var(3)) ELSE << >>) \o K(RInt(-3, 3))
Simple(z) == Lin1(V(z), RE({1, 1, 1, -1, 2}), RInt(-3, 3))
\* two roots close to each other
Near(i) == LET w == RE({10, 60, 1100, 2000, 20000})
               a == IF w > 2000 THEN 0 ELSE RInt(-2, 2)
           IN IF RInt(1, 2) = 1 THEN Mul(Lin1(i, w, a * w), Lin1(i, w, a * w + RE({-1, 1})))
              ELSE Mul(ScaleM(<<w, 0, 0, 0>>, Sq(i, 2)), Lin1(i, 1, 0)) \o Lin1(i, RE({-1, 1}), 0)
Pol1(z) ==
  LET k == RInt(1, 10) i == 1
  IN IF k = 9 THEN Near(i) ELSE IF k = 10 THEN Mul(Near(i), Lin1(i, RE({1, -1}), RInt(-3, 3)))
     ELSE IF k = 1 THEN Factors(i, 2) ELSE IF k = 2 THEN Factors(i, 3)
     ELSE IF k = 3 THEN Sq(i, RE({2, 3, 5, 1, -1, 0, 7}))
     ELSE IF k = 4 THEN Mul(Sq(i, RE({2, 3, 5})), Lin1(i, 1, RInt(-3, 3)))
     ELSE IF k = 5 THEN Mul(Sq(i, 2), Sq(i, RE({3, 5, 2})))
     ELSE IF k = 6 THEN << <<RE({-2, -1, 1, 3}), RInt(1, 3), 0, 0>> >>
     ELSE IF k = 7 THEN K(RInt(-2, 2))
     ELSE << <<1, 3, 0, 0>> >> \o << <<RInt(-3, 3), 1, 0, 0>> >> \o K(RInt(-3, 3))
Pol2(z) ==
  LET k == RInt(1, 9)
      i == V(z)
      j == CHOOSE j \in 1 .. NV : j # i
  IN IF k = 1 THEN Mul(Var(i), Var(i)) \o Mul(Var(j), Var(j)) \o K(-RE({1, 2, 4, 5}))
     ELSE IF k = 2 THEN Mul(Var(i), Var(j)) \o K(-RInt(-2, 2))
     ELSE IF k = 3 THEN Var(j) \o ScaleM(<<-1, 0, 0, 0>>, Sq(i, RInt(-2, 2)))
     ELSE IF k = 4 THEN LinAll(z)
     ELSE IF k = 5 THEN Mul(Lin1(i, 1, RInt(-2, 2)), Lin1(j, 1, RInt(-2, 2)))
     ELSE IF k = 6 THEN Factors(i, 2)
     ELSE IF k = 7 THEN Sq(i, RE({2, 3, 1}))
     ELSE IF k = 8 THEN Mul(Var(i), LinAll(z))
     ELSE Var(i) \o ScaleM(<<-1, 0, 0, 0>>, Var(j)) \o K(RInt(-1, 1))
Pol(z) == IF RInt(1, 3) = 1 THEN Simple(z) ELSE IF NV = 1 THEN Pol1(z) ELSE Pol2(z)
\* l op r with l - r the given polynomial
Rel(p, op) ==
  LET k == RInt(1, 4)
      r == IF k <= 2 THEN << >> ELSE IF k = 3 THEN K(RInt(-3, 3)) ELSE Var(V(p))
  IN [l |-> p \o r, op |-> op, r |-> r]
AnyRel(z) == Rel(Pol(z), OpsAll[RInt(1, 6)])
\* mostly inequalities, so that counterexamples form open sets
HypRel(z) == Rel(IF RInt(1, 2) = 1 THEN Simple(z) ELSE Pol(z), IF RInt(1, 7) = 1 THEN "eq" ELSE OpsStrict[RInt(1, 6)])
Rat(z) == <<RInt(-9, 9), RE({1, 1, 1, 2, 3})>>
FullPt(z) == [i \in 1 .. NV |-> <<i - 1>> \o Rat(i)]
IntPt(z) == [i \in 1 .. NV |-> <<i - 1, RInt(-3, 3), 1>>]
PartPt(z) == SelectSeq(IntPt(z), LAMBDA p : RInt(1, 3) # 1)
RECURSIVE Many(_, _)
Many(F(_), n) == IF n = 0 THEN << >> ELSE <<F(n)>> \o Many(F, n - 1)
Seqs(lo, hi, F(_)) == TLCEval(Many(F, RInt(lo, hi)))

-----------------------------------------------------------------------------
Atom(z) == [k |-> "atom", nv |-> NV, a |-> AnyRel(z), pts |-> Many(FullPt, 2) \o Many(IntPt, 6) \o Many(PartPt, 3),
            steps |-> <<1, 0, 1>> \o Seqs(0, 4, LAMBDA x : RInt(0, 1))]
\* equations and inequalities over few monomials, so that reduction bites
EqRel(z) == Rel(IF RInt(1, 3) = 1 THEN Pol(z) ELSE IF RInt(1, 2) = 1 THEN Simple(z) ELSE LinAll(z), "eq")
GoalHyp(z) == IF RInt(1, 2) = 1 THEN EqRel(z) ELSE AnyRel(z)
\* all points with small integer coordinates
G3(n, lo, w) == [i \in 1 .. n |-> LET d(k) == ((i - 1) \div k) % w IN
                  IF NV = 1 THEN << <<0, lo + d(1), 1>> >>
                  ELSE IF NV = 2 THEN << <<0, lo + d(1), 1>>, <<1, lo + d(w), 1>> >>
                  ELSE << <<0, lo + d(1), 1>>, <<1, lo + d(w), 1>>, <<2, lo + d(w * w), 1>> >>]
Grid == IF NV = 1 THEN G3(9, -4, 9) ELSE IF NV = 2 THEN G3(49, -3, 7) ELSE G3(27, -1, 3)
Goal(z) == [k |-> "goal", nv |-> NV, main |-> AnyRel(z), adds |-> Seqs(1, 4, GoalHyp), gb |-> RE({0, 1, 1}),
            pts |-> Grid \o Many(IntPt, 3) \o (IF NV > 1 THEN Many(PartPt, 6) ELSE << >>)]
Cmd(z) == LET k == RInt(1, 9) IN IF k = 1 THEN "s" ELSE IF k = 2 THEN "b" ELSE IF k = 3 THEN "p"
          ELSE IF k = 4 THEN RE({"99", ToString(MaxHyps), "-1", "-2", "-3"})
          ELSE IF k = 5 THEN RE({"what", "", "1.0", "0x1", "S", "P"}) ELSE ToString(RInt(0, MaxHyps - 1))
Script(z) == IF RInt(1, 3) = 1 THEN Seqs(1, 6, Cmd) ELSE << >>
\* a goal implied by some of the hypotheses, or any goal
Implied(hs) == LET h == hs[RInt(1, Len(hs))]
               IN [h EXCEPT !.l = @ \o K(IF h.op \in {"gt", "ge"} THEN RInt(0, 2) ELSE IF h.op \in {"lt", "le"} THEN -RInt(0, 2) ELSE 0)]
Check(z) == LET hs == TLCEval(Seqs(0, MaxHyps, HypRel))
                g  == TLCEval(IF hs # << >> /\ RInt(1, 3) # 1 THEN Implied(hs) ELSE HypRel(z))
            IN [k |-> "check", nv |-> NV, hyps |-> hs, goal |-> g, partial |-> RE({1, 1, 0}),
                seed |-> RInt(1, 1000), script |-> Script(z)]
Sample(z) == [k |-> "sample", nv |-> NV, polys |-> Seqs(1, 3, Pol), num |-> RInt(1, 2), seed |-> RInt(1, 1000)]
\* some hypotheses have been moved into the goal before
Bads(z) == [k |-> "bads", nv |-> NV, ghyps |-> IF RInt(1, 2) = 1 THEN << >> ELSE Seqs(1, 2, HypRel),
            hyps |-> Seqs(0, MaxHyps, HypRel), goal |-> HypRel(z), pts |-> Many(IntPt, RInt(1, 5))]
SubsetOf(n) == SelectSeq([i \in 1 .. n |-> i], LAMBDA i : RInt(1, 3) # 1)
Hit(z) == LET hs == TLCEval(Seqs(1, MaxHyps, AnyRel))
              bs == TLCEval(Seqs(1, 4, LAMBDA x : SubsetOf(Len(hs))))
          IN [k |-> "hit", nv |-> NV, hyps |-> hs, goal |-> AnyRel(z),
              bads |-> SelectSeq(bs, LAMBDA b : Len(b) < Len(hs))]

-----------------------------------------------------------------------------
(* Texts                                                                     *)
Names == <<"x", "skoXC1", "v_3">>
NameSets == <<Names, <<"b", "A", "ox_6">>, <<"t-1", "u.v", "w:2">>, <<"E", "e1", "nan">>>>
Numerals == << <<"0.", 0, 1>>, <<"1.", 1, 1>>, <<"2.0", 2, 1>>, <<"3.", 3, 1>>, <<"2.5", 5, 2>>, <<"0.25", 1, 4>>, <<"10.", 10, 1>>,
               <<"~1.", -1, 1>>, <<"~2.0", -2, 1>>, <<"~1.5", -3, 2>>, <<"007.50", 15, 2>>, <<"~ 3.", -3, 1>> >>
NumT(z) == LET m == Numerals[RInt(1, Len(Numerals))] IN [t |-> "num", s |-> m[1], n |-> m[2], d |-> m[3]]
NzNum(z) == LET m == Numerals[RInt(2, Len(Numerals))] IN [t |-> "num", s |-> m[1], n |-> m[2], d |-> m[3]]
RECURSIVE Tree(_, _)
Tree(d, z) ==
  LET k == RInt(1, 11)
  IN IF d = 0 \/ k <= 2 THEN IF RInt(1, 3) = 1 THEN NumT(z) ELSE [t |-> "var", i |-> V(z)]
     ELSE IF k <= 5 THEN [t |-> "add", a |-> Tree(d - 1, 1), b |-> Tree(d - 1, 2)]
     ELSE IF k <= 7 THEN [t |-> "sub", a |-> Tree(d - 1, 1), b |-> Tree(d - 1, 2)]
     ELSE IF k <= 9 THEN [t |-> "mul", a |-> Tree(d - 1, 1), b |-> Tree(d - 1, 2)]
     ELSE IF k = 10 THEN [t |-> "neg", a |-> Tree(d - 1, 1)]
     ELSE [t |-> "div", a |-> Tree(d - 1, 1), b |-> NzNum(z)]
Sp(z) == RE({" ", " ", " ", "  ", "\n", " \t"})
O(z) == RE({"", "", "", " "})
RECURSIVE Text(_, _)
Text(t, nm) ==
  CASE t.t = "num" -> t.s
    [] t.t = "var" -> nm[t.i]
    [] t.t = "neg" -> "(" \o O(1) \o "-" \o Sp(1) \o Text(t.a, nm) \o O(2) \o ")"
    [] t.t = "add" -> "(" \o "+" \o Sp(1) \o Text(t.a, nm) \o Sp(2) \o Text(t.b, nm) \o O(1) \o ")"
    [] t.t = "sub" -> "(" \o "-" \o Sp(1) \o Text(t.a, nm) \o Sp(2) \o Text(t.b, nm) \o O(1) \o ")"
    [] t.t = "mul" -> "(" \o O(1) \o "*" \o Sp(1) \o Text(t.a, nm) \o Sp(2) \o Text(t.b, nm) \o ")"
    [] t.t = "div" -> "(" \o "/" \o Sp(1) \o Text(t.a, nm) \o Sp(2) \o Text(t.b, nm) \o ")"
Sym(op) == CASE op = "gt" -> ">" [] op = "ge" -> ">=" [] op = "lt" -> "<" [] op = "le" -> "<=" [] op = "eq" -> "=" [] op = "ne" -> "!="
RelText(x, nm) == "(" \o O(1) \o Sym(x.op) \o Sp(1) \o Text(x.a, nm) \o Sp(2) \o Text(x.b, nm) \o O(2) \o ")"
RECURSIVE RelsText(_, _)
RelsText(xs, nm) == IF xs = << >> THEN "" ELSE RelText(Head(xs), nm) \o Sp(1) \o RelsText(Tail(xs), nm)
TreeRel(d) == [op |-> OpsAll[RInt(1, 6)], a |-> Tree(d, 1), b |-> Tree(d, 2)]
Fmls(z) == LET nm == NameSets[RInt(1, Len(NameSets))]
               rs == TLCEval(Seqs(1, 3, LAMBDA x : Seqs(0, 3, LAMBDA y : TreeRel(RInt(0, 4)))))
           IN [k |-> "fmls", names |-> nm, rels |-> rs, texts |-> TLCEval([i \in 1 .. Len(rs) |-> RelsText(rs[i], nm)])]

\* sequents: relations as trees of the polynomials above
MonoTree(m) ==
  LET vs == [i \in 1 .. (m[2] + m[3] + m[4]) |-> [t |-> "var", i |-> IF i <= m[2] THEN 1 ELSE IF i <= m[2] + m[3] THEN 2 ELSE 3]]
      c  == [t |-> "num", s |-> (IF m[1] < 0 THEN "~" \o ToString(-m[1]) ELSE ToString(m[1])) \o RE({".", ".0"}), n |-> m[1], d |-> 1]
      RECURSIVE prod(_, _)
      prod(i, acc) == IF i > Len(vs) THEN acc ELSE prod(i + 1, [t |-> "mul", a |-> acc, b |-> vs[i]])
  IN IF vs = << >> THEN c ELSE IF m[1] = 1 THEN prod(2, vs[1]) ELSE prod(1, c)
RECURSIVE SumTree(_)
SumTree(p) == IF p = << >> THEN [t |-> "num", s |-> "0.", n |-> 0, d |-> 1]
              ELSE IF Len(p) = 1 THEN MonoTree(p[1])
              ELSE [t |-> "add", a |-> MonoTree(Head(p)), b |-> SumTree(Tail(p))]
AsTree(a) == TLCEval([op |-> a.op, a |-> SumTree(a.l), b |-> SumTree(a.r)])
Negated(op) == CASE op = "gt" -> "le" [] op = "le" -> "gt" [] op = "lt" -> "ge" [] op = "ge" -> "lt" [] op = "eq" -> "ne" [] op = "ne" -> "eq"
OneSequent(z, nm) ==
  LET h1 == TLCEval(Seqs(1, MaxHyps, HypRel))
      hs == TLCEval(IF RInt(1, 3) = 1 THEN <<h1[RInt(1, Len(h1))]>> \o h1 ELSE h1)     \* one stated twice
      n  == Len(hs)
      m  == TLCEval(RInt(0, IF n > 1 THEN 2 ELSE 1))       \* how many of them become succedents
      m2 == IF m > n THEN n ELSE m
      ante == SubSeq(hs, 1, n - m2)
      others == TLCEval([i \in 1 .. m2 |-> [hs[n - m2 + i] EXCEPT !.op = IF RInt(1, 4) = 1 THEN RE({"eq", "ne"}) ELSE Negated(@)]])
      g  == TLCEval(IF RInt(1, 4) # 1 THEN Implied(hs) ELSE HypRel(z))
      succ == others \o <<g>>
      at == TLCEval([i \in 1 .. Len(ante) |-> AsTree(ante[i])])
      st == TLCEval([i \in 1 .. Len(succ) |-> AsTree(succ[i])])
      name == RE({"A", "seq one", "x > 0", ""}) \o ToString(RInt(1, 99))
  IN [name |-> name, ante |-> at, succ |-> st,
      text |-> "(sequent \"" \o name \o "\"" \o Sp(1) \o "(antecedent " \o RelsText(at, nm) \o ")" \o Sp(2) \o
               "(succedent " \o RelsText(st, nm) \o "))" \o O(1)]
Smt(z) == LET nm == NameSets[RInt(1, Len(NameSets))]
          IN [k |-> "smt", nv |-> NV, names |-> nm, seed |-> RInt(1, 1000), sequents |-> Seqs(1, 2, LAMBDA x : OneSequent(x, nm))]

RECURSIVE AllText(_)
AllText(qs) == IF qs = << >> THEN "" ELSE Head(qs).text \o "\n" \o AllText(Tail(qs))
File(z) == LET nm == NameSets[RInt(1, Len(NameSets))]
               qs == TLCEval(Seqs(1, 2, LAMBDA x : OneSequent(x, nm)))
           IN [k |-> "file", nv |-> NV, names |-> nm, seed |-> RInt(1, 1000), sequents |-> qs, text |-> AllText(qs)]

\* neighbourhood searches, one after the other in one process; the numerical
\* solver's answers are scripted, and it probes what it is given at points
QuarterPt(n) == [i \in 1 .. n |-> <<i - 1, RInt(-14, 14), 4>>]
IntAt(n) == [i \in 1 .. n |-> <<i - 1, RInt(-4, 4), 1>>]
Search1(z) == LET n == TLCEval(IF NV < 3 THEN RInt(NV, NV + 1) ELSE 3)
              IN [nv |-> n, ghyps |-> IF RInt(1, 2) = 1 THEN << >> ELSE Seqs(1, 2, HypRel),
                  hyps |-> IF RInt(1, 9) = 1 THEN << >> ELSE Seqs(1, MaxHyps, HypRel),
                  goal |-> IF RInt(1, 4) = 1 THEN AnyRel(z) ELSE HypRel(z),
                  pt |-> [i \in 1 .. n |-> <<i - 1>> \o Rat(i)],
                  answers |-> Many(LAMBDA x : QuarterPt(n), RInt(1, 4)), probes |-> Many(LAMBDA x : IntAt(n), 4)]
Search(z) == [k |-> "search", seed |-> RInt(1, 1000), problems |-> Seqs(1, 3, Search1)]

Make(z) == CASE Kind = "atom" -> Atom(z) [] Kind = "goal" -> Goal(z) [] Kind = "check" -> Check(z) [] Kind = "sample" -> Sample(z)
             [] Kind = "bads" -> Bads(z) [] Kind = "hit" -> Hit(z) [] Kind = "fmls" -> Fmls(z) [] Kind = "smt" -> Smt(z)
             [] Kind = "file" -> File(z) [] Kind = "search" -> Search(z)
Init == item = 0 /\ stage = "draw"
Draw == stage = "draw" /\ stage' = "write" /\ item' = TLCEval(Make(0))
Write == stage = "write" /\ stage' = "done" /\ UNCHANGED item
         /\ CSVWrite("%1$s", <<ToJson(item)>>, "stim.ndjson")
Next == Draw \/ Write
=============================================================================
