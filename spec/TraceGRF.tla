------------------------------ MODULE TraceGRF -------------------------------
(* Recorded calls of the relevance filter (grf.sage, smt2.py).               *)
EXTENDS Relevance, TraceBase

\* a point given as <<variable (from 0), num, den>> triples; what is missing is 0
RECURSIVE DenOf(_, _)
DenOf(p, i) == IF i > Len(p) THEN 1 ELSE BMul(p[i][3], DenOf(p, i + 1))
ValOf(p, v, den) == LET S == {i \in 1 .. Len(p) : p[i][1] = v}
                    IN IF S = {} THEN 0
                       ELSE LET i == CHOOSE i \in S : TRUE IN BMul(p[i][2], BQuo(den, p[i][3]))
PointOf(p) == LET den == TLCEval(DenOf(p, 1)) IN TLCEval([n |-> <<ValOf(p, 0, den), ValOf(p, 1, den), ValOf(p, 2, den)>>, d |-> den])
Given(p) == {p[i][1] + 1 : i \in 1 .. Len(p)}
NonEmpty(pts) == SelectSeq(pts, LAMBDA p : p # << >>)
TF(b) == IF b THEN "T" ELSE "F"

-----------------------------------------------------------------------------
RECURSIVE Zeros(_, _)
Zeros(s, k) == IF k = 0 THEN 0 ELSE (IF s[k] = 0 THEN 1 ELSE 0) + Zeros(s, k - 1)
JudgeAtom(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE LET pts == NonEmpty(e.pts)
           d   == Diff(e.a)
           vs  == VarsIn(d)
           expect(k, p) == IF vs \subseteq Given(p)
                           THEN TF(RelHolds(IF Zeros(e.steps, k) % 2 = 1 THEN Neg(e.a.op) ELSE e.a.op, PtSign(d, PointOf(p))))
                           ELSE "N"
           bad == {k \in 1 .. Len(e.steps) : e.steps[k] = 1 /\
                     \E j \in 1 .. Len(pts) : e.out.v[k][j] # expect(k, pts[j])}
       IN IF bad = {} THEN "ok" ELSE "atom-wrong-after-" \o ToString(Zeros(e.steps, CHOOSE k \in bad : TRUE)) \o "-negations"

-----------------------------------------------------------------------------
Small == -3 .. 3
\* all completions of a partial point by small integers
Completions(p, nv) ==
  LET q == PointOf(p)
      g == Given(p)
      R(i) == IF i \in g \/ i > nv THEN {q.n[i]} ELSE {BMul(k, q.d) : k \in Small}
  IN {[n |-> <<a, b, c>>, d |-> q.d] : a \in R(1), b \in R(2), c \in R(3)}
JudgeGoal(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE LET pts == NonEmpty(e.pts)
           hs(k) == SubSeq(e.adds, 1, k - 1)
           full(p) == (1 .. e.nv) \subseteq Given(p)
           det(a, p) == VarsIn(Diff(a)) \subseteq Given(p)
           right(k, p, o) ==
             IF full(p) THEN o = TF(SequentTrue(hs(k), e.main, PointOf(p)))
             ELSE /\ o = "T" => \A c \in Completions(p, e.nv) : SequentTrue(hs(k), e.main, c)
                  /\ e.gb = 0 => o = TF(\/ det(e.main, p) /\ Holds(e.main, PointOf(p))
                                        \/ \E i \in 1 .. (k - 1) : det(e.adds[i], p) /\ ~Holds(e.adds[i], PointOf(p)))
           bad == {<<k, j>> \in (1 .. (Len(e.adds) + 1)) \X (1 .. Len(pts)) : ~right(k, pts[j], e.out.v[k][j])}
       IN IF bad = {} THEN "ok"
          ELSE LET b == CHOOSE b \in bad : TRUE
               IN "goal-wrong-after-" \o ToString(b[1] - 1) \o "-hypotheses" \o (IF full(pts[b[2]]) THEN "" ELSE "-on-a-partial-point")

-----------------------------------------------------------------------------
\* the answers typed promote hypotheses by their position among those withheld
RECURSIVE Promoted(_, _, _)
Promoted(asked, i, left) ==
  IF i > Len(asked) THEN << >>
  ELSE IF asked[i] \in {ToString(k) : k \in 0 .. (Len(left) - 1)}
       THEN LET k == 1 + CHOOSE k \in 0 .. (Len(left) - 1) : ToString(k) = asked[i]
            IN <<left[k]>> \o Promoted(asked, i + 1, SubSeq(left, 1, k - 1) \o SubSeq(left, k + 1, Len(left)))
       ELSE Promoted(asked, i + 1, left)

Range(s) == {s[i] : i \in 1 .. Len(s)}
IsPartition(n, a, b) == /\ Len(a) + Len(b) = n /\ Range(a) \union Range(b) = 1 .. n
Line1 == {[n |-> <<k, 0, 0>>, d |-> 2] : k \in -24 .. 24}
ValidEnough(hyps, goal, nv) ==
  IF nv = 1 /\ \E pt \in Line1 : ~SequentTrue(hyps, goal, pt) THEN "finished-though-false-at-a-rational-point"
  ELSE IF FalseInOpenCell(hyps, goal, nv) THEN "finished-though-false-in-an-open-cell"
  ELSE "ok"
\* a reported counterexample (at a point, unless the report cannot be read)
CexFault(hyps, goal, pt, nv) ==
  IF pt.ok THEN IF SequentTrue(hyps, goal, pt) THEN "reported-counterexample-is-none" ELSE "ok"
  ELSE IF pt.some THEN "counterexample-misses-a-variable"
  ELSE IF nv = 1 /\ ~FalseSomewhere1(hyps, goal) THEN "valid-sequent-refuted"
  ELSE "ok"
Pick(s, idx) == [i \in 1 .. Len(idx) |-> s[idx[i]]]

JudgeCheck(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE LET v == e.out.v
           n == Len(e.hyps)
           typed == Promoted(v.asked, 1, [i \in 1 .. n |-> i])
       IN IF v.end.kind = "exc" THEN "loop-raised"
          ELSE IF ~IsPartition(n, v.used, v.hidden) THEN "hypothesis-lost-or-duplicated"
          ELSE IF ~(Len(typed) <= Len(v.used) /\ SubSeq(v.used, 1, Len(typed)) = typed) THEN "other-hypothesis-promoted-than-asked"
          ELSE IF ("go" \notin Range(v.asked)) /\ e.script # << >> /\ v.used # typed THEN "promoted-without-being-asked"
          ELSE IF v.end.kind = "cex"
               THEN CexFault(e.hyps, e.goal, v.end.pt, e.nv)
          ELSE ValidEnough(Pick(e.hyps, v.used), e.goal, e.nv)

-----------------------------------------------------------------------------
JudgeSample(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE IF \E i \in 1 .. Len(e.out.v) : ~e.out.v[i].ok THEN "sample-point-misses-a-variable"
  ELSE LET ps == SelectSeq(e.polys, LAMBDA p : ~MZero(p))
           seen == {[k \in 1 .. Len(ps) |-> PtSign(ps[k], e.out.v[i])] : i \in 1 .. Len(e.out.v)}
       IN IF OpenVectors(ps, e.nv) \subseteq seen THEN "ok" ELSE "open-cell-without-sample-point"

-----------------------------------------------------------------------------
JudgeBads(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE LET v == e.out.v
           pts == [i \in 1 .. Len(e.pts) |-> PointOf(e.pts[i])]
           n == Len(e.hyps)
           false == {i \in 1 .. Len(pts) : ~SequentTrue(e.ghyps, e.goal, pts[i])}
           S(i) == {h \in 1 .. n : Holds(e.hyps[h], pts[i])}
           sets == {S(i) : i \in false}
           got  == {Range(v.bads[k]) : k \in 1 .. Len(v.bads)}
       IN IF v.end.kind = "exc" THEN "raised"
          ELSE IF SequentTrue(e.ghyps, e.goal, pts[1]) THEN IF v.end.kind = "val" /\ v.none THEN "ok" ELSE "point-is-not-bad"
          ELSE IF (1 .. n) \in sets
               THEN IF v.end.kind # "cex" THEN "counterexample-missed"
                    ELSE CexFault(e.ghyps \o e.hyps, e.goal, v.end.pt, e.nv)
          ELSE IF v.end.kind = "cex" THEN "reported-counterexample-is-none"
          ELSE IF v.none THEN "bad-point-missed"
          ELSE IF ~(got \subseteq sets) THEN "bad-subset-invented"
          ELSE IF \E s \in sets : s # {} /\ ~\E g \in got : s \subseteq g THEN "bad-subset-missed"
          ELSE IF got = {} THEN "no-bad-subset-at-a-bad-point"
          ELSE "ok"

-----------------------------------------------------------------------------
(* A neighbourhood search: which functions it hands to the numerical solver, *)
(* where it starts it, and which points it comes back with.  The order in    *)
(* which it lays the variables out in vectors is its own affair, as long as  *)
(* it keeps to it.                                                           *)
Layouts(nv) == {s \in [1 .. nv -> 1 .. nv] : \A i, j \in 1 .. nv : i # j => s[i] # s[j]}
At(vec, lay) == TLCEval([n |-> [v \in 1 .. 3 |-> IF v <= Len(vec.n) THEN vec.n[CHOOSE j \in 1 .. Len(vec.n) : lay[j] = v] ELSE 0],
                         d |-> vec.d])
Apart(p, q, i) == BAdd(BMul(p.n[i], q.d), BNeg(BMul(q.n[i], p.d)))     \* times p.d q.d
SamePt(p, q) == \A i \in 1 .. 3 : BSign(Apart(p, q, i)) = 0
Close(p, q) == LET dd == BMul(p.d, q.d)                                  \* within 0.01, rounding aside
               IN \A i \in 1 .. 3 : BSign(BAdd(BMul(100001, dd), BNeg(BMul(10000000, BAbs(Apart(p, q, i)))))) >= 0
\* the function has its zeros where p has just crossed to the side opposite to s
Crosses(d, s, probes, vals, lay) ==
  \A i \in 1 .. Len(probes) :
     LET y == At([n |-> [j \in 1 .. Len(probes[i]) |-> probes[i][j][2]], d |-> 1], lay)
         gap == BMul(s, BAdd(vals[i], BNeg(BMul(1000000000, SumAt(d, y, MaxTotal(d, 1), 1)))))
     IN BSign(gap) = 1 /\ BSign(BAdd(gap, -10000000)) = -1
SolveOk(p, c, lay) ==
  LET x == At(c.x, lay)
      some == \E i \in 1 .. Len(p.hyps) : Holds(p.hyps[i], x)
  IN \E i \in 1 .. Len(p.hyps) :
       LET d == Diff(p.hyps[i])
           s == PtSign(d, x)
       IN /\ some => Holds(p.hyps[i], x)
          /\ \E t \in (IF s = 0 THEN {-1, 1} ELSE {s}) : Crosses(d, t, p.probes, c.f, lay)
SearchFault(p, o, lay) ==
  LET D == PointOf(p.pt)
      k == Len(o.calls)
      ans == TLCEval([i \in 1 .. k |-> At(o.calls[i].ans, lay)])
      xs  == TLCEval([i \in 1 .. k |-> At(o.calls[i].x, lay)])
      home == TLCEval({i \in 1 .. Len(o.out) : Close(o.out[i], D)})
  IN IF \E i \in 1 .. k : ~SamePt(xs[i], D) /\ (i = 1 \/ ~SamePt(xs[i], ans[i - 1])) THEN "search-starts-elsewhere"
     ELSE IF \E i \in 1 .. k : ~o.calls[i].square THEN "system-not-square"
     ELSE IF \E i \in 1 .. k : ~SolveOk(p, o.calls[i], lay) THEN "solver-not-sent-across-a-true-hypothesis"
     ELSE IF ~\E i \in home : SamePt(o.out[i], D) THEN "point-itself-missing"
     ELSE IF \E v \in 1 .. p.nv : \A i \in home : BSign(Apart(o.out[i], D, v)) = 0 THEN "neighbourhood-missing"
     ELSE IF \E i \in 1 .. Len(o.out) : i \notin home /\ ~\E j \in 1 .. k : Close(o.out[i], ans[j]) THEN "point-from-nowhere"
     ELSE IF \E i \in 1 .. Len(o.out) : i \notin home /\ Holds(p.goal, o.out[i]) THEN "useless-point-kept"
     ELSE IF \E j \in 1 .. k : /\ ~SequentTrue(p.ghyps, p.goal, ans[j])
                               /\ ~\E i \in 1 .. Len(o.out) : SamePt(o.out[i], ans[j]) THEN "useful-point-dropped"
     ELSE "ok"
JudgeSearch1(p, o) ==
  IF o.end.kind # "val" THEN "raised"
  ELSE IF \E i \in 1 .. Len(o.out) : ~o.out[i].ok THEN "point-misses-a-variable"
  ELSE IF p.hyps # << >> /\ o.calls = << >> THEN "no-search-at-all"
  ELSE IF \E i \in 1 .. Len(o.calls) : Len(o.calls[i].x.n) # p.nv THEN "vector-of-other-length"
  ELSE LET verdicts == TLCEval({SearchFault(p, o, lay) : lay \in Layouts(p.nv)})
       IN IF "ok" \in verdicts THEN "ok"
          ELSE IF verdicts = {"search-starts-elsewhere"} THEN "search-starts-elsewhere"
          ELSE CHOOSE v \in verdicts : v # "search-starts-elsewhere"
JudgeSearch(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE LET bad == {i \in 1 .. Len(e.problems) : JudgeSearch1(e.problems[i], e.out.v[i]) # "ok"}
       IN IF bad = {} THEN "ok" ELSE LET i == CHOOSE i \in bad : TRUE IN JudgeSearch1(e.problems[i], e.out.v[i])

RECURSIVE Weight(_, _, _)
Weight(w, S, i) == IF i > Len(w) THEN 0 ELSE (IF i \in S THEN w[i] ELSE 0) + Weight(w, S, i + 1)
JudgeHit(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE LET v == e.out.v
           n == Len(e.hyps)
           hits(S) == \A b \in 1 .. Len(e.bads) : S \ Range(e.bads[b]) # {}
           c == Range(v.cand)
       IN IF v.end.kind # "val" THEN "raised"
          ELSE IF ~(c \subseteq 1 .. n) THEN "candidate-out-of-range"
          ELSE IF ~hits(c) THEN "candidates-do-not-rule-out-a-bad-subset"
          ELSE IF \E S \in SUBSET (1 .. n) : hits(S) /\ Weight(v.w, S, 1) < Weight(v.w, c, 1) THEN "candidates-not-lightest"
          ELSE "ok"

-----------------------------------------------------------------------------
(* Texts.  A term's value is <<monomials, positive denominator>>.            *)
MK(c, p) == [i \in 1 .. Len(p) |-> [p[i] EXCEPT ![1] = BMul(c, @)]]
RECURSIVE Val(_)
Val(t) ==
  CASE t.t = "num" -> <<<<<<t.n, 0, 0, 0>>>>, t.d>>
    [] t.t = "var" -> <<<<<<1, IF t.i = 1 THEN 1 ELSE 0, IF t.i = 2 THEN 1 ELSE 0, IF t.i = 3 THEN 1 ELSE 0>>>>, 1>>
    [] t.t = "neg" -> LET a == Val(t.a) IN <<MNeg(a[1]), a[2]>>
    [] t.t = "add" -> LET a == Val(t.a) b == Val(t.b) IN <<TLCEval(MK(b[2], a[1]) \o MK(a[2], b[1])), BMul(a[2], b[2])>>
    [] t.t = "sub" -> LET a == Val(t.a) b == Val(t.b) IN <<TLCEval(MK(b[2], a[1]) \o MNeg(MK(a[2], b[1]))), BMul(a[2], b[2])>>
    [] t.t = "mul" -> LET a == Val(t.a) b == Val(t.b) IN <<TLCEval(MMul(a[1], b[1])), BMul(a[2], b[2])>>
    [] t.t = "div" -> LET a == Val(t.a)      \* t.b is a non-zero number
                          s == BSign(t.b.n)
                      IN <<MK(BMul(s, t.b.d), a[1]), BMul(a[2], BAbs(t.b.n))>>
RelOf(x) == LET a == Val(x.a) b == Val(x.b)
            IN TLCEval([l |-> TLCEval(MK(b[2], a[1])), op |-> x.op, r |-> TLCEval(MK(a[2], b[1]))])
\* p's variable number v[i] is what the specification calls i
Rename(p, v) == LET pos(i) == IF v[i] = 0 THEN 0 ELSE v[i] + 1
                IN [k \in 1 .. Len(p) |-> <<p[k][1], IF pos(1) = 0 THEN 0 ELSE p[k][pos(1)],
                                            IF pos(2) = 0 THEN 0 ELSE p[k][pos(2)], IF pos(3) = 0 THEN 0 ELSE p[k][pos(3)]>>]
PosMultiple(p, q) ==   \* p = c q for some c > 0
  IF MZero(q) THEN MZero(p)
  ELSE LET x == CHOOSE x \in MSupport(q) : TRUE
           a == MCoef(p, x)
           b == MCoef(q, x)
       IN /\ BSign(a) = BSign(b)
          /\ \A y \in Exps(p) \union Exps(q) : BEq(BMul(MCoef(p, y), b), BMul(MCoef(q, y), a))
VarsOk(v) == \A i, j \in 1 .. Len(v) : i # j /\ v[i] # 0 => v[i] # v[j]
SameRel(parsed, x, v) == parsed.op = x.op /\ PosMultiple(Rename(parsed.l, v), Diff(RelOf(x)))

JudgeFmls(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE LET o == e.out.v
       IN IF ~VarsOk(o.vars) THEN "two-names-for-one-variable"
          ELSE IF \E k \in 1 .. Len(e.rels) : Len(o.rels[k]) # Len(e.rels[k]) THEN "relation-lost-or-invented"
          ELSE IF \E k \in 1 .. Len(e.rels) : \E j \in 1 .. Len(e.rels[k]) : ~SameRel(o.rels[k][j], e.rels[k][j], o.vars)
               THEN "relation-changed" ELSE "ok"

-----------------------------------------------------------------------------
Without(s, idx) == LET keep == SelectSeq([i \in 1 .. Len(s) |-> i], LAMBDA i : i \notin Range(idx)) IN Pick(s, keep)
PtRenamed(pt, v) == [ok |-> TRUE, n |-> [i \in 1 .. 3 |-> IF v[i] = 0 THEN 0 ELSE pt.n[v[i]]], d |-> pt.d]
Distinct(s) == Len(s) = Cardinality(Range(s))
JudgeSequent(q, o, nv) ==
  LET ante == TLCEval([i \in 1 .. Len(q.ante) |-> RelOf(q.ante[i])])
      succ == TLCEval([i \in 1 .. Len(q.succ) |-> RelOf(q.succ[i])])
      k    == Len(succ)
      neg(a) == [a EXCEPT !.op = Neg(@)]
      \* everything but the goal as hypotheses
      hyps == TLCEval(ante \o [i \in 1 .. (k - 1) |-> neg(succ[i])])
      kept == TLCEval(Without(ante, o.ha) \o Without([i \in 1 .. (k - 1) |-> neg(succ[i])], o.hs))
  IN IF o.end.kind = "exc" THEN "run-raised"
     ELSE IF o.end.kind = "cex"
          THEN CexFault(hyps, succ[k], IF o.end.pt.ok THEN PtRenamed(o.end.pt, o.vars) ELSE o.end.pt, nv)
     ELSE IF ~(Range(o.ha) \subseteq 1 .. Len(ante)) \/ ~Distinct(o.ha) THEN "hides-an-antecedent-that-does-not-exist"
     ELSE IF ~(Range(o.hs) \subseteq 1 .. (k - 1)) \/ ~Distinct(o.hs) THEN "hides-a-succedent-that-does-not-exist"
     ELSE IF o.name # q.name THEN "other-sequent-named"
     ELSE LET r == ValidEnough(kept, succ[k], nv) IN IF r = "ok" THEN "ok" ELSE "after-hiding-" \o r
JudgeSmt(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE LET bad == {i \in 1 .. Len(e.out.v) : JudgeSequent(e.sequents[i], e.out.v[i], e.nv) # "ok"}
       IN IF bad = {} THEN "ok"
          ELSE LET i == CHOOSE i \in bad : TRUE IN JudgeSequent(e.sequents[i], e.out.v[i], e.nv)

\* a file of several sequents: what is written is about the last one, unless
\* one before it has a counterexample
JudgeFile(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE LET o == e.out.v
           n == Len(e.sequents)
           J(i) == JudgeSequent(e.sequents[i], o, e.nv)
       IN IF o.end.kind = "cex"
          THEN IF \E i \in 1 .. n : J(i) = "ok" THEN "ok" ELSE J(n)
          ELSE IF o.end.kind = "val" /\ ~o.ok THEN "malformed-result-file"
          ELSE IF o.end.kind = "val" /\ o.n # <<Len(o.ha), Len(o.hs)>> THEN "other-numbers-returned-than-written"
          ELSE J(n)

JudgeGRF(e) == CASE e.k = "atom" -> JudgeAtom(e)
                 [] e.k = "goal" -> JudgeGoal(e)
                 [] e.k = "check" -> JudgeCheck(e)
                 [] e.k = "sample" -> JudgeSample(e)
                 [] e.k = "bads" -> JudgeBads(e)
                 [] e.k = "hit" -> JudgeHit(e)
                 [] e.k = "search" -> JudgeSearch(e)
                 [] e.k = "fmls" -> JudgeFmls(e)
                 [] e.k = "smt" -> JudgeSmt(e)
                 [] e.k = "file" -> JudgeFile(e)
=============================================================================
