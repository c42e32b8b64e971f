------------------------------ MODULE Relevance ------------------------------
(***************************************************************************)
(* Relations between polynomials in x, y, z (monomials <<c, ex, ey, ez>>)  *)
(* and what the relevance filter says about them.                          *)
(*                                                                         *)
(* A relation is [l, op, r]; a point is [n, d]: the values n[i] / d.       *)
(* A sequent is a set of hypotheses and a goal; it is true at a point      *)
(* where a hypothesis is false or the goal is true.                        *)
(***************************************************************************)
EXTENDS ParPoly, MPoly

MNeg(p) == [i \in 1 .. Len(p) |-> [p[i] EXCEPT ![1] = BNeg(@)]]
Diff(a) == TLCEval(a.l \o MNeg(a.r))

RECURSIVE MaxTotal(_, _)
MaxTotal(p, i) == IF i > Len(p) THEN 0
                  ELSE PMax(p[i][2] + p[i][3] + p[i][4], MaxTotal(p, i + 1))
RECURSIVE SumAt(_, _, _, _)
SumAt(p, pt, deg, i) ==
  IF i > Len(p) THEN 0
  ELSE LET m == p[i]
       IN BAdd(BMul(BMul(m[1], BPow(pt.d, deg - m[2] - m[3] - m[4])),
                    BMul(BPow(pt.n[1], m[2]), BMul(BPow(pt.n[2], m[3]), BPow(pt.n[3], m[4])))),
               SumAt(p, pt, deg, i + 1))
PtSign(p, pt) == BSign(SumAt(p, pt, MaxTotal(p, 1), 1))
Holds(a, pt) == RelHolds(a.op, PtSign(Diff(a), pt))
VarsIn(p) == UNION {{i \in 1 .. 3 : x[i] > 0} : x \in MSupport(p)}
Neg(op) == CASE op = "gt" -> "le" [] op = "le" -> "gt" [] op = "lt" -> "ge" [] op = "ge" -> "lt"
             [] op = "eq" -> "ne" [] op = "ne" -> "eq"

SequentTrue(hyps, goal, pt) == Holds(goal, pt) \/ \E i \in DOMAIN hyps : ~Holds(hyps[i], pt)

-----------------------------------------------------------------------------
(* Open cells.  Lines parallel to the x axis through a grid of points are  *)
(* cut into their sign-invariant intervals; where no polynomial vanishes    *)
(* the interval lies in an open cell of the whole space.                    *)
Half == {-7, -5, -3, -1, 1, 3, 5, 7}
Fifth == {-12, -3, 2, 13}
Lines(nv) == IF nv = 1 THEN {<<<<0, 1>>, <<0, 1>>>>}
             ELSE IF nv = 2 THEN {<<<<h, 2>>, <<0, 1>>>> : h \in Half} \union {<<<<f, 5>>, <<0, 1>>>> : f \in Fifth}
             ELSE {<<<<h, 2>>, <<f, 5>>>> : h \in {-5, -1, 1, 3}, f \in {-12, -3, 2, 13}}
\* sign vectors of the polynomials ps (none identically zero) in open cells
OpenCols(ps, a) ==
  LET t == TLCEval(SignTable([i \in 1 .. Len(ps) |-> Specialise(ps[i], a)]))
  IN {t[c] : c \in {c \in 1 .. Len(t) : c % 2 = 1 /\ \A i \in 1 .. Len(ps) : t[c][i] # 0}}
OpenVectors(ps, nv) == TLCEval(UNION {OpenCols(ps, a) : a \in Lines(nv)})

\* is the sequent false somewhere in an open cell?
FalseInOpenCell(hyps, goal, nv) ==
  LET all == TLCEval(<<goal>> \o hyps)
      ds  == TLCEval([i \in 1 .. Len(all) |-> Diff(all[i])])
      nz  == TLCEval(SelectSeq([i \in 1 .. Len(all) |-> i], LAMBDA i : ~MZero(ds[i])))
      ops == TLCEval([k \in 1 .. Len(nz) |-> all[nz[k]].op])
      ps  == TLCEval([k \in 1 .. Len(nz) |-> ds[nz[k]]])
      triv(i) == RelHolds(all[i].op, 0)
      bad(v) == \A k \in 1 .. Len(nz) : IF nz[k] = 1 THEN ~RelHolds(ops[k], v[k]) ELSE RelHolds(ops[k], v[k])
  IN /\ \A i \in 1 .. Len(all) : MZero(ds[i]) => (IF i = 1 THEN ~triv(i) ELSE triv(i))
     /\ IF nz = << >> THEN TRUE ELSE \E v \in OpenVectors(ps, nv) : bad(v)

\* one variable: false anywhere at all?
FalseSomewhere1(hyps, goal) ==
  LET all == TLCEval(<<goal>> \o hyps)
      t == TLCEval(SignTable([i \in 1 .. Len(all) |-> Specialise(Diff(all[i]), <<<<0, 1>>, <<0, 1>>>>)]))
  IN \E c \in 1 .. Len(t) : ~RelHolds(goal.op, t[c][1]) /\ \A i \in 2 .. Len(all) : RelHolds(all[i].op, t[c][i])
=============================================================================
