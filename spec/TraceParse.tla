------------------------------ MODULE TraceParse -----------------------------
(***************************************************************************)
(* Recorded parsing sessions.  Every parsed object is recorded by its      *)
(* values at the assignments of its item:                                  *)
(*   term  out.v = [vals]                                                  *)
(*   rel   out.v = [op, dec, a, b]     (dec: "true"/"false"/"")            *)
(*   seq   out.v = [name, ante, succ]  (lists of relations)                *)
(* A value is <<n, d>>, or <<0, 0>> when the object has no number there.   *)
(***************************************************************************)
EXTENDS Expr, TraceBase

SameVals(e, env, vals) ==
  /\ Len(vals) = Len(env)
  /\ \A i \in 1 .. Len(env) :
       LET w == ValueOf(e, env[i]) IN Defined(w) => BSign(vals[i][2]) # 0 /\ REq(w, vals[i])

RelVerdict(r, env, o) ==
  IF o.dec # ""
  THEN IF \A i \in 1 .. Len(env) :
            LET a == ValueOf(r.a, env[i])
                b == ValueOf(r.b, env[i])
            IN (Defined(a) /\ Defined(b)) => (OpHolds(r.r, RCmp(a, b)) = (o.dec = "true"))
       THEN "ok" ELSE "relation-decided-wrongly"
  ELSE IF o.op # r.r THEN "wrong-relation-operator"
  ELSE IF ~SameVals(r.a, env, o.a) THEN "left-side-changed"
  ELSE IF ~SameVals(r.b, env, o.b) THEN "right-side-changed"
  ELSE "ok"

RECURSIVE ListVerdict(_, _, _, _)
ListVerdict(rs, env, os, i) ==
  IF Len(rs) # Len(os) THEN "relations-lost-or-invented"
  ELSE IF i > Len(rs) THEN "ok"
  ELSE LET v == RelVerdict(rs[i], env, os[i]) IN IF v = "ok" THEN ListVerdict(rs, env, os, i + 1) ELSE v

ItemVerdict(it, o) ==
  IF o.kind # "val" THEN "not-parsed-" \o o.kind
  ELSE CASE it.kind = "term" -> IF SameVals(it.e, it.env, o.v.vals) THEN "ok" ELSE "term-changed"
         [] it.kind = "rel" -> RelVerdict(it.e, it.env, o.v)
         [] it.kind = "seq" ->
              IF o.v.name # it.e.name THEN "name-changed"
              ELSE LET v == ListVerdict(it.e.ante, it.env, o.v.ante, 1)
                   IN IF v = "ok" THEN ListVerdict(it.e.succ, it.env, o.v.succ, 1) ELSE v

\* the parser has no state: each item is judged by itself, whatever came before
JudgeParse(s) ==
  IF s.out.kind # "val" THEN "no-answer-" \o s.out.kind
  ELSE LET bad == {i \in 1 .. Len(s.items) : ItemVerdict(s.items[i], s.out.v[i]) # "ok"}
       IN IF bad = {} THEN "ok"
          ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
               IN ItemVerdict(s.items[i], s.out.v[i]) \o " item " \o ToString(i)
=============================================================================
