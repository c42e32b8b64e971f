------------------------------ MODULE CohenHorm ------------------------------
(***************************************************************************)
(* The Cohen-Hormander procedure at one parameter point, i.e. within one   *)
(* case of its context: polynomials have integer coefficients and their    *)
(* leading coefficient does not vanish.                                    *)
(*                                                                         *)
(* To tabulate the signs of a set of polynomials, take one of highest      *)
(* degree, p; tabulate instead the others, p's derivative, and the         *)
(* remainders of p by all of these (Down); then condense the table to the  *)
(* columns that matter, read p's sign at their roots off the remainders,   *)
(* place p's own roots where its sign changes, and condense again (Up).    *)
(*                                                                         *)
(* Faithful: the table just produced is the true sign table of its goal.   *)
(***************************************************************************)
EXTENDS Poly, FiniteSets

CONSTANTS M, MaxDeg, NPolys

Universe == UNION {{p \in [1 .. n -> -M .. M] : p[n] # 0} : n \in 2 .. (MaxDeg + 1)}

VARIABLES stack,   \* goals, innermost first; each [goal, top, need]
          table,   \* columns: functions from the goal's polynomials to signs
          dir      \* "down", "up", "done"
vars == <<stack, table, dir>>

Systems == IF NPolys = 1 THEN {{p} : p \in Universe}
           ELSE IF NPolys = 2 THEN {{p, q} : p, q \in Universe}
           ELSE {{p, q, r} : p, q, r \in Universe}

PremPow(f, g) == Len(f) - Len(g) + 1
\* remainder of lc(g)^(deg f - deg g + 1) * f by g
RECURSIVE PPRemFrom(_, _, _)
PPRemFrom(f, g, left) ==
  IF Len(f) < Len(g) THEN PScale(BPow(PLc(g), left), f)
  ELSE PPRemFrom(TLCEval(PSub(PScale(PLc(g), f), PShift(PScale(PLc(f), g), Len(f) - Len(g)))), g, left - 1)
PPRem(f, g) == IF Len(f) < Len(g) THEN f ELSE PPRemFrom(f, g, PremPow(f, g))

Frame(G) ==
  LET p == CHOOSE q \in G : \A r \in G : Len(r) <= Len(q)
  IN [goal |-> G, top |-> p, need |-> (G \ {p}) \union ({PDeriv(p)} \ {<< >>})]

Init == \E S \in Systems : stack = <<Frame(S)>> /\ table = << >> /\ dir = "down"

Rems(f) == {PPRem(f.top, g) : g \in {h \in f.need : Len(h) > 1}} \ {<< >>}
Down ==
  /\ dir = "down"
  /\ LET f == Head(stack)
     IN IF f.need = {}
        THEN \* a single constant
             LET col == [p \in f.goal |-> BSign(PLc(p))]
             IN table' = <<col, col, col>> /\ dir' = "up" /\ UNCHANGED stack
        ELSE /\ stack' = <<TLCEval(Frame(f.need \union Rems(f)))>> \o stack
             /\ UNCHANGED <<table, dir>>

SignIn(col, p) == IF p = << >> THEN 0 ELSE IF Len(p) = 1 THEN BSign(p[1]) ELSE col[p]
Restrict(col, S) == [p \in S |-> SignIn(col, p)]
\* keep the infinities, the roots of S and the columns right after them, and
\* before them a column like minus infinity
Condense(t, S) ==
  LET n == Len(t)
      root(c) == c > 1 /\ c < n /\ \E p \in S : p # << >> /\ SignIn(t[c], p) = 0 /\ SignIn(t[1], p) # 0
      RECURSIVE from(_)
      from(c) == IF c >= n THEN << >>
                 ELSE IF root(c)
                 THEN <<[at |-> Restrict(t[c], S), c |-> c], [at |-> Restrict(t[c + 1], S), c |-> c + 1]>> \o from(c + 1)
                 ELSE from(c + 1)
      inf == Restrict(t[1], S)
  IN <<[at |-> inf, c |-> 1], [at |-> inf, c |-> 1]>> \o from(2) \o <<[at |-> Restrict(t[n], S), c |-> n]>>
Plain(t) == [i \in 1 .. Len(t) |-> t[i].at]

Up ==
  /\ dir = "up"
  /\ IF Len(stack) = 1 THEN dir' = "done" /\ UNCHANGED <<stack, table>>
     ELSE
     LET f  == stack[2]
         p  == f.top
         ct == TLCEval(Condense(table, f.need))
         n  == Len(ct)
         lc == BSign(PLc(p))
         zeros(c) == {q \in f.need : Len(q) > 1 /\ ct[c].at[q] = 0}
         known(c) == c \in {1, n} \/ (c % 2 = 1)   \* infinities and roots
         atroot(c) == LET q == CHOOSE r \in zeros(c) : TRUE
                          v == SignIn(table[ct[c].c], PPRem(p, q))
                      IN IF BSign(PLc(q)) < 0 /\ PremPow(p, q) % 2 = 1 THEN 0 - v ELSE v
         val == TLCEval([c \in {d \in 1 .. n : known(d)} |->
                   IF c = 1 THEN (IF PDeg(p) % 2 = 0 THEN lc ELSE 0 - lc)
                   ELSE IF c = n THEN lc ELSE atroot(c)])
         put(c, v) == [q \in (f.need \union {p}) |-> IF q = p THEN v ELSE ct[c].at[q]]
         piece(c) == IF known(c) THEN <<put(c, val[c])>>
                     ELSE LET a == val[c - 1] b == val[c + 1]
                          IN IF a * b < 0 THEN <<put(c, a), put(c, 0), put(c, b)>>
                             ELSE <<put(c, IF a + b > 0 THEN 1 ELSE IF a + b < 0 THEN -1 ELSE 0)>>
         RECURSIVE pieces(_)
         pieces(c) == IF c > n THEN << >> ELSE piece(c) \o pieces(c + 1)
         ext == IF Len(p) = 1 THEN [c \in 1 .. n |-> put(c, lc)] ELSE pieces(1)
     IN /\ table' = TLCEval(Plain(Condense(ext, f.goal)))
        /\ stack' = Tail(stack) /\ UNCHANGED dir

Next == Down \/ Up
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Faithful ==
  dir = "up" =>
    LET ps == TLCEval(ToSeq(Head(stack).goal))
        t  == TLCEval(SignTable(ps))
        n  == Len(table)
    IN /\ n = Len(t) + 2
       /\ \A c \in 1 .. Len(t) : \A i \in 1 .. Len(ps) : table[c + 1][ps[i]] = t[c][i]
       /\ \A i \in 1 .. Len(ps) : table[1][ps[i]] = t[1][i] /\ table[n][ps[i]] = t[Len(t)][i]
Finishes == <>(dir = "done")
=============================================================================
