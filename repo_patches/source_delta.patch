From a76681bf7612feecfc6a0dc36cd4a4b4dc483932 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:08:04 +0000
Subject: [PATCH 01/23] fix: term substitution compared the builtin sum instead
 of the polynomial's value

---
 vts/uni_vts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vts/uni_vts.py b/vts/uni_vts.py
index f108d38..fc1cba9 100644
--- a/vts/uni_vts.py
+++ b/vts/uni_vts.py
@@ -777,7 +777,7 @@ def evaluate(point, le, lt, eq, ne):
       
   for (poly, strategy) in r_str:
     #print "  poly: %s" %poly
-    evaluate_poly(poly, point)
+    sum = evaluate_poly(poly, point)
     #print "  term values: %s" %map(lambda (c, p): c*point**p, terms)
     #print "  sum: %s" %sum
     if not strategy.condition(sum):
-- 
2.43.0


From 75e1e7a193e8562e5d168667dd5cd99cee5284dc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:08:04 +0000
Subject: [PATCH 02/23] fix: constraints on the zero polynomial are decided
 instead of raising

---
 vts/uni_vts.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/vts/uni_vts.py b/vts/uni_vts.py
index fc1cba9..ec635d5 100644
--- a/vts/uni_vts.py
+++ b/vts/uni_vts.py
@@ -62,6 +62,12 @@ def internal_ts(le, lt, eq, ne):
   return boolean corresponding to satisfiability of constraints
   """
   
+  # the zero polynomial has no isolated roots to test
+  if any(is_zero_poly(p) for p in lt + ne):
+    return False
+  le = filter(lambda p: not is_zero_poly(p), le)
+  eq = filter(lambda p: not is_zero_poly(p), eq)
+  
   # iterate over all points that might be end points of closed intervals
   for equality in (eq + le):
     roots = z3rcf.MkRoots(equality)
@@ -97,6 +103,12 @@ def internal_ts(le, lt, eq, ne):
   
   
 def internal_vts(le, lt, eq, ne):
+  # the zero polynomial has no isolated roots to test
+  if any(is_zero_poly(p) for p in lt + ne):
+    return False
+  le = filter(lambda p: not is_zero_poly(p), le)
+  eq = filter(lambda p: not is_zero_poly(p), eq)
+
   sign_lookup = sign_conditions_lookup(le, lt, eq, ne)
   all_polies = (le + lt + eq + ne)
   # print "internal"
@@ -139,6 +151,9 @@ def internal_vts(le, lt, eq, ne):
   return True
   
 
+def is_zero_poly(poly):
+  return all(c == 0 for c in poly)
+
 def multiply(poly1, poly2):
   #print "poly1: %s" %poly1
   #print "poly2: %s" %poly2
-- 
2.43.0


From a683a6da160500a07d60b70a90467e83969eaca0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:08:04 +0000
Subject: [PATCH 03/23] fix: polynomials that are or expand to zero convert to
 the empty list

---
 vts/isym.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vts/isym.py b/vts/isym.py
index a23f4d4..694618a 100644
--- a/vts/isym.py
+++ b/vts/isym.py
@@ -14,17 +14,19 @@ def convert(poly):
   return -- list of coefficients
   """
 
-  if isinstance(poly, int):
+  if isinstance(poly, (int, long)):
     if poly == 0:
       return []
     return [poly]
 
+  poly = poly.expand()
+  if poly == 0:
+    return []
+
   symbols = poly.free_symbols
   if len(symbols) == 0:
     return convert_rationals_to_ints([poly])
 
-  poly = poly.expand()
-
   if len(symbols) > 1:
     raise Exception("more than one symbol")
   x = symbols.pop()
-- 
2.43.0


From 3f22f1d3d56dad207b686447af5682d5f27d1434 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:08:04 +0000
Subject: [PATCH 04/23] fix: parsing a variable no longer defines a global of
 that name in the parser

---
 vts/grf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vts/grf_parser.py b/vts/grf_parser.py
index ed9cbc0..b776b42 100644
--- a/vts/grf_parser.py
+++ b/vts/grf_parser.py
@@ -15,7 +15,7 @@ def doInt(s,l,t):
 
     
 def doVariable(s, l, t):
-  return sympy.var(t[0])
+  return sympy.Symbol(t[0])
   #return sympy.var('x')
   
 def proc_le(s, l, t):
-- 
2.43.0


From b27e73038ca7a60d31649dad163e7ee7062039f4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:08:04 +0000
Subject: [PATCH 05/23] fix: an interrupted cache write no longer leaves an
 unreadable matrix behind

---
 vts/matrix_of_signs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vts/matrix_of_signs.py b/vts/matrix_of_signs.py
index 8bcdb07..252379d 100644
--- a/vts/matrix_of_signs.py
+++ b/vts/matrix_of_signs.py
@@ -1,6 +1,7 @@
 import pickle
 import os
 import errno
+import tempfile
 
 import sympy
 import sympy.physics.quantum
@@ -12,8 +13,12 @@ def write_to_cache(name, obj):
   except OSError as exception:
     if exception.errno != errno.EEXIST:
       raise exception
-  with open(os.path.join('cache', name), 'wb') as f:
+  # write to a private file first, so that an interrupted or a concurrent write
+  # is never mistaken for a complete cache entry
+  fd, temp_name = tempfile.mkstemp('.tmp', name, 'cache')
+  with os.fdopen(fd, 'wb') as f:
     pickle.dump(obj, f)
+  os.rename(temp_name, os.path.join('cache', name))
 def cache_hit(name):
   return os.path.isfile(os.path.join('cache', name))
 def read_cache(name):
-- 
2.43.0


From ef02f5f993a0b7d3f752cf500b2e5caa16a3833c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:09:38 +0000
Subject: [PATCH 06/23] fix: already decided relations pass through
 make_univariate

---
 vts/examples_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vts/examples_parser.py b/vts/examples_parser.py
index 807ed3c..49f58d0 100644
--- a/vts/examples_parser.py
+++ b/vts/examples_parser.py
@@ -80,6 +80,10 @@ def make_univariate(relations):
   """
   acc = []
   for relation in relations:
+    # relations between constants have already been decided
+    if relation == True or relation == False:
+      acc.append(relation)
+      continue
     old_relation = relation.lhs - relation.rhs
     vars = old_relation.free_symbols
     zipped_vars = zip(vars, map(lambda p: x, range(len(vars))))
-- 
2.43.0


From 16050539f1b4c2134b12ed01c04947610932a014 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:09:38 +0000
Subject: [PATCH 07/23] fix: sequents with a trivially false relation are
 preformatted instead of raising

---
 vts/checker.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vts/checker.py b/vts/checker.py
index 09fde35..fee79e3 100644
--- a/vts/checker.py
+++ b/vts/checker.py
@@ -111,6 +111,13 @@ def vts_preformat(uni_ante, uni_succ):
   if len(filtered_ante) == 0 or len(filtered_succ) == 0:
     raise Exception('antecedent or succedent became zero')
   
+  # a false antecedent makes the formula hold
+  if any(p == False for p in filtered_ante):
+    return []
+  # the negation of a false succedent adds nothing to its clause
+  false_succ = filter(lambda p: p == False, filtered_succ)
+  filtered_succ = filtered_succ.difference(false_succ)
+  
   
   # rewrite everything > and >= (to < and <=)
   # also negate the succedent
@@ -127,7 +134,7 @@ def vts_preformat(uni_ante, uni_succ):
   """
   
   #distribute the antecedent over succedent
-  ret = []
+  ret = [list(rewritten_ante) for _ in false_succ]
   for succ in rewritten_succ:
     tempList = list(rewritten_ante)
     tempList.append(succ)
-- 
2.43.0


From d77fba70bbd3010ac1bec5679bf10532f23290e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:09:38 +0000
Subject: [PATCH 08/23] fix: check_examples no longer raises when it has
 falsified an example

---
 vts/checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/checker.py b/vts/checker.py
index fee79e3..c3b915f 100644
--- a/vts/checker.py
+++ b/vts/checker.py
@@ -57,12 +57,12 @@ def check_examples(vts=True):
       print "formula value: %s" %formula_value
       print
       if not formula_value:
-        results[file] = formula_value
+        results[(file_index, ex_index)] = formula_value
 
 
   print results
   for f in results:
-    print "%s - %s" %(f[:-8], results[f])
+    print "%s - %s" %(f, results[f])
   
 def make_relation_map(formula):
   """Distributes relations in formula to map based on their type (<=, <, =, !=)
-- 
2.43.0


From cb12e83dd207eb258349ce2ed8040be7e6d3b424 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:09:38 +0000
Subject: [PATCH 09/23] fix: pickled MetiTarski examples are read from the
 directory they are written to

---
 vts/examples_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/examples_parser.py b/vts/examples_parser.py
index 49f58d0..2b7b5d5 100644
--- a/vts/examples_parser.py
+++ b/vts/examples_parser.py
@@ -94,7 +94,7 @@ def make_univariate(relations):
 
 def unpickle_dirs_gen():
   base_dir = os.path.join('Examples')
-  met_dir = os.path.join(base_dir, 'MetiTarski')
+  met_dir = os.path.join(base_dir, 'Metitarski')
   hid_dir = os.path.join(base_dir, 'HidingProblems')
 
   dirGen = itertools.chain( os.walk(met_dir), os.walk(hid_dir))
@@ -131,7 +131,7 @@ def unpickle_dirs():
   
   """
   base_dir = os.path.join('Examples')
-  met_dir = os.path.join(base_dir, 'MetiTarski')
+  met_dir = os.path.join(base_dir, 'Metitarski')
   hid_dir = os.path.join(base_dir, 'HidingProblems')
   
   met_results = unpickle_from_dir(met_dir)
-- 
2.43.0


From 33824d097e4965e21ce73562ac594590349d7f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:09 +0000
Subject: [PATCH 10/23] fix: coefficients of terms with the same power are
 added up when converting

---
 vts/isym.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vts/isym.py b/vts/isym.py
index 694618a..37d773f 100644
--- a/vts/isym.py
+++ b/vts/isym.py
@@ -37,7 +37,10 @@ def convert(poly):
 
   intterms = map(lambda (c,p): (c,int(p)), leadterms)
   degree = intterms[0][1]
-  pow_lookup = {p: c for (c,p) in intterms}
+  pow_lookup = {}
+  for (c, p) in intterms:
+    # terms with irrational coefficients stay separate, e.g. sqrt(2)*x + 2*x
+    pow_lookup[p] = pow_lookup.get(p, 0) + c
 
 #  print "intterms: %s" %intterms
 #  print "pow_lookup: %s" %pow_lookup
-- 
2.43.0


From 7eea51e079874538a4bd0f7dbd98ff89cc8ee0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:26 +0000
Subject: [PATCH 11/23] fix: Cohen-Hormander splits on the leading coefficient
 of the polynomial it adds

---
 highschool_qe/cohenhorm.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index 0664806..7a78088 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -84,6 +84,20 @@ class CohenHormander:
     sys.stdout.write("\rdeg of max_poly: %d" %(self._algebra.degree(max_poly)))
     sys.stdout.flush()
     
+    # the sign of its leading coefficient has to be known
+    max_poly_lc = self._algebra.LC(max_poly)
+    if (self._algebra.degree(max_poly) > 0) & \
+        self._algebra.has_variable(max_poly_lc):
+      if context.has_key(max_poly_lc) == False:
+        ret = []
+        for sign in [-1, 0, 1]:
+          con_copy = context.copy()
+          con_copy[max_poly_lc] = sign
+          ret += self._real_table(polys, con_copy)
+        return ret
+      if context[max_poly_lc] == 0:
+        return self._real_table_tail(polys, max_poly, context)
+
     derivative = self._algebra.derivative(max_poly)
 
     # polynomials needed (all other + plus derivative)
@@ -169,6 +183,29 @@ class CohenHormander:
         
     return ret
     
+  def _real_table_tail(self, polys, poly, context):
+    """Constructs diagrams for polynomials when the leading
+    coefficient of poly is zero, so that poly equals its tail
+    
+    Keyword arguments: see _real_table; poly is one of polys
+    """
+    tail = self._algebra.p_tail(poly)
+    rest = filter(lambda p: p != poly, polys)
+    if tail != 0:
+      rest = rest + [tail]
+    if len(rest) == 0:
+      tables = self.get_initial_table(tail, context)
+    else:
+      tables = self._real_table(rest, context)
+    ret = []
+    for (table, con) in tables:
+      cols = table[table.keys()[0]].keys()
+      table[poly] = {}
+      for col in cols:
+        table[poly][col] = self.table_lookup(table, tail, col, con)
+      ret.append((self.copy_table(table, polys, con), con))
+    return ret
+
   def extend_single_table(self, table, context, max_poly, pols):
     """Extends a single sign diagram by given polynomial using a
     specific context
-- 
2.43.0


From de78d4364138d89d7672bef83b5024130b368e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:26 +0000
Subject: [PATCH 12/23] fix: Cohen-Hormander tables with several polynomials
 can be printed

---
 highschool_qe/cohenhorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index 7a78088..dad61ef 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -651,7 +651,7 @@ class CohenHormander:
       header.update(diagram[row].keys())
     #print map(lambda x: x, header)
     print "-" * max_len
-    for row in sortedset(diagram.keys()):
+    for row in sortedset(diagram.keys(), key = str):
       print str("%%%ds   " %max_len) %row,
   #     print "%s " %diagram[row],
   #     for index in diagram[row].keys():
-- 
2.43.0


From 0dadd19b2e584893bde661accbf69a41aac06682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 13/23] fix: GRF records a bad point at which no hidden
 hypothesis holds

bad_subsets_on_dict dropped empty bad subsets, so that a point falsifying the
goal at which every hidden hypothesis fails led to no constraint at all and
check() died with an IndexError on the empty candidate list
(e.g. x > 5 |- x > 0).
---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index cc067a9..a793013 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -873,7 +873,7 @@ in a (uniform) epsilon(=" + str(epsilon) + ") neighborhood.")
                     #print "    " + str(bad)
                     if len(bad) == len(self.hyps):
                         raise Exception("Counterexample!: " + str(d))
-                    if bad not in bads and bad != []:
+                    if bad not in bads:
                         # Filter out sets in bads that are subsets of
                         # bad. This is a disgusting hack! Must change
                         # to tuple representation soon.
-- 
2.43.0


From d7933ae88a5adff057d138e610cb0f0a2fb10637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 14/23] fix: GRF atoms know their variables after Groebner
 reduction

quotient_ring_inject replaced the polynomial but kept the old variables, so
that a reduced atom was evaluated on points that do not instantiate all its
variables (or not evaluated on points that do).
---
 GRF/grf.sage | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index a793013..289eb97 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -75,6 +75,7 @@ class RCF_Atom(RCF):
         print "      - Old poly: ", self.poly
         print "      - New poly: ", new_poly
         self.poly = new_poly
+        self.vars = self.poly.variables()
 
     def negate(self):
         if self.op == ">":
-- 
2.43.0


From d00112b5683414b322149e428f7fa021c3391210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 15/23] fix: GRF lifts without a goal

sample_pt_dicts() and check(partial=False), both the defaults, raised
AttributeError on every problem with more than one variable.
---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 289eb97..018e453 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -633,7 +633,7 @@ class QE_Factory(RCF):
 
         # Special partiality for GRF: We short-circuit True cells!
 
-        if goal.eval_on_dict(parent_dict) == True:
+        if goal != None and goal.eval_on_dict(parent_dict) == True:
             print "--> Partiality for GRF short-circuited lifting over cell (R^" \
                 + str(l) + "):" + str(i) + "!"
             return []
-- 
2.43.0


From ff8a8779e0e99c8b047de4fc8e6adc028e11e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 16/23] fix: GRF simplifies goal hypotheses one after the other

A new equation reduced the goal hypotheses and was itself reduced by what
they were before, so two equations could cancel each other (x = 0 promoted
twice, or x = 0 and x + y = 0) and the goal sequent lost a hypothesis.
---
 GRF/grf.sage | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 018e453..d73115d 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -197,17 +197,17 @@ class RCF_Goal(RCF):
             self.goal_hyps = self.goal_hyps + [gh]
         else:
             B = self.gb
-            if gh.op == '=':
+            if self.gb != []:
+                # Simplify new gb using current goal_hyps
+                gh.quotient_ring_inject(self.gb)
+            if gh.op == '=' and gh.poly != 0:
                 I = ideal([gh.poly])
                 B = I.groebner_basis()
                 # Currently, B = I :-)!
-                # Simplify current goal_hyps using new gh
+                # Simplify current goal_hyps using new (simplified) gh
                 for h in self.goal_hyps:
                     h.quotient_ring_inject(B)
                 B = ideal(self.gb + [gh.poly]).groebner_basis()
-            if self.gb != []:
-                # Simplify new gb using current goal_hyps
-                gh.quotient_ring_inject(self.gb)
             self.goal_hyps = self.goal_hyps + [gh]
             # Update our working self.gb in case gh has enriched it
             self.gb = B
-- 
2.43.0


From b34134acd608a47a823cfad1965612af4ab77df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 17/23] fix: GRF isolates every root of a projection set

The irrational roots of a polynomial that also has a rational root were not
isolated at all ((x - 1)*(x^2 - 2)), and isolating intervals could overlap
the rational roots of other polynomials, so that sectors between roots got no
sample point.  Isolate the roots of the whole product, as the comment above
says, and shrink an interval to the rational root it contains.
---
 GRF/grf.sage | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index d73115d..ccea6ad 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -442,19 +442,19 @@ class QE_Factory(RCF):
         if (univ_polys==[]):
             return []
         else:
-            easy_roots_global, rri = [], []
-            prod = 1
+            easy_roots, prod = [], 1
             for p in univ_polys:
-                easy_roots = p.roots()
-                if easy_roots != []:
-                    easy_roots_global += [[(a, a), m] for (a, m) in easy_roots]
-                else:
-                    prod = prod * p
-            if prod != 1:
-                rri = prod.real_root_intervals()
+                easy_roots += [a for (a, m) in p.roots()]
+                prod = prod * p
+            rri = []
+            for ((l, u), m) in prod.real_root_intervals():
+                for a in easy_roots:
+                    if l < a and a < u:
+                        l, u = a, a
+                rri.append(((l, u), m))
             #print "rri's: ", rri
-            #print "easy_roots:", easy_roots_global
-            return rri + easy_roots_global
+            #print "easy_roots:", easy_roots
+            return rri
 
     #
     # Given a rational interval (presented as (l, u), a lower and
-- 
2.43.0


From d4dc053ade4f296297bb18fa0f182607a76091c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 18/23] fix: GRF projects irreducible factors

Discriminants of polynomials with a repeated factor and resultants of
polynomials with a common factor are zero and were filtered out, so that cell
boundaries were missed (the goal (x^2 - y)^3 >= 0 was found to be true
without any hypothesis).
---
 GRF/grf.sage | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index ccea6ad..6983b3e 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -332,12 +332,16 @@ class QE_Factory(RCF):
     # cheaply seen to be unnecessary for CAD tree construction.
     # This currently:
     #  - removes all rational constants,
+    #  - replaces all polys by their irreducible factors (otherwise
+    #     discriminants and resultants vanish when polys have repeated
+    #     or common factors),
     #  - replaces all polys of the form (c_i x_i^d) with (x_i)
     #     (duplicates are cleared using set()).
     #
 
     def filter_proj_set(self, ps):
         ps_1 = filter((lambda p: not(p.is_constant())), ps)
+        ps_1 = [f for p in ps_1 for (f, m) in p.factor()]
         ps_2 = list(set(map(self.pure_poly_base, ps_1)))
         # return ps_2
         # disabling ps_2 filtering for testing 13-Jun
@@ -374,10 +378,7 @@ class QE_Factory(RCF):
 
     #
     # The projection phase: Compute a full (filtered) Brown-McCallum
-    # hierarchy of projection sets, bound to self.proj_sets.  Note
-    # that we currently don't compute projection factor sets, only
-    # projection sets.  (This affects neither completeness nor
-    # soundness, only efficiency.)
+    # hierarchy of projection factor sets, bound to self.proj_sets.
     #
 
     def projection_phase(self):
-- 
2.43.0


From e710dd1ee8b8f6f0528156581995cae63d6b2435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 19/23] fix: GRF local search uses the variables of its problem

The variable order of the first problem was kept for all later ones, which
then failed (KeyError) or sampled points that miss variables.
---
 GRF/local_search.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GRF/local_search.py b/GRF/local_search.py
index 8291f6d..25da129 100644
--- a/GRF/local_search.py
+++ b/GRF/local_search.py
@@ -153,6 +153,7 @@ def get_symb_flipping_func(A,x,margin):
 # EPZ
 def local_search_sampling(Prob,D,sample_params): 
     N = Prob.num_vars
+    VarOrder.order = D.keys()
 
     # Search parameters; TODO: should put into a structure
     repeat_num = 10;
-- 
2.43.0


From f36d55ec78f35c3ffae2dc80aa8a3f1d3ebab1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 20/23] fix: GRF local search on a goal with no hypothesis left

With no hidden hypothesis, random.choice([]) raised IndexError where check()
reports the counterexample.
---
 GRF/local_search.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GRF/local_search.py b/GRF/local_search.py
index 25da129..fe37d38 100644
--- a/GRF/local_search.py
+++ b/GRF/local_search.py
@@ -169,6 +169,9 @@ def local_search_sampling(Prob,D,sample_params):
     Points = [D] \
         + [perturb_dict(D,perturb_eps) for i in xrange(init_perturb_num)]   
 
+    if Prob.get_hidden_hyp_atoms() == []:
+        return Points
+
     for i in xrange(repeat_num):
         x = VarOrder.dict2vect(D)
         for k in xrange(chain_length):
-- 
2.43.0


From 06e0a615c4def2e9cbd62f87cfa7480e0baa2eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 21/23] fix: GRF hides antecedents that exist

The succedents moved to the left were also reported as antecedents to hide,
with positions beyond the end of the antecedent.
---
 GRF/smt2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GRF/smt2.py b/GRF/smt2.py
index 836e970..83b5bdf 100644
--- a/GRF/smt2.py
+++ b/GRF/smt2.py
@@ -133,6 +133,7 @@ class SMTContext:
         #    if h.op != "=":
         #        h.quotient_ring_inject(B)
 
+        antecedent = self.antecedent
         if len(self.succedent) > 1:
             self.succedent.reverse()
             for h in self.succedent[1:]:
@@ -168,7 +169,7 @@ class SMTContext:
         hide_succedent = []
 
         i = 0
-        for h in self.antecedent:
+        for h in antecedent:
             if h in hyps_to_hide:
                 hide_antecedent += [i]
             i += 1
-- 
2.43.0


From 956156a993d7eb4cb3dff8f65c766b55ed4b0ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:18 +0000
Subject: [PATCH 22/23] fix: Cohen-Hormander progress line for a zero
 polynomial

---
 highschool_qe/cohenhorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index dad61ef..7783ef4 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -81,7 +81,7 @@ class CohenHormander:
     # pick the next polynomial (which is of maximum degree)
     max_poly = set.pop(0)
     
-    sys.stdout.write("\rdeg of max_poly: %d" %(self._algebra.degree(max_poly)))
+    sys.stdout.write("\rdeg of max_poly: %s" %(self._algebra.degree(max_poly)))
     sys.stdout.flush()
     
     # the sign of its leading coefficient has to be known
-- 
2.43.0


From bb90c5390c5cfdacbb9a003e596fde6bf5393ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:12 +0000
Subject: [PATCH 23/23] fix: partial elimination asks for signs by default

---
 highschool_qe/muchnik.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/highschool_qe/muchnik.py b/highschool_qe/muchnik.py
index 2c0a36b..cd94044 100644
--- a/highschool_qe/muchnik.py
+++ b/highschool_qe/muchnik.py
@@ -359,7 +359,7 @@ class Muchniker:
       diagram[p][column] = (0, p)
     return self.complex_extend(diagram, todo)
 
-  def complex_partial(self, ps, assigner = c_assignment_interactive):
+  def complex_partial(self, ps, assigner = None):
     """Partial Muchnik procedure over complexes
     
     Keyword arguments:
@@ -368,6 +368,8 @@ class Muchniker:
                 Either c_assignment_all_zero, c_assigment_all_one or
                 c_assigment_interactive
     """
+    if assigner is None:
+      assigner = self.c_assignment_interactive
     muchnik_seq = self.muchnik_sequence(
       sortedset([self._algebra.zero()], key = self._poly_deg_key), ps)
     
@@ -626,7 +628,7 @@ class Muchniker:
         diagram[q][right_new_col] = diagram[q][col]
     return self.real_extend(diagram, todo)
 
-  def real_partial(self, ps, assigner = r_assignment_interactive):
+  def real_partial(self, ps, assigner = None):
     """Partial Muchnik procedure over reals
     
     Keyword arguments:
@@ -635,6 +637,8 @@ class Muchniker:
                 Either r_assignment_all_pos, r_assigment_all_zero, 
                 r_assignment_all_neg or r_assigment_interactive
     """
+    if assigner is None:
+      assigner = self.r_assignment_interactive
     muchnik_seq = self.muchnik_sequence(
       sortedset([self._algebra.zero()], key = self._poly_deg_key), 
       ps
-- 
2.43.0

