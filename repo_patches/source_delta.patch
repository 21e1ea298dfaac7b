From ebb377b85de951c8edae9b91d1c1e437c735f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:18 +0000
Subject: [PATCH 1/4] fix: evaluate tests the value of the polynomial at the
 point

The term substitution procedure computed the value of each polynomial and
dropped it, then compared the builtin sum with zero.
---
 vts/uni_vts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vts/uni_vts.py b/vts/uni_vts.py
index f108d38..fc1cba9 100644
--- a/vts/uni_vts.py
+++ b/vts/uni_vts.py
@@ -777,7 +777,7 @@ def evaluate(point, le, lt, eq, ne):
       
   for (poly, strategy) in r_str:
     #print "  poly: %s" %poly
-    evaluate_poly(poly, point)
+    sum = evaluate_poly(poly, point)
     #print "  term values: %s" %map(lambda (c, p): c*point**p, terms)
     #print "  sum: %s" %sum
     if not strategy.condition(sum):
-- 
2.43.0


From 36b5513e6aad4b0f722cc10c5e24bb0174d1dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:44 +0000
Subject: [PATCH 2/4] fix: convert rejects irrational coefficients that sympy
 keeps as separate like terms

---
 vts/isym.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vts/isym.py b/vts/isym.py
index a23f4d4..bbc5415 100644
--- a/vts/isym.py
+++ b/vts/isym.py
@@ -36,6 +36,9 @@ def convert(poly):
   intterms = map(lambda (c,p): (c,int(p)), leadterms)
   degree = intterms[0][1]
   pow_lookup = {p: c for (c,p) in intterms}
+  # like terms are only kept apart when a coefficient is not rational
+  if len(pow_lookup) != len(intterms):
+    raise Exception("not rational")
 
 #  print "intterms: %s" %intterms
 #  print "pow_lookup: %s" %pow_lookup
-- 
2.43.0


From 121046e635ad848464a9708f4a1a78df7c7afa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:44 +0000
Subject: [PATCH 3/4] fix: convert turns the zero polynomial into the empty
 list

---
 vts/isym.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vts/isym.py b/vts/isym.py
index bbc5415..5ae71cf 100644
--- a/vts/isym.py
+++ b/vts/isym.py
@@ -19,11 +19,12 @@ def convert(poly):
       return []
     return [poly]
 
+  poly = poly.expand()
+
   symbols = poly.free_symbols
   if len(symbols) == 0:
-    return convert_rationals_to_ints([poly])
-
-  poly = poly.expand()
+    constant = convert_rationals_to_ints([poly])
+    return [] if constant == [0] else constant
 
   if len(symbols) > 1:
     raise Exception("more than one symbol")
-- 
2.43.0


From 6016b98ee01bd8c0eb12943a00c3cd6bb02b1365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:57 +0000
Subject: [PATCH 4/4] fix: parsing a variable no longer assigns to a global of
 the parser

---
 vts/grf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vts/grf_parser.py b/vts/grf_parser.py
index ed9cbc0..b776b42 100644
--- a/vts/grf_parser.py
+++ b/vts/grf_parser.py
@@ -15,7 +15,7 @@ def doInt(s,l,t):
 
     
 def doVariable(s, l, t):
-  return sympy.var(t[0])
+  return sympy.Symbol(t[0])
   #return sympy.var('x')
   
 def proc_le(s, l, t):
-- 
2.43.0

