From 7f05e9bde52a5a43b44999bafac0151b358106f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 1/9] fix: 2 ** (4 * k) is 16 modulo 30, not 15

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index 20a4360..8005adc 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -901,7 +901,7 @@ class Exp(Num):
                             case 3:
                                 return 8
                             case 0:  # no-cover
-                                return 15
+                                return 16
                             case 1:  # no-cover
                                 return 2
                             case 2:  # no-cover
-- 
2.43.0


From b27a26bacf52804e4a65863c5fd5fa5221e79d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 2/9] fix: powers of 3 modulo powers of 2

Modulo 4 the period is 2, not 1, so odd powers of 3 are 3. And log2 of a
big int is rounded, so the modulus was taken for a power of 2 when it was
only near to one.
---
 tm/num.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 8005adc..0f6ca9a 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 
 import itertools
 from abc import abstractmethod
-from math import sqrt, floor, ceil, log, log2, log10, gcd as pgcd
+from math import sqrt, floor, ceil, log, log10, gcd as pgcd
 from functools import cache
 from collections import defaultdict
 
@@ -911,8 +911,8 @@ class Exp(Num):
                 if mod == 6:
                     return 3
 
-                if int(log_mod := log2(mod)) == log_mod:  # no-branch
-                    exp %= int(2 ** (int(log_mod) - 2))
+                if 8 <= mod and mod & (mod - 1) == 0:  # no-branch
+                    exp %= mod // 4
 
             case 6:
                 if mod == 10:  # no-branch
-- 
2.43.0


From d47147db189a35c7cb2001f16e797394c02232ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 3/9] fix: a power is not divisible by a higher power of its
 base

---
 tm/num.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tm/num.py b/tm/num.py
index 0f6ca9a..366c1ac 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -1321,6 +1321,9 @@ def gcd(l: int, r: Count) -> int:
 
     blog = int(log(l, base))
 
+    if isinstance(exp := r.exp, int):
+        blog = min(blog, exp)
+
     over = base ** blog
 
     for _ in itertools.count():
-- 
2.43.0


From 484d26d5f6fd312d08ff0f13ab397d9d9152708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 4/9] fix: adding quotients whose denominators merely share a
 factor

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index 366c1ac..1f82d79 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -719,7 +719,7 @@ class Div(Num):
         if den < oden:
             return other + self
 
-        if pgcd(den, oden) > 1:
+        if den % oden == 0:
             return (num + ((den // oden) * other.num)) // den
 
         return ((oden * num) + (den * other.num)) // (den * oden)
-- 
2.43.0


From 12493f85ed467dfe52296d9addf8d44727e86aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 5/9] fix: take square roots of the base of a power exactly

sqrt and log round, so a big base that is not a square was taken for one,
and some that are lost half of their exponent.
---
 tm/num.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 1f82d79..437df54 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 
 import itertools
 from abc import abstractmethod
-from math import sqrt, floor, ceil, log, log10, gcd as pgcd
+from math import isqrt, ceil, log, log10, gcd as pgcd
 from functools import cache
 from collections import defaultdict
 
@@ -805,11 +805,11 @@ def make_exp(base: int, exp: Count) -> Exp:
             exp *= 3
             break
 
-        if floor(root := sqrt(base)) != ceil(root):
+        if (root := isqrt(base)) ** 2 != base:
             break
 
-        exp *= int(log(base, root))
-        base = int(root)
+        exp *= 2
+        base = root
 
     exps = EXPS[base]
 
-- 
2.43.0


From 40c95fc9b7085ced8a03822354dbe9331883680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:01 +0000
Subject: [PATCH 6/9] fix: an affine rule has to explain every pair of counts

---
 tm/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tm/rules.py b/tm/rules.py
index 6b007ad..9b56a0d 100644
--- a/tm/rules.py
+++ b/tm/rules.py
@@ -109,8 +109,8 @@ def calculate_diff(*counts: Count) -> Op | None:
 
     div_diff = count_2 - (count_1 * (1 + div))
 
-    if all(aft - (bef * (1 + divv)) == div_diff
-           for bef, aft, divv, _ in divmods):
+    if all(aft - (bef * (1 + div)) == div_diff
+           for bef, aft, _, _ in divmods):
         return 1 + div, div_diff
 
     for add, sub in POSSIBLE_RULE_PAIRS:
-- 
2.43.0


From 69402dcc7c37c46b63a8ba27c01fdac85c4ee308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:16 +0000
Subject: [PATCH 7/9] fix: a program's macro parameters cover the states and
 colours it only prints or enters

prog_params counted the slots that have an instruction, so a colour that is
printed but never read by a defined slot was not counted: the macro colours of
different tapes then coincided.
---
 tm/macro.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tm/macro.py b/tm/macro.py
index 097d68b..a28c012 100644
--- a/tm/macro.py
+++ b/tm/macro.py
@@ -126,8 +126,15 @@ def prog_params(comp: GetInstr) -> Params:
     else:
         assert isinstance(comp, dict)
 
-        base_states = len(set(map(lambda s: s[0], comp)))
-        base_colors = len(set(map(lambda s: s[1], comp)))
+        base_states = 1 + max(
+            (max(state, trans)
+             for (state, _), (_, _, trans) in comp.items()),
+            default = 0)
+
+        base_colors = 1 + max(
+            (max(color, pr)
+             for (_, color), (pr, _, _) in comp.items()),
+            default = 0)
 
     return base_states, base_colors
 
-- 
2.43.0


From e02d6cd8216d3a0a3952e764a00fa88004bc0c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:26 +0000
Subject: [PATCH 8/9] fix: subtract a decreasing count when a rule is applied
 (rules.rs)

---
 src/rules.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rules.rs b/src/rules.rs
index 43a6fbf..3718bf2 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -170,9 +170,13 @@ pub fn apply_rule(
 }
 
 fn apply_plus(count: Count, diff: Diff, times: Count) -> Option<Count> {
-    let diff: Count = diff.unsigned_abs().into();
+    let absdiff: Count = diff.unsigned_abs().into();
 
-    let mult = diff.checked_mul(times)?;
+    let mult = absdiff.checked_mul(times)?;
 
-    Some(count + mult)
+    if diff < 0 {
+        count.checked_sub(mult)
+    } else {
+        Some(count + mult)
+    }
 }
-- 
2.43.0


From c820e40b9d9488e98de721cc9ba70758284f1e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:18 +0000
Subject: [PATCH 9/9] fix: py_segment_cant_halt counted only slots that have an
 instruction

States and colours that are only entered or printed were left out of the
parameters: the machine halting on a state without a row panicked, and
1RB 2LA 2RA ...  1LB 1LA 3RB ... was said never to halt (it halts after 9
steps, reading a 3).
---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b6dcbf..913a9cd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,9 +83,12 @@ mod wrappers {
     ) -> Option<usize> {
         let prog = &CompProg::from_str(prog);
 
-        let (states, colors) = prog
-            .keys()
-            .fold((0, 0), |acc, &(a, b)| (acc.0.max(a), acc.1.max(b)));
+        let (states, colors) = prog.iter().fold(
+            (0, 0),
+            |(ms, mc), (&(ss, sc), &(ic, _, is))| {
+                (ms.max(ss).max(is), mc.max(sc).max(ic))
+            },
+        );
 
         let params = (1 + states, 1 + colors);
 
-- 
2.43.0

