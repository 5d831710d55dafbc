From 7cb228b60c906a66950be6e8d2479f34366a5bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 001/105] fix: ambiguous names in a substitutions dict raise
 ValueError for scalar variables too

---
 gpkit/keydict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index bc86f5d..ed56b61 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -69,7 +69,8 @@ class KeyMap:
             raise KeyError(key)
         newkey, *otherkeys = self.cset.varkeys[key]
         if otherkeys:
-            if all(k.veckey == newkey.veckey for k in otherkeys):
+            if (newkey.veckey
+                    and all(k.veckey == newkey.veckey for k in otherkeys)):
                 return newkey.veckey, None
             raise ValueError("%s refers to multiple keys in this substitutions"
                              " KeyDict. Use `.variables_byname(%s)` to see all"
-- 
2.43.0


From b1cee7c722379b46fc180ddb8f7bbdd41c353ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 002/105] fix: deleting a vector element or an absent name
 keeps a KeyDict consistent

---
 gpkit/keydict.py | 46 +++++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index ed56b61..b4f34ed 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -251,33 +251,29 @@ class KeyDict(KeyMap, dict):
         "Overloads del [] to work with all keys"
         if not hasattr(key, "key"):  # not a keyed object
             self.update_keymap()
-            keys = self.keymap[key]
-            if not keys:
+            if key in self.keymap:
+                for k in self.keymap[key]:
+                    del self[k]
+                return
+            if key not in self:
                 raise KeyError(key)
-            for k in keys:
-                del self[k]
+        key, idx = self.parse_and_index(key)
+        if idx is None:
+            super().__delitem__(key)
         else:
-            key = key.key
-            veckey, idx = self.parse_and_index(key)
-            if idx is None:
-                super().__delitem__(key)
-            else:
-                super().__getitem__(veckey)[idx] = np.nan
-                if isnan(super().__getitem__(veckey)).all():
-                    super().__delitem__(veckey)
-            copiedonwrite = set()  # to save time, .update() does not copy
-            mapkeys = set([key])
-            if key.keys:
-                mapkeys.update(key.keys)
-            for mapkey in mapkeys:
-                if mapkey in self.keymap:
-                    if len(self.keymap[mapkey]) == 1:
-                        del self.keymap[mapkey]
-                        continue
-                    if mapkey not in copiedonwrite:
-                        self.keymap[mapkey] = set(self.keymap[mapkey])
-                        copiedonwrite.add(mapkey)
-                    self.keymap[mapkey].remove(key)
+            self._copyonwrite(key)
+            super().__getitem__(key)[idx] = np.nan
+            if not isnan(super().__getitem__(key)).all():
+                return  # the vector's other elements still have values
+            super().__delitem__(key)
+        self.owned.discard(key)
+        self._unmapped_keys.discard(key)
+        for mapkey in set([key]).union(key.keys):
+            if key in self.keymap.get(mapkey, ()):
+                # not in place, because .update() does not copy these sets
+                self.keymap[mapkey] = self.keymap[mapkey].difference([key])
+                if not self.keymap[mapkey]:
+                    del self.keymap[mapkey]
 
 
 class KeySet(KeyMap, set):
-- 
2.43.0


From 63d987833aad25e989cb0e843f52fe0e9f0f0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 003/105] fix: KeyDicts store numbers given for a vector in
 double precision

---
 gpkit/keydict.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index b4f34ed..e112226 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -227,7 +227,7 @@ class KeyDict(KeyMap, dict):
         if key.shape: # now if we're setting an array...
             if getattr(value, "shape", None):   # is the value an array?
                 if value.dtype == INT_DTYPE:
-                    value = np.array(value, "f")  # convert to float
+                    value = np.array(value, "float")
                 if dict.__contains__(self, key):
                     old = super().__getitem__(key)
                     if old.dtype != value.dtype:
@@ -241,9 +241,11 @@ class KeyDict(KeyMap, dict):
                     return  # successfully set only some indexes!
             elif not is_sweepvar(value): # or needs to be made one?
                 if not hasattr(value, "__len__"):
-                    value = np.full(key.shape, value, "f")
+                    value = np.full(key.shape, value, "float")
                 elif not isinstance(value[0], np.ndarray):
                     value = np.array([clean_value(key, v) for v in value])
+                    if value.dtype == INT_DTYPE:
+                        value = np.array(value, "float")
         super().__setitem__(key, value)
         self.owned.add(key)
 
-- 
2.43.0


From b9fe729630e6692dffc2b0646755b60b26ed29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 004/105] fix: an array can replace vector elements holding
 linked functions

---
 gpkit/keydict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index e112226..c8b02bf 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -232,7 +232,8 @@ class KeyDict(KeyMap, dict):
                     old = super().__getitem__(key)
                     if old.dtype != value.dtype:
                         # e.g. replacing a number with a linked function
-                        newly_typed_array = np.array(old, dtype=value.dtype)
+                        dtype = np.result_type(old, value)
+                        newly_typed_array = np.array(old, dtype=dtype)
                         super().__setitem__(key, newly_typed_array)
                         self.owned.add(key)
                     self._copyonwrite(key)
-- 
2.43.0


From fb3ec74d3360f64dcbef6f682bea82bd469485c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 005/105] fix: isnan handles sequences such as sweeps

---
 gpkit/small_scripts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index 3d282d2..e0658c3 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -17,7 +17,7 @@ def isnan(element):
     "Determine if something of arbitrary type is a numpy nan."
     try:
         return np.isnan(element)
-    except TypeError:
+    except (TypeError, ValueError):
         return False
 
 
-- 
2.43.0


From 93674f82e4df22e7480bc627aedcf6f297df42e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 006/105] fix: recognize sweeps by the value of the string
 'sweep', not its identity

---
 gpkit/small_scripts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index e0658c3..fff8454 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -51,8 +51,9 @@ def splitsweep(sub):
     "Splits a substitution into (is_sweepvar, sweepval)"
     try:
         sweep, value = sub
-        if sweep is "sweep" and (isinstance(value, Iterable) or  # pylint: disable=literal-comparison
-                                 hasattr(value, "__call__")):
+        if (isinstance(sweep, str) and sweep == "sweep"
+                and (isinstance(value, Iterable)
+                     or hasattr(value, "__call__"))):
             return True, value
     except (TypeError, ValueError):
         pass
-- 
2.43.0


From 5361d6fcb1eef4d18221a5f7d1c3059a0800e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 007/105] fix: copies of a KeyDict do not share arrays that
 either may write to

---
 gpkit/keydict.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index c8b02bf..a6db601 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -150,6 +150,7 @@ class KeyDict(KeyMap, dict):
         "Iterates through the dictionary created by args and kwargs"
         if not self and len(args) == 1 and isinstance(args[0], KeyDict):
             super().update(args[0])
+            args[0].owned = set()  # its arrays are now shared with this
             self.keymap.update(args[0].keymap)
             self._unmapped_keys.update(args[0]._unmapped_keys)  # pylint:disable=protected-access
         else:
@@ -247,6 +248,8 @@ class KeyDict(KeyMap, dict):
                     value = np.array([clean_value(key, v) for v in value])
                     if value.dtype == INT_DTYPE:
                         value = np.array(value, "float")
+        if isinstance(value, np.ndarray):
+            value = value.copy()  # the original may be written to elsewhere
         super().__setitem__(key, value)
         self.owned.add(key)
 
-- 
2.43.0


From 2bc94b78695d0c2c8fb109383ef60ec7d6386921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 008/105] fix: (polynomial)**0 is 1, and powers print their
 exponent

---
 gpkit/nomials/math.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index d9142b1..f84415e 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -236,10 +236,9 @@ class Signomial(Nomial):
 
     def __pow__(self, expo):
         if isinstance(expo, int) and expo >= 0:
-            p = 1
-            while expo > 0:
+            p = Signomial(NomialMap({EMPTY_HV: 1.0}))
+            for _ in range(expo):
                 p *= self
-                expo -= 1
             p.ast = ("pow", (self, expo))
             return p
         return NotImplemented
-- 
2.43.0


From c0f7534bac47c363ba31ca0d29050fe0bc21e165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 009/105] fix: 0/x is 0

---
 gpkit/nomials/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index f84415e..6b234d7 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -313,7 +313,8 @@ class Monomial(Posynomial):
         "Divide other by this Monomial"
         if isinstance(other, Numbers + (Signomial,)):
             out = other * self**-1
-            out.ast = ("div", (other, self))
+            if hasattr(out, "hmap"):  # it's just a number if other is zero
+                out.ast = ("div", (other, self))
             return out
         return NotImplemented
 
-- 
2.43.0


From a3ae633d00203a917a3e8ee81dddba23910e772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 010/105] fix: leaving a nested SignomialsEnabled keeps the
 enclosing one

---
 gpkit/globals.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gpkit/globals.py b/gpkit/globals.py
index 62b5bff..8ad94fa 100644
--- a/gpkit/globals.py
+++ b/gpkit/globals.py
@@ -66,8 +66,12 @@ class SignomialsEnabled(metaclass=SignomialsEnabledMeta):  # pylint: disable=no-
     """
     _true = False  # default signomial permissions
     # pylint: disable=multiple-statements
-    def __enter__(self): SignomialsEnabled._true = True
-    def __exit__(self, type_, val, traceback): SignomialsEnabled._true = False
+    def __init__(self): self._previous = []
+    def __enter__(self):
+        self._previous.append(SignomialsEnabled._true)
+        SignomialsEnabled._true = True
+    def __exit__(self, type_, val, traceback):
+        SignomialsEnabled._true = self._previous.pop()
 
 
 class Vectorize:
-- 
2.43.0


From 4fbb68f0fafa4dd648f4d300b7f30cd494c21da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 011/105] fix: a nomial whose terms all cancel is zero

---
 gpkit/nomials/map.py  | 2 ++
 gpkit/nomials/math.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 5c05a6a..e61e666 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -60,6 +60,8 @@ class NomialMap(HashVector):
             except (TypeError, AttributeError):  # if one of those is None
                 raise DimensionalityError(self.units, other.units)
         hmap = HashVector.__add__(self, other)
+        if len(hmap) > 1 and hmap.get(EMPTY_HV) == 0:
+            del hmap[EMPTY_HV]  # the zero nomial was added
         hmap.units = self.units
         return hmap
 
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 6b234d7..fee4102 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -54,6 +54,8 @@ class Signomial(Nomial):
                 raise ValueError("Nomial construction accepts only NomialMaps,"
                                  " objects with an .hmap attribute, numbers,"
                                  " or *(exp dict of strings, number).")
+        if not hmap:  # everything cancelled
+            hmap[EMPTY_HV] = 0.0
         super().__init__(hmap)
         if self.any_nonpositive_cs:
             if require_positive and not SignomialsEnabled:
-- 
2.43.0


From 045be1ed1f0e3461795e35bb03071e5fcaedb59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 012/105] fix: comparing unequal multiples of a monomial is
 False instead of raising

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index fee4102..cd98793 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -338,7 +338,7 @@ class Monomial(Posynomial):
         if isinstance(other, MONS):
             try:  # if both are monomials, return a constraint
                 return MonomialEquality(self, other)
-            except (DimensionalityError, ValueError) as e:
+            except (DimensionalityError, ValueError, PrimalInfeasible) as e:
                 print("Infeasible monomial equality: %s" % e)
                 return False
         return super().__eq__(other)
-- 
2.43.0


From 87bd50b0c6001a6c5b04b2808fc2dfbf389bae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 013/105] fix: comparing a monomial to a number that is not
 positive is False

---
 gpkit/nomials/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index cd98793..555323f 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -337,6 +337,8 @@ class Monomial(Posynomial):
     def __eq__(self, other):
         if isinstance(other, MONS):
             try:  # if both are monomials, return a constraint
+                if isinstance(other, Numbers) and mag(other) <= 0:
+                    raise ValueError("'%s' cannot be %s." % (self, other))
                 return MonomialEquality(self, other)
             except (DimensionalityError, ValueError, PrimalInfeasible) as e:
                 print("Infeasible monomial equality: %s" % e)
-- 
2.43.0


From 657a04b4461f686f76df87b2694682eb4b4f5cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 014/105] fix: unit conversions are cached by unit, not by the
 id of a unit object

---
 gpkit/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/units.py b/gpkit/units.py
index 39c3f18..08ad431 100644
--- a/gpkit/units.py
+++ b/gpkit/units.py
@@ -34,7 +34,7 @@ class GPkitUnits:
         "Cached unit division. Requires Quantity inputs."
         if numerator.units is denominator.units:
             return 1
-        key = (id(numerator.units), id(denominator.units))
+        key = (numerator.units, denominator.units)
         try:
             return self.division_cache[key]
         except KeyError:
-- 
2.43.0


From 4eeedeba062b61ef9ccfadce0a2b9c5ff663b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 015/105] fix: dimensionless units such as percent and radians
 add to plain numbers

---
 gpkit/nomials/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index e61e666..8d46cbb 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -56,8 +56,8 @@ class NomialMap(HashVector):
         "Adds NomialMaps together"
         if self.units != other.units:
             try:
-                other *= float(other.units/self.units)
-            except (TypeError, AttributeError):  # if one of those is None
+                other *= units.of_division(other, self)
+            except DimensionalityError:
                 raise DimensionalityError(self.units, other.units)
         hmap = HashVector.__add__(self, other)
         if len(hmap) > 1 and hmap.get(EMPTY_HV) == 0:
-- 
2.43.0


From 3025931603b42350600410b60bc0aba3b74573a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 016/105] fix: a scalar Quantity can be substituted for a
 vector variable or its elements

---
 gpkit/nomials/substitution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index 4e26b9a..2ca2abc 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -1,7 +1,7 @@
 "Scripts to parse and collate substitutions"
 import warnings as pywarnings
 import numpy as np
-from ..small_scripts import splitsweep
+from ..small_scripts import splitsweep, mag
 from ..keydict import KeySet
 
 
@@ -38,7 +38,8 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
     if sweepsub:  # if the whole key is swept
         sub = sweepval
     for key in keys:
-        if not key.shape or not getattr(sub, "shape", hasattr(sub, "__len__")):
+        if (not key.shape or  # note that all Quantities have a __len__
+                not getattr(sub, "shape", hasattr(mag(sub), "__len__"))):
             value = sub
         else:
             with pywarnings.catch_warnings():
-- 
2.43.0


From 648c72d0717b5025330322ec3a1f8c7b0715c0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 017/105] fix: derivatives whose units cancel keep the
 conversion factor

---
 gpkit/nomials/map.py  | 4 ++--
 gpkit/nomials/math.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 8d46cbb..2943332 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -68,8 +68,6 @@ class NomialMap(HashVector):
     def diff(self, varkey):
         "Differentiates a NomialMap with respect to a varkey"
         out = NomialMap()
-        out.units_of_product(self.units,
-                             1/varkey.units if varkey.units else None)
         for exp in self:
             if varkey in exp:
                 x = exp[varkey]
@@ -82,6 +80,8 @@ class NomialMap(HashVector):
                     exp.hashvalue ^= hash((varkey, x)) ^ hash((varkey, x-1))
                     exp[varkey] = x-1
                 out[exp] = c
+        out.units_of_product(self.units,
+                             1/varkey.units if varkey.units else None)
         return out
 
     def sub(self, substitutions, varkeys, parsedsubs=False):
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 555323f..799fd3b 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -122,10 +122,11 @@ class Signomial(Nomial):
                              " into %s" % (psub, x0, self))
         c0, = psub.values()
         c, exp = c0, HashVector()
+        unitless = self.hmap.copy()  # NOTE: copies don't keep units
         for vk in self.vks:
             val = float(x0[vk])
-            diff, = self.hmap.diff(vk).sub(x0, self.vks,
-                                           parsedsubs=True).values()
+            diff, = unitless.diff(vk).sub(x0, self.vks,
+                                          parsedsubs=True).values()
             e = val*diff/c0
             if e:
                 exp[vk] = e
-- 
2.43.0


From e4a7638725ad97df160c7cda44fbed8a8141d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 018/105] fix: zero substituted into a denominator or using up
 all slack is PrimalInfeasible

---
 gpkit/nomials/map.py  | 2 +-
 gpkit/nomials/math.py | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 2943332..d0b9a47 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -170,7 +170,7 @@ class NomialMap(HashVector):
 def subinplace(cp, exp, o_exp, vk, cval, squished):
     "Modifies cp by substituing cval/expval for vk in exp"
     x = exp[vk]
-    powval = float(cval)**x if cval != 0 or x >= 0 else np.sign(cval)*np.inf
+    powval = float(cval)**x if cval != 0 or x >= 0 else np.inf
     cp.csmap[o_exp] *= powval
     if exp in cp:
         c = cp.pop(exp)
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 799fd3b..09d875e 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -434,8 +434,8 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             self.const_coeff = coeff  # pylint: disable=attribute-defined-outside-init
         if coeff >= -self.feastol and len(hmap) == 1:
             return None   # a tautological monomial!
-        if coeff < -self.feastol:
-            msg = "'%s' is infeasible by %.2g%%" % (self, -coeff*100)
+        if coeff < -self.feastol or (coeff <= 0 and len(hmap) > 1):
+            msg = "'%s' is infeasible by %.2g%%" % (self, abs(coeff)*100)
             if fixed:
                 msg += " after substituting %s." % fixed
             raise PrimalInfeasible(msg)
@@ -478,6 +478,9 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             del hmap.expmap, hmap.csmap  # needed only for the mmap call above
             hmap = self._simplify_posy_ineq(hmap, self.pmap, fixed)
             if hmap is not None:
+                if any(np.isposinf(c) for c in hmap.values()):
+                    raise PrimalInfeasible("'%s' is infeasible after"
+                                           " substituting %s." % (self, fixed))
                 if any(c <= 0 for c in hmap.values()):
                     raise InvalidGPConstraint("'%s' became Signomial after sub"
                                               "stituting %s" % (self, fixed))
-- 
2.43.0


From 0d5e74115a0970e167b43fe0396a83a5afdd2319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 019/105] fix: structurally always-true or impossible signomial
 constraints

---
 gpkit/exceptions.py   |  3 +++
 gpkit/nomials/math.py | 34 +++++++++++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/gpkit/exceptions.py b/gpkit/exceptions.py
index 36760a6..da022d5 100644
--- a/gpkit/exceptions.py
+++ b/gpkit/exceptions.py
@@ -34,5 +34,8 @@ class UnknownInfeasible(Infeasible):
 class PrimalInfeasible(Infeasible):
     "Raised if a model returns a certificate of primal infeasibility"
 
+class InfeasibleSignomial(PrimalInfeasible, ValueError):
+    "Raised if a signomial constraint is impossible after substitution"
+
 class DualInfeasible(Infeasible):
     "Raised if a model returns a certificate of dual infeasibility"
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 09d875e..04e9b7a 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -11,7 +11,8 @@ from ..small_classes import HashVector, EMPTY_HV
 from ..varkey import VarKey
 from ..small_scripts import mag
 from ..exceptions import (InvalidGPConstraint, InvalidPosynomial,
-                          PrimalInfeasible, DimensionalityError)
+                          PrimalInfeasible, InfeasibleSignomial,
+                          DimensionalityError)
 from .map import NomialMap
 from .substitution import parse_subs
 
@@ -272,6 +273,9 @@ class Posynomial(Signomial):
     __hash__ = Signomial.__hash__
 
     def __le__(self, other):
+        if (SignomialsEnabled and isinstance(other, Numbers)
+                and mag(other) <= 0):
+            return SignomialInequality(self, "<=", other)
         if isinstance(other, Numbers + (Monomial,)):
             return PosynomialInequality(self, "<=", other)
         return NotImplemented
@@ -347,6 +351,9 @@ class Monomial(Posynomial):
         return super().__eq__(other)
 
     def __ge__(self, other):
+        if (SignomialsEnabled and isinstance(other, Numbers)
+                and mag(other) <= 0):
+            return SignomialInequality(self, ">=", other)
         if isinstance(other, Numbers + (Posynomial,)):
             return PosynomialInequality(self, ">=", other)
         # elif isinstance(other, np.ndarray):
@@ -584,7 +591,9 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         else:
             raise ValueError("operator %s is not supported." % self.oper)
         self.unsubbed = [plt - pgt]
-        self.bounded = self.as_gpconstr({}).bounded
+        posy, negy = self.unsubbed[0].posy_negy()
+        # a constraint without positive or negative terms bounds nothing
+        self.bounded = self.as_gpconstr({}).bounded if posy and negy else set()
 
     def as_hmapslt1(self, substitutions):
         "Returns the posys <= 1 representation of this constraint."
@@ -596,8 +605,16 @@ class SignomialInequality(ScalarSingleEquationConstraint):
                   " constraint 0 <= %s after substitution." % (self, negy))
             return []
         if negy is 0:  # pylint: disable=literal-comparison
-            raise ValueError("%s became the infeasible constraint %s <= 0"
-                             " after substitution." % (self, posy))
+            if not posy.vks:  # is it a tautology up to the tolerance?
+                subbed = self.unsubbed[0].hmap.sub(substitutions, self.vks)
+                const = [subbed.csmap.get(exp, c)
+                         for exp, c in self.unsubbed[0].hmap.items()]
+                if (sum(const) <= PosynomialInequality.feastol
+                        * -sum(c for c in const if c < 0)):
+                    return []
+            raise InfeasibleSignomial("%s became the infeasible constraint %s"
+                                      " <= 0 after substitution."
+                                      % (self, posy))
         if hasattr(negy, "cs") and len(negy.cs) > 1:
             raise InvalidGPConstraint(
                 "%s did not simplify to a PosynomialInequality; try calling"
@@ -683,10 +700,17 @@ class SingleSignomialEquality(SignomialInequality):
     def __init__(self, left, right):
         SignomialInequality.__init__(self, left, "<=", right)
         self.oper = "="
-        self.meq_bounded = self.as_gpconstr({}).meq_bounded
+        posy, negy = self.unsubbed[0].posy_negy()
+        if posy and negy:
+            self.meq_bounded = self.as_gpconstr({}).meq_bounded
 
     def as_hmapslt1(self, substitutions):
         "SignomialEquality is never considered GP-compatible"
+        posy, negy = self.unsubbed[0].posy_negy()
+        if not posy and not negy:
+            return []  # both sides are identical
+        if not posy or not negy:
+            raise InfeasibleSignomial("%s can never hold." % self)
         raise InvalidGPConstraint(self)
 
     def as_gpconstr(self, x0):
-- 
2.43.0


From 1bc320836206cdb48f57f5c04f20d5e9063a8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 020/105] fix: zero and negative substitutions into either side
 of a constraint

---
 gpkit/nomials/map.py  |  4 ++--
 gpkit/nomials/math.py | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index d0b9a47..5600b6c 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -158,8 +158,8 @@ class NomialMap(HashVector):
         origexps = list(orig.keys())
         selfexps = list(self.keys())
         for orig_exp, self_exp in self.expmap.items():
-            if self_exp not in self:  # can occur in tautological constraints
-                continue              #     after substitution
+            if not self.get(self_exp):  # can occur in tautological constraints
+                continue                #     after substitution
             fraction = self.csmap.get(orig_exp, orig[orig_exp])/self[self_exp]
             orig_idx = origexps.index(orig_exp)
             pmap[selfexps.index(self_exp)][orig_idx] = fraction
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 04e9b7a..77dba9a 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -475,9 +475,48 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         hmap = self._simplify_posy_ineq(hmap)
         return [Posynomial(hmap)] if hmap else []
 
+    def _check_signs(self, substitutions):
+        """Returns True if always true because a side has become nonpositive.
+
+        The posys <= 1 representation divides by the greater-than side, and so
+        is equivalent to the constraint only when that side is positive.
+        """
+        fixed, _, _ = parse_subs(self.vks, substitutions, clean=True)
+        if all(mag(value) > 0 for value in fixed.values()):
+            return False
+        p_lt, m_gt = self.left, self.right
+        if self.oper == ">=":
+            p_lt, m_gt = m_gt, p_lt
+        p_hmap, m_hmap = (side.hmap.sub(fixed, self.vks, parsedsubs=True)
+                          for side in (p_lt, m_gt))
+        (m_exp, m_c), = m_hmap.items()
+        m_c *= units.of_division(m_gt, p_lt)
+        p_c = sum(p_hmap.values())
+        if not any(p_hmap.values()) and m_c == 0:
+            return True
+        if self.oper == "=":
+            impossible = not p_c * m_c > 0
+        elif m_c > 0:
+            impossible = False
+        elif all(c >= 0 for c in p_hmap.values()):
+            impossible = True
+        elif not m_exp and not any(p_hmap):  # both sides are constant
+            impossible = p_c - m_c > self.feastol*abs(m_c)
+            if not impossible:
+                return True
+        else:
+            raise InvalidGPConstraint("'%s' became Signomial after sub"
+                                      "stituting %s" % (self, fixed))
+        if impossible:
+            raise PrimalInfeasible("'%s' is infeasible after substituting %s."
+                                   % (self, fixed))
+        return False
+
     def as_hmapslt1(self, substitutions):
         "Returns the posys <= 1 representation of this constraint."
         out = []
+        if self._check_signs(substitutions):
+            return out
         for posy in self.unsubbed:
             fixed, _, _ = parse_subs(posy.vks, substitutions, clean=True)
             hmap = posy.hmap.sub(fixed, posy.vks, parsedsubs=True)
-- 
2.43.0


From f977c0b59aca290d6870e889b31ca3c4fe893e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 021/105] fix: keep compilation data with the program it was
 compiled for

---
 gpkit/constraints/gp.py |  2 ++
 gpkit/nomials/math.py   | 30 +++++++++++++++++++++---------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 06ed88b..1ea4cc0 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -309,8 +309,10 @@ class GeometricProgram:
         gpv_ss = cost_senss.copy()
         m_senss = defaultdict(float)
         for las, nus, c in zip(la[1:], self.nu_by_posy[1:], self.hmaps[1:]):
+            solvedata = getattr(c, "solvedata", {})
             while getattr(c, "parent", None) is not None:
                 c = c.parent
+            vars(c).update(solvedata)  # as compiled for this program
             v_ss, c_senss = c.sens_from_dual(las, nus, result)
             for vk, x in v_ss.items():
                 gpv_ss[vk] = x + gpv_ss.get(vk, 0)
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 77dba9a..1982c64 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -413,6 +413,7 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
     """
     feastol = 1e-3
     # NOTE: follows .check_result's max default, but 1e-3 seems a bit lax...
+    pmap = const_mmap = const_coeff = None
 
     def __init__(self, left, oper, right):
         ScalarSingleEquationConstraint.__init__(self, left, oper, right)
@@ -437,8 +438,8 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         coeff = 1 - hmap[EMPTY_HV]
         if pmap is not None:  # note constant term's mmap
             const_idx = list(hmap.keys()).index(EMPTY_HV)
-            self.const_mmap = self.pmap.pop(const_idx)  # pylint: disable=attribute-defined-outside-init
-            self.const_coeff = coeff  # pylint: disable=attribute-defined-outside-init
+            self.const_mmap = self.pmap.pop(const_idx)
+            self.const_coeff = coeff
         if coeff >= -self.feastol and len(hmap) == 1:
             return None   # a tautological monomial!
         if coeff < -self.feastol or (coeff <= 0 and len(hmap) > 1):
@@ -520,7 +521,7 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         for posy in self.unsubbed:
             fixed, _, _ = parse_subs(posy.vks, substitutions, clean=True)
             hmap = posy.hmap.sub(fixed, posy.vks, parsedsubs=True)
-            self.pmap = hmap.mmap(posy.hmap)  # pylint: disable=attribute-defined-outside-init
+            self.pmap, self.const_mmap = hmap.mmap(posy.hmap), None
             del hmap.expmap, hmap.csmap  # needed only for the mmap call above
             hmap = self._simplify_posy_ineq(hmap, self.pmap, fixed)
             if hmap is not None:
@@ -531,23 +532,27 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
                     raise InvalidGPConstraint("'%s' became Signomial after sub"
                                               "stituting %s" % (self, fixed))
                 hmap.parent = self
+                # a constraint's programs each keep their own mappings
+                hmap.solvedata = {"pmap": self.pmap,
+                                  "const_mmap": self.const_mmap,
+                                  "const_coeff": self.const_coeff}
                 out.append(hmap)
         return out
 
     def sens_from_dual(self, la, nu, _):
         "Returns the variable/constraint sensitivities from lambda/nu"
         presub, = self.unsubbed
-        if hasattr(self, "pmap"):
+        if self.pmap is not None:
             nu_ = np.zeros(len(presub.hmap))
             for i, mmap in enumerate(self.pmap):
                 for idx, percentage in mmap.items():
                     nu_[idx] += percentage*nu[i]
-            del self.pmap  # not needed after dual has been derived
-            if hasattr(self, "const_mmap"):
+            self.pmap = None  # not needed after dual has been derived
+            if self.const_mmap is not None:
                 scale = (1-self.const_coeff)/self.const_coeff
                 for idx, percentage in self.const_mmap.items():
                     nu_[idx] += percentage * la*scale
-                del self.const_mmap  # not needed after dual has been derived
+                self.const_mmap = None  # not needed after dual has been derived
             nu = nu_
         self.v_ss = HashVector()
         if self.parent:
@@ -594,6 +599,8 @@ class MonomialEquality(PosynomialInequality):
         out = super().as_hmapslt1(substitutions)
         for h in out:
             h.from_meq = True  # pylint: disable=attribute-defined-outside-init
+        if out:
+            out[0].solvedata["_las"] = []
         return out
 
     def __bool__(self):
@@ -603,7 +610,7 @@ class MonomialEquality(PosynomialInequality):
 
     def sens_from_dual(self, la, nu, _):
         "Returns the variable/constraint sensitivities from lambda/nu"
-        self._las.append(la)
+        self._las = self._las + [la]
         if len(self._las) == 1:
             return {}, 0
         la = self._las[0] - self._las[1]
@@ -680,7 +687,12 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         self._sigvars = {exp: (list(self._negysig.vks)
                                + list(sig.vks))
                          for exp, sig in self._coeffsigs.items()}
-        return p_ineq.as_hmapslt1(substitutions)
+        out = p_ineq.as_hmapslt1(substitutions)
+        for hmap in out:  # a constraint's programs each keep their own data
+            hmap.solvedata = {"_mons": self._mons, "_negysig": self._negysig,
+                              "_coeffsigs": self._coeffsigs,
+                              "_sigvars": self._sigvars}
+        return out
 
     def sens_from_dual(self, la, nu, result):
         """ We want to do the following chain:
-- 
2.43.0


From b25ed2bd4fb961feec68daa57b4cb6a15c6ecc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 022/105] fix: sensitivities of signomial constraints count
 vanishing terms and variables

---
 gpkit/nomials/math.py | 83 +++++++++++++------------------------------
 1 file changed, 25 insertions(+), 58 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 1982c64..aa32ef6 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -1,5 +1,4 @@
 """Signomial, Posynomial, Monomial, Constraint, & MonoEQCOnstraint classes"""
-from collections import defaultdict
 import numpy as np
 from .core import Nomial
 from .array import NomialArray
@@ -624,6 +623,7 @@ class SignomialInequality(ScalarSingleEquationConstraint):
     """A constraint of the general form posynomial >= posynomial
 
     Stored at .unsubbed[0] as a single Signomial (0 >= self)"""
+    _negy = None
 
     def __init__(self, left, oper, right):
         ScalarSingleEquationConstraint.__init__(self, left, oper, right)
@@ -669,69 +669,36 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         # all but one of the negy terms becomes compatible with the posy
         p_ineq = PosynomialInequality(posy, "<=", negy)
         p_ineq.parent = self
-        siglt0_us, = self.unsubbed
-        siglt0_hmap = siglt0_us.hmap.sub(substitutions, siglt0_us.vks)
-        negy_hmap = NomialMap()
-        posy_hmaps = defaultdict(NomialMap)
-        for o_exp, exp in siglt0_hmap.expmap.items():
-            if exp == negy.exp:
-                negy_hmap[o_exp] = -siglt0_us.hmap[o_exp]
-            else:
-                posy_hmaps[exp-negy.exp][o_exp] = siglt0_us.hmap[o_exp]
-        # pylint: disable=attribute-defined-outside-init
-        self._mons = [Monomial(NomialMap({k: v}))
-                      for k, v in (posy/negy).hmap.items()]
-        self._negysig = Signomial(negy_hmap, require_positive=False)
-        self._coeffsigs = {exp: Signomial(hmap, require_positive=False)
-                           for exp, hmap in posy_hmaps.items()}
-        self._sigvars = {exp: (list(self._negysig.vks)
-                               + list(sig.vks))
-                         for exp, sig in self._coeffsigs.items()}
         out = p_ineq.as_hmapslt1(substitutions)
         for hmap in out:  # a constraint's programs each keep their own data
-            hmap.solvedata = {"_mons": self._mons, "_negysig": self._negysig,
-                              "_coeffsigs": self._coeffsigs,
-                              "_sigvars": self._sigvars}
+            hmap.solvedata = {"_negy": negy}
         return out
 
     def sens_from_dual(self, la, nu, result):
-        """ We want to do the following chain:
-               dlog(Obj)/dlog(monomial[i])    = nu[i]
-               * dlog(monomial)/d(monomial)   = 1/(monomial value)
-               * d(monomial)/d(var)           = see below
-               * d(var)/dlog(var)             = var
-               = dlog(Obj)/dlog(var)
-            each final monomial is really
-               (coeff signomial)/(negy signomial)
-            and by the chain rule d(monomial)/d(var) =
-               d(coeff)/d(var)*1/negy + d(1/negy)/d(var)*coeff
-               = d(coeff)/d(var)*1/negy - d(negy)/d(var)*coeff*1/negy**2
+        """Returns the variable/constraint sensitivities from lambda/nu
+
+        The constraint was solved as posy/negy <= 1. When that's active,
+               dlog(Obj)/dlog(var) = la * dlog(posy/negy)/dlog(var)
+                                   = la * var * d(posy - negy)/dvar / negy
+        for all variables of the unsubstituted signomial (posy - negy)
         """
-        # pylint: disable=too-many-locals, attribute-defined-outside-init
-
-        # pylint: disable=no-member
-        def subval(posy):
-            "Substitute solution into a posynomial and return the result"
-            hmap = posy.sub(result["variables"],
-                            require_positive=False).hmap
-            (key, value), = hmap.items()
-            assert not key  # constant
-            return value
-
-        self.v_ss = {}
-        invnegy_val = 1/subval(self._negysig)
-        for i, nu_i in enumerate(nu):
-            mon = self._mons[i]
-            inv_mon_val = 1/subval(mon)
-            coeff = self._coeffsigs[mon.exp]
-            for var in self._sigvars[mon.exp]:
-                d_mon_d_var = (subval(coeff.diff(var))*invnegy_val
-                               - (subval(self._negysig.diff(var))
-                                  * subval(coeff) * invnegy_val**2))
-                var_val = result["variables"][var]
-                sens = (nu_i*inv_mon_val*d_mon_d_var*var_val)
-                assert isinstance(sens, float)
-                self.v_ss[var] = sens + self.v_ss.get(var, 0)
+        # a variable that cancelled out of the program could have any value
+        values = {vk: float(result["variables"].get(vk, 1.0))
+                  for vk in self.unsubbed[0].vks}
+
+        def val(exp, c):
+            "Value of a monomial at the solution"
+            for vk, x in exp.items():
+                c *= values[vk]**x
+            return c
+
+        self.v_ss = dict.fromkeys(values, 0.0)
+        (exp, c), = self._negy.hmap.items()
+        la_over_negy = la/val(exp, c)
+        for exp, c in self.unsubbed[0].hmap.items():
+            c_senss = la_over_negy*val(exp, c)
+            for vk, x in exp.items():
+                self.v_ss[vk] += x*c_senss
         return self.v_ss, la
 
     def as_gpconstr(self, x0):
-- 
2.43.0


From 0cbf378a703eb1d14b3071cc4ff41713c4ed8b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 023/105] fix: dividing a constraint by its greater-than side
 never mixes up terms

---
 gpkit/nomials/math.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index aa32ef6..0d46aa4 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -469,9 +469,8 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         except ValueError:
             raise TypeError("greater-than side '%s' is not monomial." % m_gt)
         m_c *= units.of_division(m_gt, p_lt)
-        hmap = p_lt.hmap.copy()
-        for exp in list(hmap):
-            hmap[exp-m_exp] = hmap.pop(exp)/m_c
+        hmap = NomialMap({exp-m_exp: c/m_c for exp, c in p_lt.hmap.items()})
+        hmap.units = p_lt.hmap.units
         hmap = self._simplify_posy_ineq(hmap)
         return [Posynomial(hmap)] if hmap else []
 
-- 
2.43.0


From fa5f574a166b960f129be3ca3794aa4f99860a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 024/105] fix: a negative term that stays negative makes a
 constraint invalid, not infeasible

---
 gpkit/nomials/math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 0d46aa4..e6c9647 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -495,9 +495,10 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             return True
         if self.oper == "=":
             impossible = not p_c * m_c > 0
-        elif m_c > 0:
+        elif m_c > 0 and not any(c < 0 and exp != m_exp
+                                 for exp, c in p_hmap.items()):
             impossible = False
-        elif all(c >= 0 for c in p_hmap.values()):
+        elif m_c <= 0 and all(c >= 0 for c in p_hmap.values()):
             impossible = True
         elif not m_exp and not any(p_hmap):  # both sides are constant
             impossible = p_c - m_c > self.feastol*abs(m_c)
-- 
2.43.0


From 10311b11b686648eff6324c2106fa3d1a631b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 025/105] fix: objective sensitivities are attributed to the
 terms they belong to

---
 gpkit/constraints/gp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 1ea4cc0..fb8ed4c 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -84,6 +84,7 @@ class GeometricProgram:
         cost_hmap = cost.hmap.sub(self.substitutions, cost.vks)
         if any(c <= 0 for c in cost_hmap.values()):
             raise InvalidPosynomial("a GP's cost must be Posynomial")
+        self._cost_pmap = cost_hmap.mmap(cost.hmap)
         hmapgen = ConstraintSet.as_hmapslt1(constraints, self.substitutions)
         self.hmaps = [cost_hmap] + list(hmapgen)
         self.gen()  # Generate various maps into the posy- and monomials
@@ -304,7 +305,11 @@ class GeometricProgram:
         result["variables"].update(result["constants"])
         result["sensitivities"] = {"constraints": {}}
         la, self.nu_by_posy = self._generate_nula(solver_out)
-        cost_senss = sum(nu_i*exp for (nu_i, exp) in zip(self.nu_by_posy[0],
+        cost_nu = np.zeros(len(self.cost.hmap))
+        for nu_i, mmap in zip(self.nu_by_posy[0], self._cost_pmap):
+            for idx, percentage in mmap.items():
+                cost_nu[idx] += percentage*nu_i
+        cost_senss = sum(nu_i*exp for (nu_i, exp) in zip(cost_nu,
                                                          self.cost.hmap))
         gpv_ss = cost_senss.copy()
         m_senss = defaultdict(float)
-- 
2.43.0


From dc9090eeff60e0d421efb4e89fb6ffb7728c0843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 026/105] fix: solver options given to one solve do not stay
 for later ones

---
 gpkit/constraints/gp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index fb8ed4c..7dcd626 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -190,8 +190,7 @@ class GeometricProgram:
             print(" for %i free variables" % len(self.varlocs))
             print("  in %i posynomial inequalities." % len(self.k))
 
-        solverargs = DEFAULT_SOLVER_KWARGS.get(solvername, {})
-        solverargs.update(kwargs)
+        solverargs = {**DEFAULT_SOLVER_KWARGS.get(solvername, {}), **kwargs}
         starttime = time()
         solver_out, infeasibility, original_stdout = {}, None, sys.stdout
         try:
-- 
2.43.0


From 9f423b2515e8b830186bdd66accfe6183b2701d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 027/105] fix: models with redundant equalities are solved

---
 gpkit/solvers/cvxopt.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gpkit/solvers/cvxopt.py b/gpkit/solvers/cvxopt.py
index 5df673e..895a1f0 100644
--- a/gpkit/solvers/cvxopt.py
+++ b/gpkit/solvers/cvxopt.py
@@ -38,6 +38,7 @@ def optimize(*, c, A, k, meq_idxs, use_leqs=True, **kwargs):
                 "dual_sol": floats array of size p
                     Optimal value of the dual variables, in logspace.
     """
+    solverargs = kwargs.copy()
     log_c = np.log(np.array(c))
     lse_mons, lin_mons, leq_mons = [], [], []
     lse_posys, lin_posys, leq_posys = [], [], []
@@ -80,6 +81,11 @@ def optimize(*, c, A, k, meq_idxs, use_leqs=True, **kwargs):
     try:
         solution = gp(k_lse, F, g, **kwargs)
     except ValueError as e:
+        if leq_mons and (np.linalg.matrix_rank(A[leq_mons, :].toarray())
+                         < len(leq_mons)):
+            # cvxopt can't take redundant equalities; it can as inequalities
+            return optimize(c=c, A=A, k=k, meq_idxs=meq_idxs, use_leqs=False,
+                            **solverargs)
         raise DualInfeasible() from e
     if solution["status"] != "optimal":
         raise UnknownInfeasible("solution status " + repr(solution["status"]))
-- 
2.43.0


From a405902ed6c1c9f75670e05c52dc7178a70b85d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 028/105] fix: sensitivities of linked variables reach all
 their constants

---
 gpkit/constraints/gp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 7dcd626..5cf5ee9 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -331,6 +331,7 @@ class GeometricProgram:
         # carry linked sensitivities over to their constants
         for v in list(v for v in gpv_ss if v.gradients):
             dlogcost_dlogv = gpv_ss.pop(v)
+            dlogcostfn_dlogv = cost_senss.pop(v, None)
             val = np.array(result["constants"][v])
             for c, dv_dc in v.gradients.items():
                 with warnings.catch_warnings():  # skip pesky divide-by-zeros
@@ -338,11 +339,9 @@ class GeometricProgram:
                     dlogv_dlogc = dv_dc * result["constants"][c]/val
                     before = gpv_ss.get(c, 0)
                     gpv_ss[c] = before + dlogcost_dlogv*dlogv_dlogc
-                if v in cost_senss:
-                    if c in self.cost.vks:
-                        dlogcost_dlogv = cost_senss.pop(v)
-                        before = cost_senss.get(c, 0)
-                        cost_senss[c] = before + dlogcost_dlogv*dlogv_dlogc
+                if dlogcostfn_dlogv is not None:
+                    before = cost_senss.get(c, 0)
+                    cost_senss[c] = before + dlogcostfn_dlogv*dlogv_dlogc
         result["sensitivities"]["cost"] = cost_senss
         result["sensitivities"]["variables"] = KeyDict(gpv_ss)
         result["sensitivities"]["constants"] = \
-- 
2.43.0


From 02575cf53b0334545c4d3431c6138fba0647ad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 029/105] fix: signomial constraints infeasible or always true
 when approximated at one point can be created

---
 gpkit/nomials/math.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index e6c9647..12cf64a 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -619,6 +619,24 @@ class MonomialEquality(PosynomialInequality):
         return self.v_ss, la
 
 
+class Approximation:
+    "Mixin for approximations, whose constants depend on the point they're at."
+
+    def _simplify_posy_ineq(self, hmap, pmap=None, fixed=None):
+        "Constants are simplified not at creation but in as_hmapslt1."
+        if pmap is None:
+            return hmap
+        return super()._simplify_posy_ineq(hmap, pmap, fixed)
+
+
+class ApproximateInequality(Approximation, PosynomialInequality):
+    "The local approximation of a SignomialInequality"
+
+
+class ApproximateEquality(Approximation, MonomialEquality):
+    "The local approximation of a SingleSignomialEquality"
+
+
 class SignomialInequality(ScalarSingleEquationConstraint):
     """A constraint of the general form posynomial >= posynomial
 
@@ -707,7 +725,7 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         posy, negy = siglt0.posy_negy()
         # default guess of 1.0 for unspecified negy variables
         x0 = {vk: x0.get(vk, 1) for vk in negy.vks}
-        pconstr = PosynomialInequality(posy, "<=", negy.mono_lower_bound(x0))
+        pconstr = ApproximateInequality(posy, "<=", negy.mono_lower_bound(x0))
         pconstr.generated_by = self
         return pconstr
 
@@ -737,6 +755,7 @@ class SingleSignomialEquality(SignomialInequality):
         posy, negy = siglt0.posy_negy()
         # default guess of 1.0 for unspecified negy variables
         x0 = {vk: x0.get(vk, 1) for vk in siglt0.vks}
-        mec = (posy.mono_lower_bound(x0) == negy.mono_lower_bound(x0))
+        mec = ApproximateEquality(posy.mono_lower_bound(x0),
+                                  negy.mono_lower_bound(x0))
         mec.generated_by = self
         return mec
-- 
2.43.0


From 1af69b767aa8524b6b8f81ab8bdd903febbc21bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 030/105] fix: sequential programs follow approximations that
 gain or lose terms and variables

---
 gpkit/constraints/sgp.py | 99 ++++++++++++++++++++++++++--------------
 1 file changed, 65 insertions(+), 34 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 3217212..0ec6f39 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -1,6 +1,7 @@
 """Implement the SequentialGeometricProgram class"""
 import warnings as pywarnings
 from time import time
+from copy import copy
 from collections import defaultdict
 import numpy as np
 from ..exceptions import (InvalidGPConstraint, Infeasible, UnnecessarySGP,
@@ -8,6 +9,7 @@ from ..exceptions import (InvalidGPConstraint, Infeasible, UnnecessarySGP,
 from ..keydict import KeyDict
 from ..nomials import Variable
 from .gp import GeometricProgram
+from .set import ConstraintSet
 from ..nomials import PosynomialInequality, Posynomial
 from .. import NamedVariables
 
@@ -78,9 +80,9 @@ class SequentialGeometricProgram:
                 if not hasattr(cs, "as_gpconstr"):
                     raise InvalidSGPConstraint(cs)
                 self.sgpconstraints.append(cs)
-                for hmaplt1 in cs.as_gpconstr(x0).as_hmapslt1({}):
-                    constraint = (Posynomial(hmaplt1) <= self.slack)
-                    constraint.generated_by = cs
+                # approximations can lack some of their constraint's variables
+                self.sgpvks.update(getattr(cs, "vks", ()))
+                for constraint in self._approximate(cs, x0):
                     self.approxconstraints.append(constraint)
                     self.sgpvks.update(constraint.vks)
         if not self.sgpconstraints:
@@ -93,11 +95,29 @@ solutions and can be solved with 'Model.solve()'.""")
             cost, self.approxconstraints + self.gpconstraints,
             substitutions, checkbounds=checkbounds)
         self._gp.x0 = x0
+        self._n_gphmaps = sum(1 for _ in ConstraintSet.as_hmapslt1(
+            self.gpconstraints, self._gp.substitutions))
+        self._gen_a_idxs()
+
+    def _approximate(self, cs, x0):
+        "Returns constraints, relaxed by the slack, approximating cs at x0."
+        approx = cs.as_gpconstr(x0)
+        if hasattr(approx, "relaxed"):
+            constraints = approx.relaxed(self.slack)
+        else:
+            constraints = [Posynomial(hmaplt1) <= self.slack
+                           for hmaplt1 in approx.as_hmapslt1({})]
+        for constraint in constraints:
+            constraint.generated_by = cs
+        return constraints
+
+    def _gen_a_idxs(self):
+        "Finds the entries of A that belong to approximations."
         self.a_idxs = defaultdict(list)
         cost_mons = self._gp.k[0]
-        sp_mons = sum(self._gp.k[:1+len(self.approxconstraints)])
+        sp_mons = sum(self._gp.k[:len(self._gp.k) - self._n_gphmaps])
         for row_idx, m_idx in enumerate(self._gp.A.row):
-            if cost_mons <= m_idx <= sp_mons:
+            if cost_mons <= m_idx < sp_mons:
                 self.a_idxs[self._gp.p_idxs[m_idx]].append(row_idx)
 
     # pylint: disable=too-many-locals,too-many-branches,too-many-statements
@@ -218,33 +238,44 @@ solutions and can be solved with 'Model.solve()'.""")
             return self._gp  # return last generated
         if not cleanx0:
             x0 = KeyDict(x0)
-        self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks if vk in x0})
-        p_idx = 0
-        for sgpc in self.sgpconstraints:
-            for hmaplt1 in sgpc.as_gpconstr(self._gp.x0).as_hmapslt1({}):
-                approxc = self.approxconstraints[p_idx]
-                approxc.unsubbed = [Posynomial(hmaplt1)/self.slack]
-                p_idx += 1  # p_idx=0 is the cost; sp constraints are after it
-                hmap, = approxc.as_hmapslt1(self._gp.substitutions)
-                self._gp.hmaps[p_idx] = hmap
-                m_idx = self._gp.m_idxs[p_idx].start
-                a_idxs = list(self.a_idxs[p_idx])  # A's entries we can modify
-                for i, (exp, c) in enumerate(hmap.items()):
-                    self._gp.exps[m_idx + i] = exp
-                    self._gp.cs[m_idx + i] = c
-                    for var, x in exp.items():
-                        try:  # modify a particular A entry
-                            row_idx = a_idxs.pop()
-                            self._gp.A.row[row_idx] = m_idx + i
-                            self._gp.A.col[row_idx] = self._gp.varidxs[var]
-                            self._gp.A.data[row_idx] = x
-                        except IndexError:  # numbers of exps increased
-                            self.a_idxs[p_idx].append(len(self._gp.A.row))
-                            self._gp.A.row.append(m_idx + i)
-                            self._gp.A.col.append(self._gp.varidxs[var])
-                            self._gp.A.data.append(x)
-                for row_idx in a_idxs:  # number of exps decreased
-                    self._gp.A.row[row_idx] = 0  # zero out this entry
-                    self._gp.A.col[row_idx] = 0
-                    self._gp.A.data[row_idx] = 0
+        self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks
+                            if vk in x0 and vk not in self._gp.substitutions})
+        self.approxconstraints = [
+            approxc for sgpc in self.sgpconstraints
+            for approxc in self._approximate(sgpc, self._gp.x0)]
+        hmaps = list(ConstraintSet.as_hmapslt1(self.approxconstraints,
+                                               self._gp.substitutions))
+        sp_end = len(self._gp.k) - self._n_gphmaps
+        if ([len(hmap) for hmap in hmaps] != self._gp.k[1:sp_end]
+                or any(vk not in self._gp.varidxs
+                       for hmap in hmaps for exp in hmap for vk in exp)):
+            # terms or variables have appeared or vanished
+            self._gp = copy(self._gp)
+            self._gp.hmaps = (self._gp.hmaps[:1] + hmaps
+                              + self._gp.hmaps[sp_end:])
+            self._gp.gen()
+            self._gen_a_idxs()
+            return self._gp
+        for p_idx, hmap in enumerate(hmaps, 1):  # p_idx=0 is the cost
+            self._gp.hmaps[p_idx] = hmap
+            m_idx = self._gp.m_idxs[p_idx].start
+            a_idxs = list(self.a_idxs[p_idx])  # A's entries we can modify
+            for i, (exp, c) in enumerate(hmap.items()):
+                self._gp.exps[m_idx + i] = exp
+                self._gp.cs[m_idx + i] = c
+                for var, x in exp.items():
+                    try:  # modify a particular A entry
+                        row_idx = a_idxs.pop()
+                        self._gp.A.row[row_idx] = m_idx + i
+                        self._gp.A.col[row_idx] = self._gp.varidxs[var]
+                        self._gp.A.data[row_idx] = x
+                    except IndexError:  # numbers of exps increased
+                        self.a_idxs[p_idx].append(len(self._gp.A.row))
+                        self._gp.A.row.append(m_idx + i)
+                        self._gp.A.col.append(self._gp.varidxs[var])
+                        self._gp.A.data.append(x)
+            for row_idx in a_idxs:  # number of exps decreased
+                self._gp.A.row[row_idx] = 0  # zero out this entry
+                self._gp.A.col[row_idx] = 0
+                self._gp.A.data[row_idx] = 0
         return self._gp
-- 
2.43.0


From 12182c180e1c51b8f7e22980bf03f9799e17d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 031/105] fix: sweep vectors by ragged and per-element sweeps
 with current numpy

---
 gpkit/keydict.py              | 8 +++++++-
 gpkit/nomials/substitution.py | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index a6db601..6dc7dfb 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -245,7 +245,13 @@ class KeyDict(KeyMap, dict):
                 if not hasattr(value, "__len__"):
                     value = np.full(key.shape, value, "float")
                 elif not isinstance(value[0], np.ndarray):
-                    value = np.array([clean_value(key, v) for v in value])
+                    values = [clean_value(key, v) for v in value]
+                    if any(is_sweepvar(v) for v in values):
+                        value = np.empty(len(values), dtype="object")
+                        for i, v in enumerate(values):
+                            value[i] = v
+                    else:
+                        value = np.array(values)
                     if value.dtype == INT_DTYPE:
                         value = np.array(value, "float")
         if isinstance(value, np.ndarray):
diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index 2ca2abc..7fe108e 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -46,7 +46,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                 pywarnings.filterwarnings("error")
                 try:
                     sub = np.array(sub) if not hasattr(sub, "shape") else sub
-                except Warning:  # pragma: no cover  #TODO: coverage this
+                except (Warning, ValueError):  # depending on numpy version
                     # ragged nested sequences, eg [[2]], [3, 4]], in py3.7+
                     sub = np.array(sub, dtype=object)
             if key.shape == sub.shape:
-- 
2.43.0


From 5a484d0041488a6eb292c3e86e079d635f951ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 032/105] fix: restore a swept variable's substitution exactly,
 also when a solve fails

---
 gpkit/constraints/model.py | 17 +++++++----------
 gpkit/small_scripts.py     | 14 ++++++++++++++
 gpkit/tools/autosweep.py   | 13 +++++++------
 3 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 06e5240..d818366 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -11,6 +11,7 @@ from .. import NamedVariables
 from ..tools.docstring import expected_unbounded
 from .set import add_meq_bounds
 from ..exceptions import Infeasible
+from ..small_scripts import restored_sub
 
 
 class Model(CostedConstraintSet):
@@ -137,16 +138,12 @@ class Model(CostedConstraintSet):
         "Sweeps {var: values} pairs in sweeps. Returns swept solutions."
         sols = []
         for sweepvar, sweepvals in sweeps.items():
-            original_val = self.substitutions.get(sweepvar, None)
-            self.substitutions.update({sweepvar: ('sweep', sweepvals)})
-            try:
-                sols.append(self.solve(**solveargs))
-            except InvalidGPConstraint:
-                sols.append(self.localsolve(**solveargs))
-            if original_val:
-                self.substitutions[sweepvar] = original_val
-            else:
-                del self.substitutions[sweepvar]
+            with restored_sub(self.substitutions, sweepvar):
+                self.substitutions.update({sweepvar: ('sweep', sweepvals)})
+                try:
+                    sols.append(self.solve(**solveargs))
+                except InvalidGPConstraint:
+                    sols.append(self.localsolve(**solveargs))
         return sols if len(sols) > 1 else sols[0]
 
     def autosweep(self, sweeps, tol=0.01, samplepoints=100, **solveargs):
diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index fff8454..57fe641 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -1,5 +1,6 @@
 """Assorted helper methods"""
 from collections.abc import Iterable
+from contextlib import contextmanager
 import numpy as np
 
 
@@ -47,6 +48,19 @@ def is_sweepvar(sub):
     return splitsweep(sub)[0]
 
 
+@contextmanager
+def restored_sub(substitutions, key):
+    "On exit (also by an exception) sets `key` back to what it was on entry."
+    original_val = substitutions.get(key, None)
+    try:
+        yield
+    finally:
+        if key in substitutions:
+            del substitutions[key]
+        if original_val is not None:
+            substitutions[key] = original_val
+
+
 def splitsweep(sub):
     "Splits a substitution into (is_sweepvar, sweepval)"
     try:
diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 5a262a9..30df83b 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -2,7 +2,7 @@
 from time import time
 import numpy as np
 from ..small_classes import Count
-from ..small_scripts import mag
+from ..small_scripts import mag, restored_sub
 from ..solution_array import SolutionArray
 from ..exceptions import InvalidGPConstraint
 
@@ -225,7 +225,12 @@ class SolutionOracle:
 
 def autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
     "Autosweep a model over one sweepvar"
-    original_val = model.substitutions.get(sweepvar, None)
+    with restored_sub(model.substitutions, sweepvar):
+        return _autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs)
+
+
+def _autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
+    "Autosweeps, leaving the last value swept in the model's substitutions"
     start_time = time()
     solvekwargs.setdefault("verbosity", 1)
     solvekwargs["verbosity"] -= 1
@@ -245,10 +250,6 @@ def autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
     if solvekwargs["verbosity"] > -1:
         print("Solved in %2i passes, cost logtol +/-%.3g" % (bst.nsols, tol))
         print("Autosweeping took %.3g seconds." % (time() - start_time))
-    if original_val:
-        model.substitutions[sweepvar] = original_val
-    else:
-        del model.substitutions[sweepvar]
     return bst
 
 
-- 
2.43.0


From aa95153444a15bb5259ea5f0d8e0aaf8c34cf2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 033/105] fix: sweep elements of vectors over arrays

---
 gpkit/constraints/prog_factories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 3468b0c..393bf15 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -157,9 +157,9 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
         raise RuntimeWarning("No sweeps solved successfully.") from last_error
 
     solution["sweepvariables"] = KeyDict()
-    ksweep = KeyDict(sweep)
+    swept = {var.veckey or var for var in sweep}
     for var, val in list(solution["constants"].items()):
-        if var in ksweep:
+        if var in swept:
             solution["sweepvariables"][var] = val
             del solution["constants"][var]
         elif linked:  # if any variables are linked, we check all of them
-- 
2.43.0


From a25c1d925b9d6c4b8bfb32a007c5c041752dbb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 034/105] fix: only sweep the elements of a vector that are
 swept

---
 gpkit/nomials/substitution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index 7fe108e..fa15e22 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -38,6 +38,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
     if sweepsub:  # if the whole key is swept
         sub = sweepval
     for key in keys:
+        sweepel = False
         if (not key.shape or  # note that all Quantities have a __len__
                 not getattr(sub, "shape", hasattr(mag(sub), "__len__"))):
             value = sub
@@ -54,7 +55,6 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                 sweepel, sweepval = splitsweep(value)
                 if sweepel:  # if only an element is swept
                     value = sweepval
-                    sweepsub = True
             elif sweepsub:
                 try:
                     np.broadcast(sub, np.empty(key.shape))
@@ -72,7 +72,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                                  (sub.shape, key.veckey, key.shape))
         if hasattr(value, "__call__") and not hasattr(value, "key"):
             linkedsweep[key] = value
-        elif sweepsub:
+        elif sweepsub or sweepel:
             sweep[key] = value
         else:
             try:
-- 
2.43.0


From b2adf2d163cf7d199e300aa21d4196a39c716a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 035/105] fix: convert swept quantities to the units of their
 variable

---
 gpkit/constraints/prog_factories.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 393bf15..fbcd1c2 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -4,7 +4,7 @@ import numpy as np
 from ad import adnumber
 from ..nomials import parse_subs
 from ..solution_array import SolutionArray
-from ..keydict import KeyDict
+from ..keydict import KeyDict, clean_value
 from ..small_scripts import maybe_flatten
 from ..exceptions import Infeasible
 
@@ -120,10 +120,12 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
     # sort sweeps by the eqstr of their varkey
     sweepvars, sweepvals = zip(*sorted(list(sweep.items()),
                                        key=lambda vkval: vkval[0].eqstr))
+    sweepvals = [[clean_value(var, val) for val in vals]
+                 for var, vals in zip(sweepvars, sweepvals)]
     if len(sweep) == 1:
-        sweep_grids = np.array(list(sweepvals))
+        sweep_grids = np.array(sweepvals)
     else:
-        sweep_grids = np.meshgrid(*list(sweepvals))
+        sweep_grids = np.meshgrid(*sweepvals)
 
     N_passes = sweep_grids[0].size
     sweep_vects = {var: grid.reshape(N_passes)
-- 
2.43.0


From 3cb924f535e78d7a7b9f42df742d4bcc65f5a1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 036/105] fix: sweep points share no state and skip failures at
 compilation

---
 gpkit/constraints/prog_factories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index fbcd1c2..7f5f676 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -142,9 +142,9 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
                           for (var, sweep_vect) in sweep_vects.items()})
         if linked:
             evaluate_linked(constants, linked)
-        program, solvefn = genfunction(self, constants)
-        self.program.append(program)  # NOTE: SIDE EFFECTS
         try:
+            program, solvefn = genfunction(self, dict(constants))
+            self.program.append(program)  # NOTE: SIDE EFFECTS
             result = solvefn(solver, verbosity=verbosity-1, **solveargs)
             if solveargs.get("process_result", True):
                 self.process_result(result)
-- 
2.43.0


From 7302aa71886b51b31f16a6bc5d7f6f3f9972783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 037/105] fix: autosweep vector elements, and variables without
 effect

---
 gpkit/constraints/set.py | 5 ++++-
 gpkit/tools/autosweep.py | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 830d97b..009ba5e 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -127,7 +127,10 @@ class ConstraintSet(list, ReprMixin):
             key = self.idxlookup[key]
         if isinstance(key, int):
             return list.__getitem__(self, key)
-        return self._choosevar(key, self.variables_byname(key))
+        variables = self.variables_byname(key)
+        if variables and getattr(getattr(key, "key", None), "idx", None):
+            return variables[0]  # a particular element was asked for
+        return self._choosevar(key, variables)
 
     def _choosevar(self, key, variables):
         if not variables:
diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 30df83b..1f783af 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -92,7 +92,7 @@ class BinarySweepTree:  # pylint: disable=too-many-instance-attributes
         if value < self.bounds[0] or value > self.bounds[1]:
             raise ValueError("query value is outside bounds.")
         bst = self.min_bst(value)
-        if bst.splitlb:
+        if bst.splitlb is not None:
             if bound:
                 if bound == "lb":
                     splitcost = np.exp(bst.splitlb)
@@ -275,7 +275,8 @@ def get_tol(costs, bounds, sols, variable):  # pylint: disable=too-many-locals
     "Gets the intersection point and corresponding bounds from two solutions."
     y0, y1 = costs
     x0, x1 = np.log(bounds)
-    s0, s1 = [sol["sensitivities"]["variables"][variable] for sol in sols]
+    s0, s1 = [sol["sensitivities"]["variables"].get(variable, 0)
+              for sol in sols]  # variables with no effect may be absent
     # y0 + s0*(x - x0) == y1 + s1*(x - x1)
     num = y1-y0 + x0*s0-x1*s1
     denom = s0-s1
-- 
2.43.0


From b7a4407f5894a1c58d6b5c4c83579e01801edbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 038/105] fix: index elements of swept vectors by element, not
 by sweep point

---
 gpkit/keydict.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 6dc7dfb..d7edf15 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -22,6 +22,12 @@ def clean_value(key, value):
     return value
 
 
+def at_idx(value, idx):
+    "Element of a vector's value; if swept, that element at each point."
+    swept_dims = getattr(value, "ndim", len(idx)) - len(idx)
+    return value[(slice(None),)*swept_dims + idx]
+
+
 class KeyMap:
     """Helper class to provide KeyMapping to interfaces.
 
@@ -92,8 +98,8 @@ class KeyMap:
         if super().__contains__(key):  # pylint: disable=no-member
             if idx:
                 try:
-                    value = super().__getitem__(key)[idx]  # pylint: disable=no-member
-                    return True if is_sweepvar(value) else not isnan(value)
+                    value = at_idx(super().__getitem__(key), idx)  # pylint: disable=no-member
+                    return True if is_sweepvar(value) else not isnan(value).all()
                 except TypeError:
                     raise TypeError("%s has an idx, but its value in this"
                                     " KeyDict is the scalar %s."
@@ -180,7 +186,7 @@ class KeyDict(KeyMap, dict):
                 self._copyonwrite(k)
             val = dict.__getitem__(self, k)
             if idx:
-                val = val[idx]
+                val = at_idx(val, idx)
             if len(keys) == 1:
                 return val
             got[k] = val
-- 
2.43.0


From b577306b8966ab028b3cc66fd1c29b006c807b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:59 +0000
Subject: [PATCH 039/105] fix: relax nested constraint sets; debug models
 without constants

---
 gpkit/constraints/model.py | 5 +++--
 gpkit/constraints/relax.py | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index d818366..c770c85 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -165,7 +165,7 @@ class Model(CostedConstraintSet):
         from .relax import ConstantsRelaxed, ConstraintsRelaxed
         from .bounded import Bounded
 
-        sol = None
+        sol = tants = None
         solveargs["solver"] = solver
         solveargs["verbosity"] = verbosity - 1
         solveargs["process_result"] = False
@@ -184,7 +184,8 @@ class Model(CostedConstraintSet):
                 sol = feas.sp(use_pccp=False).localsolve(**solveargs)
             # limited results processing
             bounded.check_boundaries(sol)
-            tants.check_relaxed(sol)
+            if tants is not None:
+                tants.check_relaxed(sol)
         except Infeasible:
             if verbosity:
                 print("<DEBUG> Model is not feasible with relaxed constants"
diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 5014723..e99d446 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -82,13 +82,14 @@ class ConstraintsRelaxed(ConstraintSet):
             original_constraints = ConstraintSet(original_constraints)
         self.original_constraints = original_constraints
         original_substitutions = original_constraints.substitutions
+        self.flat_constraints = list(original_constraints.flat())
         with NamedVariables("Relax"):
-            self.relaxvars = VectorVariable(len(original_constraints), "C")
+            self.relaxvars = VectorVariable(len(self.flat_constraints), "C")
 
         with SignomialsEnabled():
             relaxed_constraints = [
                 c.relaxed(self.relaxvars[i])
-                for i, c in enumerate(original_constraints.flat())]
+                for i, c in enumerate(self.flat_constraints)]
 
         ConstraintSet.__init__(self, {
             "minimum relaxation": self.relaxvars >= 1,
@@ -105,7 +106,7 @@ class ConstraintsRelaxed(ConstraintSet):
                               range(len(self["relaxed constraints"])))
         for relaxval, i in relaxed:
             relax_percent = "%i%%" % (0.5+(relaxval-1)*100)
-            oldconstraint = self.original_constraints[i]
+            oldconstraint = self.flat_constraints[i]
             newconstraint = self["relaxed constraints"][i][0]
             subs = {self.relaxvars[i]: relaxval}
             relaxdleft = newconstraint.left.sub(subs)
-- 
2.43.0


From a435cb0182929ed1b94fe757b394f0ca97aa67f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 040/105] fix: array operations keep the units of quantities

---
 gpkit/nomials/array.py | 68 ++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 25 deletions(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index b276f5a..57f2ae4 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -10,7 +10,7 @@ from operator import eq, le, ge, xor
 from functools import reduce  # pylint: disable=redefined-builtin
 import numpy as np
 from .map import NomialMap
-from ..small_classes import HashVector, EMPTY_HV
+from ..small_classes import HashVector, Quantity, EMPTY_HV
 from ..small_scripts import try_str_without
 from ..constraints import ArrayConstraint
 from ..repr_conventions import ReprMixin
@@ -21,6 +21,23 @@ def vec_recurse(element, function, *args, **kwargs):
     return function(element, *args, **kwargs)
 
 
+def keep_units(value):
+    "Returns Quantities as object arrays of Quantities (numpy strips units)."
+    if isinstance(value, Quantity):
+        mags, qunits = np.asarray(value.magnitude), value.units
+        value = np.empty(mags.shape, dtype="object")
+        for idx in np.ndindex(mags.shape):
+            value[idx] = Quantity(mags[idx], qunits)
+    elif isinstance(value, (list, tuple)):
+        items = [keep_units(v) for v in value]
+        if any(item is not v for item, v in zip(items, value)):
+            shape = max((getattr(item, "shape", ()) for item in items), key=len)
+            value = np.empty((len(items),) + shape, dtype="object")
+            for i, item in enumerate(items):
+                value[i] = item.item() if getattr(item, "shape", 1) == () else item
+    return value
+
+
 def array_constraint(symbol, func):
     "Return function which creates constraints of the given operator."
     vecfunc = np.vectorize(func)
@@ -49,26 +66,29 @@ class NomialArray(ReprMixin, np.ndarray):
 
     def __mul__(self, other, *, reverse_order=False):
         astorder = (self, other) if not reverse_order else (other, self)
-        out = NomialArray(np.ndarray.__mul__(self, other))
+        out = NomialArray(np.ndarray.__mul__(self, keep_units(other)))
         out.ast = ("mul", astorder)
         return out
 
     def __truediv__(self, other):
-        out = NomialArray(np.ndarray.__truediv__(self, other))
+        out = NomialArray(np.ndarray.__truediv__(self, keep_units(other)))
         out.ast = ("div", (self, other))
         return out
 
     def __rtruediv__(self, other):
-        out = (np.ndarray.__mul__(self**-1, other))
+        out = (np.ndarray.__mul__(self**-1, keep_units(other)))
         out.ast = ("div", (other, self))
         return out
 
     def __add__(self, other, *, reverse_order=False):
         astorder = (self, other) if not reverse_order else (other, self)
-        out = (np.ndarray.__add__(self, other))
+        out = (np.ndarray.__add__(self, keep_units(other)))
         out.ast = ("add", astorder)
         return out
 
+    def __sub__(self, other):
+        return np.ndarray.__sub__(self, keep_units(other))
+
     # pylint: disable=multiple-statements
     def __rmul__(self, other): return self.__mul__(other, reverse_order=True)
     def __radd__(self, other): return self.__add__(other, reverse_order=True)
@@ -116,7 +136,7 @@ class NomialArray(ReprMixin, np.ndarray):
     def __new__(cls, input_array):
         "Constructor. Required for objects inheriting from np.ndarray."
         # Input is an already formed ndarray instance cast to our class type
-        return np.asarray(input_array).view(cls)
+        return np.asarray(keep_units(input_array)).view(cls)
 
     def __array_finalize__(self, obj):
         "Finalizer. Required for objects inheriting from np.ndarray."
@@ -128,7 +148,7 @@ class NomialArray(ReprMixin, np.ndarray):
         if out_arr.ndim:
             return np.ndarray.__array_wrap__(self, out_arr, context)  # pylint: disable=too-many-function-args
         val = out_arr.item()
-        return np.float(val) if isinstance(val, np.generic) else val
+        return float(val) if isinstance(val, np.generic) else val
 
     __eq__ = array_constraint("=", eq)
     __le__ = array_constraint("<=", le)
@@ -136,7 +156,11 @@ class NomialArray(ReprMixin, np.ndarray):
 
     def outer(self, other):
         "Returns the array and argument's outer product."
-        return NomialArray(np.outer(self, other))
+        return NomialArray(np.outer(self, keep_units(other)))
+
+    def dot(self, other, *args, **kwargs):
+        "Returns the array and argument's dot product."
+        return np.ndarray.dot(self, keep_units(other), *args, **kwargs)
 
     def vectorize(self, function, *args, **kwargs):
         "Apply a function to each terminal constraint, returning the array"
@@ -152,19 +176,14 @@ class NomialArray(ReprMixin, np.ndarray):
             raise ValueError("cannot sum NomialArray of size 0")
         if args or kwargs or not self.shape:
             return np.ndarray.sum(self, *args, **kwargs)
-        hmap = NomialMap()
+        hmap = None
         for p in self.flat:  # pylint:disable=not-an-iterable
-            if not hmap and hasattr(p, "units"):
-                hmap.units = p.units
-            if hasattr(p, "hmap"):
-                hmap += p.hmap
-            else:
-                if hasattr(p, "units"):
-                    p = p.to(hmap.units).magnitude
-                elif hmap.units and p and not np.isnan(p):
-                    p /= float(hmap.units)
-                hmap[EMPTY_HV] = p + hmap.get(EMPTY_HV, 0)
-        out = Signomial(hmap)
+            if not hasattr(p, "hmap"):
+                if not p:
+                    continue  # zeros add nothing, whatever their units
+                p = Signomial(p, require_positive=False)
+            hmap = hmap + p.hmap if hmap is not None else p.hmap
+        out = Signomial(hmap if hmap is not None else 0)
         out.ast = ("sum", (self, None))
         return out
 
@@ -174,18 +193,17 @@ class NomialArray(ReprMixin, np.ndarray):
             raise ValueError("cannot prod NomialArray of size 0")
         if args or kwargs:
             return np.ndarray.prod(self, *args, **kwargs)
-        c, exp = 1.0, HashVector()
-        hmap = NomialMap()
+        exp, hmap = HashVector(), NomialMap({EMPTY_HV: 1.0})
         for m in self.flat:  # pylint:disable=not-an-iterable
             try:
                 (mexp, mc), = m.hmap.items()
             except (AttributeError, ValueError):
                 return np.ndarray.prod(self, *args, **kwargs)
-            c *= mc
             exp += mexp
+            hmap[EMPTY_HV] *= mc
             if m.units:
-                hmap.units = (hmap.units or 1) * m.units
-        hmap[exp] = c
+                hmap.units_of_product(hmap.units, m.units)
+        hmap[exp] = hmap.pop(EMPTY_HV)
         out = Signomial(hmap)
         out.ast = ("prod", (self, None))
         return out
-- 
2.43.0


From 40c3e31ffa37e3f0bb7fb1f4640479c39ce9b144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 041/105] fix: vector keys without a given veckey know the one
 they derive

---
 gpkit/varkey.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/varkey.py b/gpkit/varkey.py
index 4fe35db..edd30d8 100644
--- a/gpkit/varkey.py
+++ b/gpkit/varkey.py
@@ -44,9 +44,8 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
                 vecdescr = self.descr.copy()
                 del vecdescr["idx"]
                 self.veckey = VarKey(**vecdescr)
-            else:
-                self.keys.add(self.veckey)
-                self.keys.add(self.str_without(["idx", "modelnums"]))
+            self.keys.add(self.veckey)
+            self.keys.add(self.str_without(["idx", "modelnums"]))
 
     def __getstate__(self):
         "Stores varkey as its metadata dictionary, removing functions"
-- 
2.43.0


From 6e771693bd95f0e5a2da53f2397961d7b93c1097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 042/105] fix: solver failures and odd answers get their
 documented exceptions

---
 gpkit/constraints/gp.py             | 26 +++++++++++++++++---------
 gpkit/constraints/prog_factories.py |  1 +
 gpkit/small_classes.py              |  5 +++++
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 5cf5ee9..37c57d7 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -193,8 +193,9 @@ class GeometricProgram:
         solverargs = {**DEFAULT_SOLVER_KWARGS.get(solvername, {}), **kwargs}
         starttime = time()
         solver_out, infeasibility, original_stdout = {}, None, sys.stdout
+        solver_log = SolverLog(original_stdout, verbosity=verbosity-2)
         try:
-            sys.stdout = SolverLog(original_stdout, verbosity=verbosity-2)
+            sys.stdout = solver_log
             solver_out = solverfn(c=self.cs, A=self.A, meq_idxs=self.meq_idxs,
                                   k=self.k, p_idxs=self.p_idxs, **solverargs)
         except Infeasible as e:
@@ -205,7 +206,7 @@ class GeometricProgram:
         except Exception as e:
             raise UnknownInfeasible("Something unexpected went wrong.") from e
         finally:
-            self.solve_log = "\n".join(sys.stdout)
+            self.solve_log = "\n".join(solver_log)
             sys.stdout = original_stdout
             self.solver_out = solver_out
 
@@ -221,13 +222,15 @@ class GeometricProgram:
             elif isinstance(infeasibility, DualInfeasible):
                 msg = ("The model ran to an infinitely low cost;"
                        " bounding the right variables would prevent this.")
-            elif isinstance(infeasibility, UnknownInfeasible):
+            else:
                 msg = "The solver failed for an unknown reason."
             if (verbosity > 0 and solver_out["soltime"] < 1
-                    and hasattr(self, "model")):  # fast, top-level model
+                    and self.model is not None):  # fast, top-level model
                 print(msg + "\nSince the model solved in less than a second,"
                       " let's run `.debug()` to analyze what happened.\n`")
-                return self.model.debug(solver=solver)
+                debugged = self.model.debug(solver=solver)
+                if debugged is not None:
+                    return debugged
             # else, raise a clarifying error
             msg += (" Running `.debug()` may pinpoint the trouble. You can"
                     " also try another solver, or increase the verbosity.")
@@ -275,6 +278,8 @@ class GeometricProgram:
         if "nu" in solver_out:
             # solver gave us monomial sensitivities, generate posynomial ones
             solver_out["nu"] = nu = np.ravel(solver_out["nu"])
+            if len(nu) != len(self.cs):
+                raise RuntimeWarning("The dual solution was not returned.")
             nu_by_posy = [nu[mi] for mi in self.m_idxs]
             solver_out["la"] = la = np.array([sum(nup) for nup in nu_by_posy])
         elif "la" in solver_out:
@@ -282,6 +287,8 @@ class GeometricProgram:
             if len(la) == len(self.hmaps) - 1:
                 # assume solver dropped the cost's sensitivity (always 1.0)
                 la = np.hstack(([1.0], la))
+            if len(la) != len(self.hmaps):
+                raise RuntimeWarning("The dual solution was not returned.")
             # solver gave us posynomial sensitivities, generate monomial ones
             solver_out["la"] = la
             z = np.log(self.cs) + self.A.dot(solver_out["primal"])
@@ -396,10 +403,11 @@ class GeometricProgram:
         if any(np.abs(A.T.dot(nu)) > tol):
             raise Infeasible("Dual: sum of nu^T * A did not vanish.")
         b = np.log(self.cs)
-        dual_cost = sum(
-            self.nu_by_posy[i].dot(
-                b[mi] - np.log(self.nu_by_posy[i]/la[i]))
-            for i, mi in enumerate(self.m_idxs) if la[i])
+        dual_cost = 0
+        for i, mi in enumerate(self.m_idxs):
+            pos = self.nu_by_posy[i] > 0  # the others' terms vanish
+            nu_i = self.nu_by_posy[i][pos]
+            dual_cost += nu_i.dot(b[mi][pos] - np.log(nu_i/la[i]))
         if not almost_equal(np.exp(dual_cost), cost):
             raise Infeasible("Dual cost %s does not match primal cost %s"
                              % (np.exp(dual_cost), cost))
diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 7f5f676..4600c4d 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -145,6 +145,7 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
         try:
             program, solvefn = genfunction(self, dict(constants))
             self.program.append(program)  # NOTE: SIDE EFFECTS
+            program.model = None  # so that failures are not those of one model
             result = solvefn(solver, verbosity=verbosity-1, **solveargs)
             if solveargs.get("process_result", True):
                 self.process_result(result)
diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index b66d714..ee29d4d 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -80,6 +80,11 @@ class SolverLog(list):
         if self.verbosity > 0:  # pragma: no cover
             self.output.write(writ)
 
+    def flush(self):
+        "Flushes the output, for solvers that do so."
+        if self.verbosity > 0:  # pragma: no cover
+            self.output.flush()
+
 
 class DictOfLists(dict):
     "A hierarchy of dicionaries, with lists at the bottom."
-- 
2.43.0


From 5f2439f772b6e290832f28531d7a3d9d5fbb05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 043/105] fix: debug models whose constants are all zero or
 swept

---
 gpkit/constraints/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index c770c85..1f527b8 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -173,6 +173,9 @@ class Model(CostedConstraintSet):
         bounded = Bounded(self)
         if self.substitutions:
             tants = ConstantsRelaxed(bounded)
+            if not tants.relaxvars.size:
+                tants = None  # no constants can be relaxed
+        if tants is not None:
             feas = Model(tants.relaxvars.prod()**30 * self.cost, tants)
         else:
             feas = Model(self.cost, bounded)
-- 
2.43.0


From 33a178a62f4147ab903ea1add82fd1e75517cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 044/105] fix: comparisons with a numpy scalar on the left make
 constraints

---
 gpkit/nomials/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/nomials/data.py b/gpkit/nomials/data.py
index 29bb276..f35f165 100644
--- a/gpkit/nomials/data.py
+++ b/gpkit/nomials/data.py
@@ -14,6 +14,7 @@ class NomialData(ReprMixin):
     units: pint.UnitsContainer
     """
     # pylint: disable=too-many-instance-attributes
+    __array_priority__ = -1  # above numpy scalars, which would cast constraints
     _hashvalue = _varlocs = _exps = _cs = _varkeys = None
 
     def __init__(self, hmap):
-- 
2.43.0


From 785fd4848d6fefcc1e68d225bb0712f0838145a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 045/105] fix: print powers by lists and operations with arrays
 of quantities

---
 gpkit/repr_conventions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 1f07615..5413e03 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -48,7 +48,7 @@ def latex_unitstr(units):
 
 def strify(val, excluded):
     "Turns a value into as pretty a string as possible."
-    if isinstance(val, Numbers):
+    if isinstance(val, Numbers) and not np.shape(getattr(val, "magnitude", 0)):
         isqty = hasattr(val, "magnitude")
         if isqty:
             units = val
@@ -129,7 +129,7 @@ class ReprMixin:
             x = values[1]
             if left == "1":
                 aststr = "1"
-            elif (UNICODE_EXPONENTS and not getattr(x, "shape", None)
+            elif (UNICODE_EXPONENTS and isinstance(x, Numbers)
                   and int(x) == x and 2 <= x <= 9):
                 x = int(x)
                 if x in (2, 3):
-- 
2.43.0


From 1e5c542eb6a4b4c58bed0c28a9fa65055979742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 046/105] fix: array comparisons keep every constraint;
 quantities in arrays are nomials

---
 gpkit/nomials/array.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index 57f2ae4..487da57 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -22,12 +22,13 @@ def vec_recurse(element, function, *args, **kwargs):
 
 
 def keep_units(value):
-    "Returns Quantities as object arrays of Quantities (numpy strips units)."
+    "Returns Quantities as arrays of constant nomials (numpy strips units)."
     if isinstance(value, Quantity):
         mags, qunits = np.asarray(value.magnitude), value.units
         value = np.empty(mags.shape, dtype="object")
         for idx in np.ndindex(mags.shape):
-            value[idx] = Quantity(mags[idx], qunits)
+            value[idx] = Signomial(Quantity(mags[idx], qunits),
+                                   require_positive=False)
     elif isinstance(value, (list, tuple)):
         items = [keep_units(v) for v in value]
         if any(item is not v for item, v in zip(items, value)):
@@ -40,7 +41,7 @@ def keep_units(value):
 
 def array_constraint(symbol, func):
     "Return function which creates constraints of the given operator."
-    vecfunc = np.vectorize(func)
+    vecfunc = np.vectorize(func, otypes=["object"])
 
     def wrapped_func(self, other):
         "Creates array constraint from vectorized operator."
@@ -176,14 +177,17 @@ class NomialArray(ReprMixin, np.ndarray):
             raise ValueError("cannot sum NomialArray of size 0")
         if args or kwargs or not self.shape:
             return np.ndarray.sum(self, *args, **kwargs)
-        hmap = None
+        hmap, nomials = None, False
         for p in self.flat:  # pylint:disable=not-an-iterable
-            if not hasattr(p, "hmap"):
-                if not p:
-                    continue  # zeros add nothing, whatever their units
+            if hasattr(p, "hmap"):
+                nomials = True
+            elif not p:
+                continue  # zeros add nothing, whatever their units
+            else:
                 p = Signomial(p, require_positive=False)
             hmap = hmap + p.hmap if hmap is not None else p.hmap
-        out = Signomial(hmap if hmap is not None else 0)
+        out = Signomial(hmap if hmap is not None else 0,
+                        require_positive=nomials)
         out.ast = ("sum", (self, None))
         return out
 
-- 
2.43.0


From 2637319dbd389bc346900120b37757b49a9b2866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 047/105] fix: a variable named like a vector element is not
 that element

---
 gpkit/varkey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/varkey.py b/gpkit/varkey.py
index edd30d8..3c8f7ff 100644
--- a/gpkit/varkey.py
+++ b/gpkit/varkey.py
@@ -35,7 +35,8 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
 
         self.key = self
         fullstr = self.str_without(["modelnums", "vec"])
-        self.eqstr = fullstr + str(self.lineage) + self.unitrepr
+        self.eqstr = "".join(map(str, (fullstr, self.idx, self.lineage,
+                                       self.unitrepr)))
         self.hashvalue = hash(self.eqstr)
         self.keys = set((self.name, fullstr))
 
-- 
2.43.0


From 3f0de4f672bc95c3678e4bb48fc446b62c0e494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 048/105] fix: looking up an absent name does not add it

---
 gpkit/keydict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index d7edf15..1261cf7 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -308,4 +308,4 @@ class KeySet(KeyMap, set):
     def __getitem__(self, key):
         "Gets the keys corresponding to a particular key."
         key, _ = self.parse_and_index(key)
-        return self.keymap[key]
+        return self.keymap.get(key, set())  # so as not to add absent keys
-- 
2.43.0


From d9e3fbcc0d9df504a1e1d139601cf71621e7d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 049/105] fix: looking up one vector element by name returns it

---
 gpkit/constraints/set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 009ba5e..7d8ee66 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -128,7 +128,9 @@ class ConstraintSet(list, ReprMixin):
         if isinstance(key, int):
             return list.__getitem__(self, key)
         variables = self.variables_byname(key)
-        if variables and getattr(getattr(key, "key", None), "idx", None):
+        if len(variables) == 1 and (
+                getattr(getattr(key, "key", None), "idx", None)
+                or key == variables[0].key.str_without(["modelnums", "vec"])):
             return variables[0]  # a particular element was asked for
         return self._choosevar(key, variables)
 
-- 
2.43.0


From 72f876b184c430dab74c50fe2c5eebbdf9e828c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 050/105] fix: refuse nomials, classes and unbuilt sets as
 constraints

---
 gpkit/constraints/set.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 7d8ee66..4db1c6c 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -65,6 +65,7 @@ class ConstraintSet(list, ReprMixin):
     unique_varkeys, idxlookup = frozenset(), {}
     _name_collision_varkeys = None
     _varkeys = None
+    vks = None  # until initialized
 
     def __init__(self, constraints, substitutions=None, *, bonusvks=None):  # pylint: disable=too-many-branches,too-many-statements
         if isinstance(constraints, dict):
@@ -79,8 +80,17 @@ class ConstraintSet(list, ReprMixin):
         self.substitutions.cset = self
         self.bounded, self.meq_bounded = set(), defaultdict(set)
         for i, constraint in enumerate(self):
+            if isinstance(constraint, type):
+                raise badelement(self, i, constraint,
+                                 " It is a class, not an instance of one!")
             if hasattr(constraint, "vks"):
-                self._update(constraint)
+                try:
+                    self._update(constraint)
+                except Exception as e:
+                    cause = ""
+                    if isinstance(constraint, ConstraintSet):
+                        cause = " It had not yet been initialized!"
+                    raise badelement(self, i, constraint, cause) from e
             elif not (hasattr(constraint, "as_hmapslt1")
                       or hasattr(constraint, "as_gpconstr")):
                 try:
@@ -88,9 +98,6 @@ class ConstraintSet(list, ReprMixin):
                         self._update(subconstraint)
                 except Exception as e:
                     raise badelement(self, i, constraint) from e
-            elif isinstance(constraint, ConstraintSet):
-                raise badelement(self, i, constraint,
-                                 " It had not yet been initialized!")
         if bonusvks:
             self.vks.update(bonusvks)
         if substitutions:
-- 
2.43.0


From e383da658bae5c071403467b3357e32a4dc11bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 051/105] fix: values given inside Vectorize keep their
 precision, units and order

---
 gpkit/nomials/variables.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index 5997dc9..245bb3e 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -7,7 +7,8 @@ from .math import Monomial
 from .map import NomialMap
 from ..globals import NamedVariables, Vectorize
 from ..varkey import VarKey
-from ..small_classes import Strings, Numbers, HashVector
+from ..small_classes import (Strings, Numbers, HashVector, FixedScalar,
+                             Quantity)
 from ..small_scripts import is_sweepvar
 
 
@@ -44,8 +45,8 @@ class Variable(Monomial):
             for arg in args:
                 if isinstance(arg, Strings) and "name" not in descr:
                     descr["name"] = arg
-                elif (isinstance(arg, Numbers) or hasattr(arg, "__call__")
-                      and "value" not in descr):
+                elif (isinstance(arg, Numbers + (FixedScalar,))
+                      or hasattr(arg, "__call__") and "value" not in descr):
                     descr["value"] = arg
                 elif (isinstance(arg, Iterable)
                       and not isinstance(arg, Strings)):
@@ -119,7 +120,7 @@ class ArrayVariable(NomialArray):  # pylint: disable=too-many-locals
         for arg in args:
             if isinstance(arg, Strings) and "name" not in descr:
                 descr["name"] = arg
-            elif (isinstance(arg, (Numbers, Iterable))
+            elif (isinstance(arg, Numbers + (FixedScalar, Iterable))
                   and not isinstance(arg, Strings)
                   and "value" not in descr):
                 descr["value"] = arg
@@ -138,12 +139,18 @@ class ArrayVariable(NomialArray):  # pylint: disable=too-many-locals
             value_option = "value"
         if value_option:
             values = descr.pop(value_option)
+            if isinstance(values, FixedScalar):
+                values = values.value
         if value_option and not hasattr(values, "__call__"):
             if Vectorize.vectorization:
-                if not hasattr(values, "shape"):
-                    values = np.full(shape, values, "f")
-                else:
-                    values = np.broadcast_to(values, reversed(shape)).T
+                qunits = getattr(values, "units", None)
+                values = np.asarray(getattr(values, "magnitude", values))
+                # dimensions not given are those of the vectorization, last
+                newdims = (1,)*(len(shape) - values.ndim)
+                values = np.broadcast_to(values.reshape(values.shape+newdims),
+                                         shape)
+                if qunits is not None:
+                    values = Quantity(values, qunits)
             elif not hasattr(values, "shape"):
                 values = np.array(values)
             if values.shape != shape:
-- 
2.43.0


From 8aaacd8d53a6adb326310fc9227ce4500153d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 052/105] fix: exact coefficients in te_secant beyond the
 twelfth term

---
 gpkit/tools/tools.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpkit/tools/tools.py b/gpkit/tools/tools.py
index 7c7750f..38cc989 100644
--- a/gpkit/tools/tools.py
+++ b/gpkit/tools/tools.py
@@ -1,4 +1,5 @@
 """Non-application-specific convenience methods for GPkit"""
+from math import comb
 import numpy as np
 
 
@@ -54,10 +55,11 @@ def te_secant(var, nterm):
                       69348874393137901,
                       15514534163557086905])
     if nterm > 12:
-        n_extend = np.asarray(range(13, nterm+1))
-        E2n_add = (8 * np.sqrt(n_extend/np.pi)
-                   * (4*n_extend/(np.pi * np.exp(1)))**(2*n_extend))
-        E2n = np.append(E2n, E2n_add)
+        exact = [1]  # Euler numbers by exact recurrence: sec(x)*cos(x) = 1
+        for n in range(1, nterm+1):
+            exact.append(sum((-1)**(k+1) * comb(2*n, 2*k) * exact[n-k]
+                             for k in range(1, n+1)))
+        E2n = np.asarray(exact[1:], "float")
 
     res = 1
     factorial_denom = 1
-- 
2.43.0


From bd357608c4990c5be251b327d27ecb77ec7d5fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 053/105] fix: tables do not write into the solution's
 sensitivities

---
 gpkit/solution_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 8b59259..4e9657c 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -781,7 +781,7 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
         if np.isnan(v).all() or np.nanmax(np.abs(v)) <= minval:
             continue  # no values below minval
         if minval and hidebelowminval and getattr(v, "shape", None):
-            v[np.abs(v) <= minval] = np.nan
+            v = np.where(np.abs(v) <= minval, np.nan, v)
         model = lineagestr(k.lineage) if sortbymodel else ""
         msenss = -sortmodelsbysenss.get(model, 0) if sortmodelsbysenss else 0
         if hasattr(msenss, "shape"):
-- 
2.43.0


From 7ccba65a75336cc89b952e83bec11d040166de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 054/105] fix: a solution does not give values to variables it
 does not have

---
 gpkit/solution_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 4e9657c..7d51d16 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -357,6 +357,8 @@ class SolutionArray(DictOfLists):
 
     def __call__(self, posy):
         posy_subbed = self.subinto(posy)
+        if getattr(posy_subbed, "vks", None):
+            return posy_subbed  # not all of its variables are in the solution
         return getattr(posy_subbed, "c", posy_subbed)
 
     def almost_equal(self, other, reltol=1e-3, sens_abstol=0.01):
-- 
2.43.0


From a9c26736b9d970a8f0632f1db6f5a1938a96ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 055/105] fix: compare solutions with vectors, sweeps and
 linked variables

---
 gpkit/solution_array.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 7d51d16..f32a9f7 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -364,14 +364,17 @@ class SolutionArray(DictOfLists):
     def almost_equal(self, other, reltol=1e-3, sens_abstol=0.01):
         "Checks for almost-equality between two solutions"
         svars, ovars = self["variables"], other["variables"]
+        ssenss = self["sensitivities"]["variables"]
+        osenss = other["sensitivities"]["variables"]
         svks, ovks = set(svars), set(ovars)
         if svks != ovks:
             return False
         for key in svks:
-            if abs(cast(np.divide, svars[key], ovars[key]) - 1) >= reltol:
+            reldiff = abs(cast(np.divide, svars[key], ovars[key]) - 1)
+            if np.any(reldiff >= reltol):
                 return False
-            if abs(self["sensitivities"]["variables"][key]
-                   - other["sensitivities"]["variables"][key]) >= sens_abstol:
+            sensdiff = abs(cast(sub, ssenss.get(key, 0), osenss.get(key, 0)))
+            if np.any(sensdiff >= sens_abstol):
                 return False
         return True
 
@@ -470,7 +473,8 @@ class SolutionArray(DictOfLists):
             ssenss = self["sensitivities"]["variables"]
             osenss = other["sensitivities"]["variables"]
             senss_delta = {vk: cast(sub, ssenss[vk], osenss[vk])
-                           for vk in svks.intersection(ovks)}
+                           for vk in svks.intersection(ovks)
+                           if vk in ssenss and vk in osenss}
             lines += var_table(senss_delta,
                                "Sensitivity Differences |above %g|" % sensstol,
                                valfmt="%+-.2f  ", vecfmt="%+-6.2f",
-- 
2.43.0


From fbf93aec08410f770ef3837b08840d0077ddbdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 056/105] fix: the points of a sweep have the sweep's own
 constants

---
 gpkit/solution_array.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index f32a9f7..871a122 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -355,6 +355,15 @@ class SolutionArray(DictOfLists):
         except KeyError:
             return 0
 
+    def atindex(self, i):
+        "Indexes into each list independently."
+        if len(self) == 1:
+            return self
+        point = super().atindex(i)
+        for key in point.get("constants", ()):  # those not swept aren't lists
+            point["constants"][key] = point["variables"][key]
+        return point
+
     def __call__(self, posy):
         posy_subbed = self.subinto(posy)
         if getattr(posy_subbed, "vks", None):
-- 
2.43.0


From 3e7168ae1ec6ed3f170f0b1f68538241c29b89dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 057/105] fix: a failing table leaves no marks on the variables

---
 gpkit/solution_array.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 871a122..69dedbc 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -524,12 +524,14 @@ class SolutionArray(DictOfLists):
             showvars = self._parse_showvars(showvars)
         for key in self.name_collision_varkeys():
             key.descr["necessarylineage"] = True
-        names = {}
-        for key in showvars or self["variables"]:
-            for k in self["variables"].keymap[key]:
-                names[k.str_without(exclude)] = k
-        for key in self.name_collision_varkeys():
-            del key.descr["necessarylineage"]
+        try:
+            names = {}
+            for key in showvars or self["variables"]:
+                for k in self["variables"].keymap[key]:
+                    names[k.str_without(exclude)] = k
+        finally:
+            for key in self.name_collision_varkeys():
+                del key.descr["necessarylineage"]
         return names
 
     def savemat(self, filename="solution.mat", showvars=None,
@@ -702,6 +704,15 @@ class SolutionArray(DictOfLists):
             kwargs["sortbymodel"] = False
         for key in self.name_collision_varkeys():
             key.descr["necessarylineage"] = True
+        try:
+            strs = self._table_lines(showvars, tables, **kwargs)
+        finally:
+            for key in self.name_collision_varkeys():
+                del key.descr["necessarylineage"]
+        return "\n".join(strs)
+
+    def _table_lines(self, showvars, tables, **kwargs):
+        "Returns the lines of a table"
         showvars = self._parse_showvars(showvars)
         strs = []
         for table in tables:
@@ -733,9 +744,7 @@ class SolutionArray(DictOfLists):
                                   "% \\usepackage{amsmath}",
                                   "% \\begin{document}\n"))
             strs = [preamble] + strs + ["% \\end{document}"]
-        for key in self.name_collision_varkeys():
-            del key.descr["necessarylineage"]
-        return "\n".join(strs)
+        return strs
 
     def plot(self, posys=None, axes=None):
         "Plots a sweep for each posy"
-- 
2.43.0


From 1792d4a54e366e4989fc1ff46993645df602d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 058/105] fix: sweeps keep each point's own warnings

---
 gpkit/constraints/loose.py |  2 +-
 gpkit/constraints/tight.py |  3 ++-
 gpkit/small_classes.py     |  4 ++++
 gpkit/small_scripts.py     |  4 ++--
 gpkit/solution_array.py    | 29 ++++++++++++++++++++++-------
 5 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/gpkit/constraints/loose.py b/gpkit/constraints/loose.py
index 84d410d..595707f 100644
--- a/gpkit/constraints/loose.py
+++ b/gpkit/constraints/loose.py
@@ -25,6 +25,6 @@ class Loose(ConstraintSet):
                        (cstr, c_senss, self.senstol))
                 constraint.relax_sensitivity = c_senss
                 appendsolwarning(msg, constraint, result,
-                                 "Unexpectedly Tight Constraints")
+                                 "Unexpectedly Tight Constraints", c_senss)
                 if self.raiseerror:
                     raise RuntimeWarning(msg)
diff --git a/gpkit/constraints/tight.py b/gpkit/constraints/tight.py
index 063c4e7..c4d8008 100644
--- a/gpkit/constraints/tight.py
+++ b/gpkit/constraints/tight.py
@@ -37,4 +37,5 @@ class Tight(ConstraintSet):
                 constraint.tightvalues = (leftval, constraint.oper, rightval)
                 constraint.rel_diff = rel_diff
                 appendsolwarning(msg, constraint, result,
-                                 "Unexpectedly Loose Constraints")
+                                 "Unexpectedly Loose Constraints",
+                                 rel_diff, constraint.tightvalues)
diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index ee29d4d..0cb2c06 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -148,6 +148,10 @@ def _enray(d_in, d_out):
         else:
             if len(v) == 1:
                 v, = v
+            elif isinstance(v[0], (list, set)):  # e.g. warnings at each point
+                v, items = np.empty(len(v), "object"), v
+                for i, item in enumerate(items):
+                    v[i] = item
             else:
                 v = np.array(v)
             d_out[k] = v
diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index 57fe641..bf18c9f 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -4,13 +4,13 @@ from contextlib import contextmanager
 import numpy as np
 
 
-def appendsolwarning(msg, data, result, category="uncategorized"):
+def appendsolwarning(msg, data, result, category="uncategorized", *values):
     "Append a particular category of warnings to a solution."
     if "warnings" not in result:
         result["warnings"] = {}
     if category not in result["warnings"]:
         result["warnings"][category] = []
-    result["warnings"][category].append((msg, data))
+    result["warnings"][category].append((msg, data) + values)
 
 
 @np.vectorize
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 69dedbc..a217567 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -237,23 +237,26 @@ def warnings_table(self, _, **kwargs):
         if not hasattr(data_vec, "shape"):
             data_vec = [data_vec]
         for i, data in enumerate(data_vec):
+            if len(data) == 0:  # no such warnings at this point of the sweep
+                continue
             data = sorted(data, key=lambda l: l[0])  # sort by msg
             title = wtype
             if len(data_vec) > 1:
                 title += " in sweep %i" % i
             if wtype == "Unexpectedly Tight Constraints" and data[0][1]:
-                data = [(-int(1e5*c.relax_sensitivity),
-                         "%+6.2g" % c.relax_sensitivity, id(c), c)
-                        for _, c in data]
+                data = [(-int(1e5*senss), "%+6.2g" % senss, id(c), c)
+                        for _, c, senss in data]
                 lines += constraint_table(data, title, **kwargs)
             elif wtype == "Unexpectedly Loose Constraints" and data[0][1]:
-                data = [(-int(1e5*c.rel_diff),
-                         "%.4g %s %.4g" % c.tightvalues, id(c), c)
-                        for _, c in data]
+                data = [(-int(1e5*rel_diff),
+                         "%.4g %s %.4g" % tightvalues, id(c), c)
+                        for _, c, rel_diff, tightvalues in data]
                 lines += constraint_table(data, title, **kwargs)
             else:
                 lines += [title] + ["-"*len(wtype)]
-                lines += [msg for msg, _ in data] + [""]
+                lines += [msg for msg, *_ in data] + [""]
+    if len(lines) == 3:  # only the title
+        return []
     lines[-1] = "~~~~~~~~"
     return lines + [""]
 
@@ -355,6 +358,18 @@ class SolutionArray(DictOfLists):
         except KeyError:
             return 0
 
+    def append(self, sol):
+        "Appends a result, even if its kinds of warnings differ from the rest's"
+        n = len(self["cost"]) if self else 0
+        for name, blank in (("warnings", list), ("boundedness", set)):
+            if n and (name in self or name in sol):
+                kinds = self.setdefault(name, {})
+                sol = {**sol, name: dict(sol.get(name, {}))}
+                for kind in set(kinds).union(sol[name]):
+                    kinds.setdefault(kind, [blank() for _ in range(n)])
+                    sol[name].setdefault(kind, blank())
+        super().append(sol)
+
     def atindex(self, i):
         "Indexes into each list independently."
         if len(self) == 1:
-- 
2.43.0


From 816130187613bbb314726909a845163596c469c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 059/105] fix: arrays keep their names and origins when pickled

---
 gpkit/nomials/array.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index 487da57..18b99a4 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -139,6 +139,18 @@ class NomialArray(ReprMixin, np.ndarray):
         # Input is an already formed ndarray instance cast to our class type
         return np.asarray(keep_units(input_array)).view(cls)
 
+    def __reduce__(self):
+        "Pickles attributes (e.g. key and ast) along with the array."
+        function, args, state = np.ndarray.__reduce__(self)
+        return function, args, (state, self.__dict__)
+
+    def __setstate__(self, state):
+        "Restores attributes along with the array."
+        if len(state) == 2:  # otherwise pickled without attributes
+            state, attributes = state
+            self.__dict__.update(attributes)
+        np.ndarray.__setstate__(self, state)
+
     def __array_finalize__(self, obj):
         "Finalizer. Required for objects inheriting from np.ndarray."
 
-- 
2.43.0


From 3be541560ecfa0eff607fbf7391c60afbddb35b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:30 +0000
Subject: [PATCH 060/105] fix: quote names and labels in exported csv files

---
 gpkit/solution_array.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index a217567..cc2c1e1 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -23,6 +23,13 @@ VALSTR_REPLACES = [
 ]
 
 
+def csvcell(text):
+    "Quotes text which would otherwise be split into several CSV cells."
+    if any(char in text for char in ',"\n\r'):
+        return '"%s"' % text.replace('"', '""')
+    return text
+
+
 class SolSavingEnvironment:
     """Temporarily removes construction/solve attributes from constraints.
 
@@ -628,18 +635,18 @@ class SolutionArray(DictOfLists):
                     + "Units,Description\n")
             for line in lines:
                 if line[0] == ("newmodelline",):
-                    f.write(line[1])
+                    f.write(csvcell(line[1]))
                 elif not line[1]:  # spacer line
                     f.write("\n")
                 else:
-                    f.write("," + line[0].replace(" : ", "") + ",")
+                    f.write("," + csvcell(line[0].replace(" : ", "")) + ",")
                     vals = line[1].replace("[", "").replace("]", "").strip()
                     for el in vals.split():
                         f.write(el + ",")
                     f.write(","*(valcols - len(vals.split())))
                     f.write((line[2].replace("[", "").replace("]", "").strip()
                              + ","))
-                    f.write(line[3].strip() + "\n")
+                    f.write(csvcell(line[3].strip()) + "\n")
 
     def subinto(self, posy):
         "Returns NomialArray of each solution substituted into posy."
-- 
2.43.0


From f9db5f36243d54129e8018f21788bb3c04770f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 061/105] fix: Tight compares the terms of constraints whose
 right side is zero

---
 gpkit/constraints/loose.py | 3 ++-
 gpkit/constraints/tight.py | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/loose.py b/gpkit/constraints/loose.py
index 595707f..8b7d8d1 100644
--- a/gpkit/constraints/loose.py
+++ b/gpkit/constraints/loose.py
@@ -10,7 +10,8 @@ class Loose(ConstraintSet):
 
     def __init__(self, constraints, *, senstol=None):
         super().__init__(constraints)
-        self.senstol = senstol or self.senstol
+        if senstol is not None:
+            self.senstol = senstol
 
     def process_result(self, result):
         "Checks that all constraints are satisfied with equality"
diff --git a/gpkit/constraints/tight.py b/gpkit/constraints/tight.py
index c4d8008..c9c6209 100644
--- a/gpkit/constraints/tight.py
+++ b/gpkit/constraints/tight.py
@@ -11,7 +11,8 @@ class Tight(ConstraintSet):
 
     def __init__(self, constraints, *, reltol=None, **kwargs):
         super().__init__(constraints)
-        self.reltol = reltol or self.reltol
+        if reltol is not None:
+            self.reltol = reltol
         self.__dict__.update(kwargs)  # NOTE: for Berk's use in labelling
 
     def process_result(self, result):
@@ -22,6 +23,11 @@ class Tight(ConstraintSet):
             with SignomialsEnabled():
                 leftval = constraint.left.sub(variables).value
                 rightval = constraint.right.sub(variables).value
+                if not rightval:  # e.g. for x - y >= 0, compares x with y
+                    posy, negy = (constraint.left
+                                  - constraint.right).posy_negy()
+                    leftval = posy.sub(variables).value
+                    rightval = negy.sub(variables).value
             rel_diff = abs(1 - leftval/rightval)
             if rel_diff >= self.reltol:
                 msg = ("Constraint [%.100s... %s %.100s...] is not tight:"
-- 
2.43.0


From 0a95461a7792b0d32e41d11f6bb3584af0a32655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 062/105] fix: a second Bounded set keeps the bounds the first
 reported

---
 gpkit/constraints/bounded.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/bounded.py b/gpkit/constraints/bounded.py
index 8f87eda..c432468 100644
--- a/gpkit/constraints/bounded.py
+++ b/gpkit/constraints/bounded.py
@@ -72,7 +72,9 @@ class Bounded(ConstraintSet):
         super().process_result(result)
         if "boundedness" not in result:
             result["boundedness"] = {}
-        result["boundedness"].update(self.check_boundaries(result))
+        boundedness = result["boundedness"]
+        for bound, vks in self.check_boundaries(result).items():
+            boundedness[bound] = boundedness.get(bound, set()).union(vks)
 
     def check_boundaries(self, result):
         "Creates (and potentially prints) a dictionary of unbounded variables."
-- 
2.43.0


From fb684446d2faea5307090c05f467ea2ea117c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 063/105] fix: sensitivities of linked variables follow their
 current links

---
 gpkit/constraints/gp.py             |  7 +++++--
 gpkit/constraints/prog_factories.py | 10 ++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 37c57d7..68ccf0a 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -72,6 +72,9 @@ class GeometricProgram:
 
     def __init__(self, cost, constraints, substitutions, *, checkbounds=True):
         self.cost, self.substitutions = cost, substitutions
+        # those of linked variables, which other programs might re-evaluate
+        self.gradients = {key: key.gradients for key in substitutions
+                          if getattr(key, "gradients", None)}
         for key, sub in self.substitutions.items():
             if isinstance(sub, FixedScalar):
                 sub = sub.value
@@ -336,11 +339,11 @@ class GeometricProgram:
             m_senss[lineagestr(vk)] += abs(senss)
         result["sensitivities"]["models"] = dict(m_senss)
         # carry linked sensitivities over to their constants
-        for v in list(v for v in gpv_ss if v.gradients):
+        for v in list(v for v in gpv_ss if v in self.gradients):
             dlogcost_dlogv = gpv_ss.pop(v)
             dlogcostfn_dlogv = cost_senss.pop(v, None)
             val = np.array(result["constants"][v])
-            for c, dv_dc in v.gradients.items():
+            for c, dv_dc in self.gradients[v].items():
                 with warnings.catch_warnings():  # skip pesky divide-by-zeros
                     warnings.simplefilter("ignore")
                     dlogv_dlogc = dv_dc * result["constants"][c]/val
diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 4600c4d..a4955db 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -11,6 +11,10 @@ from ..exceptions import Infeasible
 
 def evaluate_linked(constants, linked):
     "Evaluates the values and gradients of linked variables."
+    for v in constants:
+        v.descr.pop("gradients", None)  # it may no longer be linked
+    if not linked:
+        return
     kdc = KeyDict({k: adnumber(maybe_flatten(v), k)
                    for k, v in constants.items()})
     kdc_plain = None
@@ -56,8 +60,7 @@ def progify(program, return_attr=None):
         "Return program version of self"
         if not constants:
             constants, _, linked = parse_subs(self.varkeys, self.substitutions)
-            if linked:
-                evaluate_linked(constants, linked)
+            evaluate_linked(constants, linked)
         prog = program(self.cost, self, constants, **initargs)
         prog.model = self  # NOTE SIDE EFFECTS
         if return_attr:
@@ -140,8 +143,7 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
     for i in range(N_passes):
         constants.update({var: sweep_vect[i]
                           for (var, sweep_vect) in sweep_vects.items()})
-        if linked:
-            evaluate_linked(constants, linked)
+        evaluate_linked(constants, linked)
         try:
             program, solvefn = genfunction(self, dict(constants))
             self.program.append(program)  # NOTE: SIDE EFFECTS
-- 
2.43.0


From 54365e05ee9b2ea04b0d5aed39a2c4b0028b2507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 064/105] fix: linked functions inside Vectorize may return a
 single value

---
 gpkit/constraints/prog_factories.py |  4 +++-
 gpkit/nomials/variables.py          | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index a4955db..ec312a3 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -3,6 +3,7 @@ from time import time
 import numpy as np
 from ad import adnumber
 from ..nomials import parse_subs
+from ..nomials.variables import fill_shape
 from ..solution_array import SolutionArray
 from ..keydict import KeyDict, clean_value
 from ..small_scripts import maybe_flatten
@@ -24,7 +25,8 @@ def evaluate_linked(constants, linked):
             if v.veckey and v.veckey.original_fn:
                 if v.veckey not in array_calulated:
                     ofn = v.veckey.original_fn
-                    array_calulated[v.veckey] = np.array(ofn(kdc))
+                    array_calulated[v.veckey] = fill_shape(ofn(kdc),
+                                                               v.veckey.shape)
                 out = array_calulated[v.veckey][v.idx]
             else:
                 out = f(kdc)
diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index 245bb3e..ea75146 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -174,7 +174,7 @@ class ArrayVariable(NomialArray):  # pylint: disable=too-many-locals
             descr["idx"] = i
             if value_option:
                 if hasattr(values, "__call__"):
-                    descr[value_option] = veclinkedfn(values, i)
+                    descr[value_option] = veclinkedfn(values, i, shape)
                 else:
                     descr[value_option] = values[i]
             vl[i] = Variable(**descr)
@@ -185,11 +185,20 @@ class ArrayVariable(NomialArray):  # pylint: disable=too-many-locals
         return obj
 
 
-def veclinkedfn(linkedfn, i):
+def fill_shape(values, shape):
+    "Returns an array of values, repeated along the dimensions they lack."
+    values = np.array(values)
+    if values.ndim < len(shape):  # dimensions not given are the last ones
+        newdims = (1,)*(len(shape) - values.ndim)
+        values = np.broadcast_to(values.reshape(values.shape+newdims), shape)
+    return values
+
+
+def veclinkedfn(linkedfn, i, shape):
     "Generate an indexed linking function."
     def newlinkedfn(c):
         "Linked function that pulls out a particular index"
-        return np.array(linkedfn(c))[i]
+        return fill_shape(linkedfn(c), shape)[i]
     return newlinkedfn
 
 
-- 
2.43.0


From 6a7b0c2ad0a5dc7c163d9fd77dafde18f27e0353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 065/105] fix: functions substituted for elements of a linked
 vector are used

---
 gpkit/constraints/prog_factories.py | 4 ++--
 gpkit/nomials/variables.py          | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index ec312a3..3eb33f1 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -22,9 +22,9 @@ def evaluate_linked(constants, linked):
     array_calulated = {}
     for v, f in linked.items():
         try:
-            if v.veckey and v.veckey.original_fn:
+            ofn = getattr(f, "original_fn", None)
+            if v.veckey and ofn and ofn is v.veckey.original_fn:
                 if v.veckey not in array_calulated:
-                    ofn = v.veckey.original_fn
                     array_calulated[v.veckey] = fill_shape(ofn(kdc),
                                                                v.veckey.shape)
                 out = array_calulated[v.veckey][v.idx]
diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index ea75146..2fc4ec2 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -199,6 +199,7 @@ def veclinkedfn(linkedfn, i, shape):
     def newlinkedfn(c):
         "Linked function that pulls out a particular index"
         return fill_shape(linkedfn(c), shape)[i]
+    newlinkedfn.original_fn = linkedfn
     return newlinkedfn
 
 
-- 
2.43.0


From f33acc8de2c7fd2aae300a7228e646359c975e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 066/105] fix: linked variables of linked variables are
 evaluated in turn

---
 gpkit/constraints/prog_factories.py | 26 +++++++++++++++++---------
 gpkit/constraints/relax.py          |  6 ++++--
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 3eb33f1..5680c84 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -16,17 +16,18 @@ def evaluate_linked(constants, linked):
         v.descr.pop("gradients", None)  # it may no longer be linked
     if not linked:
         return
-    kdc = KeyDict({k: adnumber(maybe_flatten(v), k)
-                   for k, v in constants.items()})
-    kdc_plain = None
-    array_calulated = {}
-    for v, f in linked.items():
+    known = {k: v for k, v in constants.items() if k not in linked}
+    kdc = KeyDict({k: adnumber(maybe_flatten(v), k) for k, v in known.items()})
+    outs, array_calulated = {}, {}
+    waiting, n_deferred = list(linked.items()), 0
+    while waiting:
+        v, f = waiting.pop(0)
         try:
             ofn = getattr(f, "original_fn", None)
             if v.veckey and ofn and ofn is v.veckey.original_fn:
                 if v.veckey not in array_calulated:
                     array_calulated[v.veckey] = fill_shape(ofn(kdc),
-                                                               v.veckey.shape)
+                                                           v.veckey.shape)
                 out = array_calulated[v.veckey][v.idx]
             else:
                 out = f(kdc)
@@ -35,6 +36,10 @@ def evaluate_linked(constants, linked):
                                     for adn, grad in out.d().items()
                                     if adn.tag}  # else it's user-created
         except Exception as exception:  # pylint: disable=broad-except
+            if isinstance(exception, KeyError) and n_deferred <= len(waiting):
+                waiting.append((v, f))  # it may need those other linked vars
+                n_deferred += 1
+                continue
             from .. import settings
             if settings.get("ad_errors_raise", None):
                 raise
@@ -42,10 +47,13 @@ def evaluate_linked(constants, linked):
                   " %s because %s was raised. Set `gpkit.settings"
                   "[\"ad_errors_raise\"] = True` to raise such Exceptions"
                   " directly.\n" % (v, repr(exception)))
-            if kdc_plain is None:
-                kdc_plain = KeyDict(constants)
-            constants[v] = f(kdc_plain)
+            constants[v] = f(KeyDict(known))
             v.descr.pop("gradients", None)
+            out = adnumber(constants[v], v)
+        outs[v], n_deferred = out, 0
+        if not v.veckey or all(w.veckey != v.veckey for w, _ in waiting):
+            for w in [w for w in outs if w == v or w.veckey == (v.veckey or v)]:
+                known[w], kdc[w] = constants[w], outs[w]
 
 
 def progify(program, return_attr=None):
diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index e99d446..eeea84f 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -4,6 +4,7 @@ from ..nomials import Variable, VectorVariable, parse_subs, NomialArray
 from ..keydict import KeyDict
 from .. import NamedVariables, SignomialsEnabled
 from ..small_scripts import appendsolwarning, mag
+from .prog_factories import evaluate_linked
 
 
 class ConstraintsRelaxedEqually(ConstraintSet):
@@ -163,9 +164,10 @@ class ConstantsRelaxed(ConstraintSet):
         substitutions = KeyDict(constraints.substitutions)
         constants, _, linked = parse_subs(constraints.vks, substitutions)
         if linked:
-            kdc = KeyDict(constants)
+            evaluated = dict(constants)
+            evaluate_linked(evaluated, linked)
             constrained_varkeys = constraints.constrained_varkeys()
-            constants.update({k: f(kdc) for k, f in linked.items()
+            constants.update({k: evaluated[k] for k in linked
                               if k in constrained_varkeys})
 
         self._derelax_map = {}
-- 
2.43.0


From 0a30ff5f6c911ae032ba4dbb159fcd95a6f635e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 067/105] fix: linked functions of vectors wait for the
 vectors' linked elements

---
 gpkit/constraints/prog_factories.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 5680c84..8a99b6d 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -31,6 +31,11 @@ def evaluate_linked(constants, linked):
                 out = array_calulated[v.veckey][v.idx]
             else:
                 out = f(kdc)
+            if out.x != out.x:  # pylint: disable=comparison-with-itself
+                if v.veckey in array_calulated:
+                    del array_calulated[v.veckey]
+                if n_deferred <= len(waiting):
+                    raise KeyError("nan, as of a vector's unknown elements")
             constants[v] = out.x
             v.descr["gradients"] = {adn.tag: grad
                                     for adn, grad in out.d().items()
-- 
2.43.0


From 856c4b6968c0d5c1e101d0debdffbc4f25dff294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 068/105] fix: declaration lines in docstrings are found by
 position

---
 gpkit/tools/docstring.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index 5105ca7..b0ca575 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -136,23 +136,17 @@ def constant_declare(string, flag, idx2, countstr):
     return countstr.replace("')", "', constant=True)")
 
 
-# pylint: disable=too-many-locals
 def check_and_parse_flag(string, flag, declaration_func=None):
     "Checks for instances of flag in string and parses them."
     overallstr = ""
-    originalstr = string
     lineidxs = []
-    for _ in range(string.count(flag)):
+    stringlines = string.split("\n")
+    for idx, header in enumerate(line + "\n" for line in stringlines[:-1]):
+        if flag not in header:
+            continue
         countstr = ""
-        idx = string.index(flag)
-        string = string[idx:]
-        if idx == -1:
-            idx = 0
-            skiplines = 0
-        else:
-            skiplines = 2
-        idx2 = 0 if "\n" in flag else string.index("\n")
-        for line in string[idx2:].split("\n")[skiplines:]:
+        start = idx + 2  # skip the header and its underline
+        for lineidx, line in enumerate(stringlines[start:], start):
             if not line.strip():  # whitespace only
                 break
             try:
@@ -170,13 +164,12 @@ def check_and_parse_flag(string, flag, declaration_func=None):
                     labelstart += 1
                 label = line[labelstart:].replace("'", "\\'")
             countstr += variable_declaration(nameval, units, label, line)
-            # note that this is a 0-based line indexing
-            lineidxs.append(originalstr[:originalstr.index(line)].count("\n"))
+            lineidxs.append(lineidx)  # note that this is 0-based
         if declaration_func is None:
             overallstr += countstr
         else:
-            overallstr += declaration_func(string, flag, idx2, countstr)
-        string = string[idx2+len(flag):]
+            header = header[header.index(flag):]
+            overallstr += declaration_func(header, flag, len(header), countstr)
     return overallstr, lineidxs
 
 
-- 
2.43.0


From 3b6754ef12f81fbcc6b95122ee942a708506cd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 069/105] fix: labels in docstring declarations are taken
 literally

---
 gpkit/tools/docstring.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index b0ca575..7cd63bc 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -127,13 +127,14 @@ def parse_varstring(string):
 def vv_declare(string, flag, idx2, countstr):
     "Turns Variable declarations into VectorVariable ones"
     length = string[len(flag):idx2].strip()
-    return countstr.replace("Variable(", "VectorVariable(%s, " % length)
+    return "".join(line.replace("Variable(", "VectorVariable(%s, " % length, 1)
+                   for line in countstr.splitlines(True))
 
 
 # pylint: disable=unused-argument
 def constant_declare(string, flag, idx2, countstr):
     "Turns Variable declarations into Constant ones"
-    return countstr.replace("')", "', constant=True)")
+    return countstr.replace(")\n", ", constant=True)\n")
 
 
 def check_and_parse_flag(string, flag, declaration_func=None):
@@ -156,13 +157,7 @@ def check_and_parse_flag(string, flag, declaration_func=None):
                                  " not found on the line reading:\n"
                                  "    %s" % line)
             nameval = line[:line.index("[")].split()
-            labelstart = line.index("]") + 1
-            if labelstart >= len(line):
-                label = ""
-            else:
-                while line[labelstart] == " ":
-                    labelstart += 1
-                label = line[labelstart:].replace("'", "\\'")
+            label = line[line.index("]")+1:].strip()
             countstr += variable_declaration(nameval, units, label, line)
             lineidxs.append(lineidx)  # note that this is 0-based
         if declaration_func is None:
@@ -186,9 +181,9 @@ def variable_declaration(nameval, units, label, line, errorcatch=True):
                          " '%s' and the Units `%s`. %s"
                          % (line, nameval[1], units, PARSETIP))
     if len(nameval) == 2:
-        out = ("{0} = self.{0} = Variable('{0}', {1}, '{2}', '{3}')")
+        out = ("{0} = self.{0} = Variable('{0}', {1}, '{2}', {3!r})")
         out = out.format(nameval[0], nameval[1], units, label)
     elif len(nameval) == 1:
-        out = ("{0} = self.{0} = Variable('{0}', '{1}', '{2}')")
+        out = ("{0} = self.{0} = Variable('{0}', '{1}', {2!r})")
         out = out.format(nameval[0], units, label)
     return out + "\n"
-- 
2.43.0


From d25391b62bb06d9a992e4a4de9dabb76d15e0eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 070/105] fix: docstring declarations without a name are
 refused with ValueError

---
 gpkit/tools/docstring.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index 7cd63bc..35e5193 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -175,6 +175,10 @@ PARSETIP = ("Is this line following the format `Name (optional Value) [Units]"
 
 def variable_declaration(nameval, units, label, line, errorcatch=True):
     "Turns parsed output into a Variable declaration"
+    if not nameval:
+        raise ValueError("while parsing the line '%s', no Name was found"
+                         " before the Units `%s`. %s"
+                         % (line, units, PARSETIP))
     if len(nameval) > 2:
         raise ValueError("while parsing the line '%s', additional fields"
                          " (separated by whitespace) were found between Value"
-- 
2.43.0


From 400c51200b105f1f3ac8e22077e015e5a37c0935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 071/105] fix: parse_variables keeps the setup function's
 source as it is

---
 gpkit/tools/docstring.py | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index 35e5193..8a71db2 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -76,33 +76,19 @@ parse_variables is no longer used directly with exec, but as a decorator:
 
 """)
 
-    def __call__(self, function):  # pylint:disable=too-many-locals
+    def __call__(self, function):
         orig_lines, lineno = inspect.getsourcelines(function)
-        indent_length = 0
-        while orig_lines[1][indent_length] in [" ", "\t"]:
-            indent_length += 1
-        first_indent_length = indent_length
-        setup_lines = 1
-        while "):" not in orig_lines[setup_lines]:
-            setup_lines += 1
-        next_indented_idx = setup_lines + 1
-        # get the next indented line
-        while len(orig_lines[next_indented_idx]) <= indent_length + 1:
-            next_indented_idx += 1
-        while orig_lines[next_indented_idx][indent_length] in [" ", "\t"]:
-            indent_length += 1
-        second_indent = orig_lines[next_indented_idx][:indent_length]
-        parse_lines = [second_indent + line + "\n"
-                       for line in parse_varstring(self.string).split("\n")]
-        parse_lines += [second_indent + '# (@parse_variables spacer line)\n']
-        parse_lines += [second_indent + '# (setup spacer line)\n']*setup_lines
-        # make ast of these new lines, insert it into the original ast
-        new_lines = (orig_lines[1:setup_lines+1] + parse_lines
-                     + orig_lines[setup_lines+1:])
-        new_src = "\n".join([l[first_indent_length:-1] for l in new_lines
-                             if "#" not in l[:first_indent_length]])
-        new_ast = ast.parse(new_src, "<parse_variables>")
-        ast.increment_lineno(new_ast, n=lineno-len(parse_lines))
+        # indented functions are parsed within an if statement, because removing
+        # their indentation could change multi-line strings
+        orig_lines[0] = "if True:\n" if orig_lines[1][0].isspace() else "\n"
+        new_ast = ast.parse("".join(orig_lines), "<parse_variables>")
+        ast.increment_lineno(new_ast, n=lineno-1)
+        funcdef = next(node for node in ast.walk(new_ast)
+                       if isinstance(node, ast.FunctionDef))
+        # declarations have the line numbers of a docstring above the function
+        parse_ast = ast.parse(parse_varstring(self.string), "<parse_variables>")
+        ast.increment_lineno(parse_ast, n=lineno-2-self.string.count("\n"))
+        funcdef.body[:0] = parse_ast.body
         code = compile(new_ast, inspect.getsourcefile(function), "exec",
                        dont_inherit=True)  # don't inherit __future__ from here
         out = {}
-- 
2.43.0


From b28291c8537e9bcea74bedaff5644f29557fddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 072/105] fix: bound lists in docstrings are read up to the
 next blank line

---
 gpkit/tools/docstring.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index 8a71db2..dbb36c7 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -1,5 +1,4 @@
 "Docstring-parsing methods"
-import re
 import inspect
 import ast
 import numpy as np
@@ -17,17 +16,13 @@ def expected_unbounded(instance, doc):
         if count > 1:
             raise ValueError("multiple instances of %s" % flag)
 
-        idx = doc.index(flag) + len(flag)
-        idx2 = doc[idx:].index("\n")
-        try:
-            idx3 = doc[idx:][idx2+1:].index("\n\n")
-        except ValueError:
-            idx3 = doc[idx:][idx2+1:].index("\n")
-        varstrs = doc[idx:][idx2+1:][:idx3].strip()
-        varstrs = varstrs.replace("\n", ", ")  # cross newlines
-        varstrs = re.sub(" +", " ", varstrs)   # multiple-whitespace removal
+        varstrs = []  # entries up to the next blank line, after the underline
+        for line in doc[doc.index(flag):].split("\n")[2:]:
+            if not line.strip():
+                break
+            varstrs += [var.strip() for var in line.split(",") if var.strip()]
         if varstrs:
-            for var in varstrs.split(", "):
+            for var in varstrs:
                 if " (if " in var:  # it's a conditional!
                     var, condition = var.split(" (if ")
                     assert condition[-1] == ")"
-- 
2.43.0


From 8e7492cd469114627c0bd94acd2f2ff31e86b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 073/105] fix: bounds are verified for each of the model's
 variables

---
 gpkit/constraints/model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 1f527b8..08065d2 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -111,12 +111,11 @@ class Model(CostedConstraintSet):
             self.missingbounds[bound] = (", but would gain it from any of"
                                          " these sets of bounds: " + bsets)
         # then add everything that's not in bounded
-        if len(bounded)+len(self.missingbounds) != 2*len(self.varkeys):
-            for key in self.varkeys:
-                for bound in ("upper", "lower"):
-                    if (key, bound) not in bounded:
-                        if (key, bound) not in self.missingbounds:
-                            self.missingbounds[(key, bound)] = ""
+        for key in self.vks:
+            for bound in ("upper", "lower"):
+                if (key, bound) not in bounded:
+                    if (key, bound) not in self.missingbounds:
+                        self.missingbounds[(key, bound)] = ""
         if self.missingbounds:  # anything unbounded? err!
             boundstrs = "\n".join("  %s has no %s bound%s" % (v, b, x)
                                   for (v, b), x
-- 
2.43.0


From e71c5b95cb60f1b0b289d34c3d05ccac9ed6ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 074/105] fix: an equality of a single variable bounds it

---
 gpkit/nomials/math.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 12cf64a..a8d3d8e 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -575,8 +575,12 @@ class MonomialEquality(PosynomialInequality):
         self.bounded = set()
         self.meq_bounded = {}
         self._las = []
-        if self.unsubbed and len(self.vks) > 1:
+        if self.unsubbed:
             exp, = self.unsubbed[0].hmap
+            if len(exp) == 1:  # the only variable is set by this equality
+                key, = exp
+                self.bounded.update([(key, "upper"), (key, "lower")])
+                return
             for key, e in exp.items():
                 s_e = np.sign(e)
                 ubs = frozenset((k, "upper" if np.sign(e) != s_e else "lower")
-- 
2.43.0


From 0fad856842e4fed8290fb9d7e8b51ab14db04571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 075/105] fix: parenthesize looks between parentheses

---
 gpkit/repr_conventions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 5413e03..7e2e071 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -5,7 +5,7 @@ import numpy as np
 from .small_classes import Quantity, Numbers
 from .small_scripts import try_str_without
 
-INSIDE_PARENS = re.compile(r"\(.*\)")
+INSIDE_PARENS = re.compile(r"\([^()]*\)")
 
 if sys.platform[:3] == "win":  # pragma: no cover
     MUL = "*"
@@ -72,7 +72,9 @@ def strify(val, excluded):
 
 def parenthesize(string, addi=True, mult=True):
     "Parenthesizes a string if it needs it and isn't already."
-    parensless = string if "(" not in string else INSIDE_PARENS.sub("", string)
+    parensless, removed = string, True
+    while removed:  # from the innermost parentheses out
+        parensless, removed = INSIDE_PARENS.subn("", parensless)
     bare_addi = (" + " in parensless or " - " in parensless)
     bare_mult = ("·" in parensless or "/" in parensless)
     if parensless and (addi and bare_addi) or (mult and bare_mult):
-- 
2.43.0


From 7e6b9446b5e6259a2c1b854db79d3887a06b4a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 076/105] fix: negatives and powers are parenthesized when
 raised to powers

---
 gpkit/repr_conventions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 7e2e071..4a8e80d 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -5,6 +5,7 @@ import numpy as np
 from .small_classes import Quantity, Numbers
 from .small_scripts import try_str_without
 
+POWER = re.compile("[\\^²³⁴-⁹]")
 INSIDE_PARENS = re.compile(r"\([^()]*\)")
 
 if sys.platform[:3] == "win":  # pragma: no cover
@@ -128,6 +129,8 @@ class ReprMixin:
             aststr = "-%s" % parenthesize(strify(values, excluded), mult=False)
         elif oper == "pow":
             left = parenthesize(strify(values[0], excluded))
+            if left[0] == "-" or POWER.search(INSIDE_PARENS.sub("", left)):
+                left = "(%s)" % left
             x = values[1]
             if left == "1":
                 aststr = "1"
@@ -141,7 +144,8 @@ class ReprMixin:
             else:
                 aststr = "%s^%s" % (left, x)
         elif oper == "prod":  # TODO: only do if it makes a shorter string
-            aststr = "%s.prod()" % parenthesize(strify(values[0], excluded))
+            left = parenthesize(strify(values[0], excluded))
+            aststr = ("(%s).prod()" if left[0] == "-" else "%s.prod()") % left
         elif oper == "sum":  # TODO: only do if it makes a shorter string
             aststr = "%s.sum()" % parenthesize(strify(values[0], excluded))
         elif oper == "index":  # TODO: label vectorization idxs
-- 
2.43.0


From d96d93811ce12549e27808f496b3181e34582d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 077/105] fix: indices are printed as they were given

---
 gpkit/repr_conventions.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 4a8e80d..e51122f 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -83,6 +83,18 @@ def parenthesize(string, addi=True, mult=True):
     return string
 
 
+def idxstr(idx):
+    "Returns the string corresponding to an index."
+    if isinstance(idx, tuple):
+        return ",".join(map(idxstr, idx))
+    if isinstance(idx, slice):
+        start = idx.start or ""
+        stop = "" if idx.stop is None or idx.stop >= sys.maxsize else idx.stop
+        step = ":%s" % idx.step if idx.step is not None else ""
+        return "%s:%s%s" % (start, stop, step)
+    return "..." if idx is Ellipsis else str(idx)
+
+
 class ReprMixin:
     "This class combines various printing methods for easier adoption."
     lineagestr = lineagestr
@@ -153,24 +165,7 @@ class ReprMixin:
             idx = values[1]
             if left[-3:] == "[:]":  # pure variable access
                 left = left[:-3]
-            if isinstance(idx, tuple):
-                elstrs = []
-                for el in idx:
-                    if isinstance(el, slice):
-                        start = el.start or ""
-                        stop = (el.stop if el.stop and el.stop < sys.maxsize
-                                else "")
-                        step = ":%s" % el.step if el.step is not None else ""
-                        elstrs.append("%s:%s%s" % (start, stop, step))
-                    elif isinstance(el, Numbers):
-                        elstrs.append("%s" % el)
-                idx = ",".join(elstrs)
-            elif isinstance(idx, slice):
-                start = idx.start or ""
-                stop = idx.stop if idx.stop and idx.stop < 1e6 else ""
-                step = ":%s" % idx.step if idx.step is not None else ""
-                idx = "%s:%s%s" % (start, stop, step)
-            aststr = "%s[%s]" % (left, idx)
+            aststr = "%s[%s]" % (left, idxstr(idx))
         else:
             raise ValueError(oper)
         self.cached_strs[frozenset(excluded)] = aststr
-- 
2.43.0


From 0d3e7b6eb4a9fccc5c60c9763d863adea5f12b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 078/105] fix: expressions printed without unnecessary lineage
 are not cached

---
 gpkit/repr_conventions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index e51122f..c60945f 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -108,7 +108,8 @@ class ReprMixin:
         "Turns the AST of this object's construction into a faithful string"
         if self.cached_strs is None:
             self.cached_strs = {}
-        elif frozenset(excluded) in self.cached_strs:
+        elif (frozenset(excluded) in self.cached_strs
+              and "unnecessary lineage" not in excluded):  # it may change
             return self.cached_strs[frozenset(excluded)]
         aststr = None
         oper, values = self.ast  # pylint: disable=unpacking-non-sequence
-- 
2.43.0


From 19c37a567a7e1a472eb330eccbd31c511cb4e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 079/105] fix: vectors of the same name are told apart by
 lineage

---
 gpkit/constraints/set.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 4db1c6c..75a5270 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -216,9 +216,13 @@ class ConstraintSet(list, ReprMixin):
     def name_collision_varkeys(self):
         "Returns the set of contained varkeys whose names are not unique"
         if self._name_collision_varkeys is None:
-            self._name_collision_varkeys = {
-                key for key in self.varkeys
-                if len(self.varkeys[key.str_without(["lineage", "vec"])]) > 1}
+            named = defaultdict(set)
+            for key in self.vks:
+                named[key.name].add(key.veckey or key)
+            collisions = {key for key in self.vks if len(named[key.name]) > 1}
+            # elements' vectors are printed too
+            self._name_collision_varkeys = collisions.union(
+                key.veckey for key in collisions if key.veckey)
         return self._name_collision_varkeys
 
     def lines_without(self, excluded):
-- 
2.43.0


From 9d8e9d1aaca1f421786c2aa64c747a4880952557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 080/105] fix: LaTeX of lists and dictionaries of constraints

---
 gpkit/constraints/set.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 75a5270..81037f0 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -253,11 +253,11 @@ class ConstraintSet(list, ReprMixin):
         lines = []
         root = "root" not in excluded
         if root:
-            excluded += ("root",)
+            excluded = frozenset(excluded).union(["root"])
             lines.append("\\begin{array}{ll} \\text{}")
             if hasattr(self, "_rootlatex"):
                 lines.append(self._rootlatex(excluded))  # pylint: disable=no-member
-        for constraint in self:
+        for constraint in latexiter(self):
             cstr = try_str_without(constraint, excluded, latex=True)
             if cstr[:6] != "    & ":  # require indentation
                 cstr = "    & " + cstr + " \\\\"
@@ -270,6 +270,17 @@ class ConstraintSet(list, ReprMixin):
         "Return a ConstraintSetView of this ConstraintSet."
         return ConstraintSetView(self)
 
+def latexiter(iterable):
+    "Yields constraints and, from lists and dictionaries, what they contain."
+    if isinstance(iterable, dict):
+        _, iterable = sort_constraints_dict(iterable)
+    for constraint in iterable:
+        if hasattr(constraint, "latex") or not hasattr(constraint, "__iter__"):
+            yield constraint
+        else:
+            yield from latexiter(constraint)
+
+
 def recursively_line(iterable, excluded):
     "Generates lines in a recursive tree-like fashion, the better to indent."
     named_constraints = {}
-- 
2.43.0


From 9d09690854cc0342e7c7a088d0b274e0e587eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:57 +0000
Subject: [PATCH 081/105] fix: LaTeX of arrays

---
 gpkit/nomials/array.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index 18b99a4..cf0226a 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -129,7 +129,14 @@ class NomialArray(ReprMixin, np.ndarray):
         units = self.latex_unitstr() if "units" not in excluded else ""
         if hasattr(self, "key"):
             return self.key.latex(excluded) + units  # pylint: disable=no-member
-        return np.ndarray.__str__(self)
+        if not self.shape:
+            return try_str_without(self.flatten()[0], excluded, latex=True)
+        items = [np.ndarray.__getitem__(self, i) for i in range(self.shape[0])]
+        if self.ndim != 2:
+            items = [items]
+        return "\\begin{bmatrix}%s\\end{bmatrix}" % " \\\\ ".join(
+            " & ".join(try_str_without(item, excluded, latex=True)
+                       for item in row) for row in items)
 
     def __hash__(self):
         return reduce(xor, map(hash, self.flat), 0)
-- 
2.43.0


From 59dc0a895661cffff6388403882e42af4c600861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:02 +0000
Subject: [PATCH 082/105] fix: LaTeX keeps coefficients close to one

---
 gpkit/nomials/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpkit/nomials/core.py b/gpkit/nomials/core.py
index 9ab109c..a5c0d93 100644
--- a/gpkit/nomials/core.py
+++ b/gpkit/nomials/core.py
@@ -13,11 +13,10 @@ def nomial_latex_helper(c, pos_vars, neg_vars):
                 for (varl, x) in neg_vars]
     pvarstr = " ".join(sorted(pvarstrs))
     nvarstr = " ".join(sorted(nvarstrs))
-    cstr = "%.2g" % c
+    cstr = "%.4g" % c
     if pos_vars and cstr in ["1", "-1"]:
         cstr = cstr[:-1]
     else:
-        cstr = "%.4g" % c
         if "e" in cstr:  # use exponential notation
             idx = cstr.index("e")
             cstr = "%s \\times 10^{%i}" % (cstr[:idx], int(cstr[idx+1:]))
-- 
2.43.0


From 1befdcf53c818a7fb30b44a6f971f42b2c7acad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 083/105] fix: build relaxations the same in any environment

---
 gpkit/constraints/relax.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index eeea84f..186f685 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -1,7 +1,8 @@
 """Models for assessing primal feasibility"""
 from .set import ConstraintSet
-from ..nomials import Variable, VectorVariable, parse_subs, NomialArray
+from ..nomials import Variable, parse_subs, NomialArray
 from ..keydict import KeyDict
+from ..varkey import VarKey
 from .. import NamedVariables, SignomialsEnabled
 from ..small_scripts import appendsolwarning, mag
 from .prog_factories import evaluate_linked
@@ -84,8 +85,13 @@ class ConstraintsRelaxed(ConstraintSet):
         self.original_constraints = original_constraints
         original_substitutions = original_constraints.substitutions
         self.flat_constraints = list(original_constraints.flat())
+        n = len(self.flat_constraints)
         with NamedVariables("Relax"):
-            self.relaxvars = VectorVariable(len(self.flat_constraints), "C")
+            # a vector of this length even in a vectorized environment
+            self.relaxvars = NomialArray([Variable("C", idx=(i,), shape=(n,))
+                                          for i in range(n)])
+        if n:
+            self.relaxvars.key = self.relaxvars[0].key.veckey
 
         with SignomialsEnabled():
             relaxed_constraints = [
@@ -190,15 +196,15 @@ class ConstantsRelaxed(ConstraintSet):
             # make the relaxation variable, free to get as large as it needs
             relaxedd = newconstd.copy()
             relaxedd["unitrepr"] = "-"  # and unitless, importantly
-            relaxvar = Variable(**relaxedd)
+            relaxvar = Variable(VarKey(**relaxedd))
             relaxvars.append(relaxvar)
             # the newly freed const can acquire a new value
             del substitutions[const]
-            freed = Variable(**const.descr)
+            freed = Variable(const)
             self.freedvars.append(freed)
             # becuase the make the newconst will take its old value
             newconstd["lineage"] += (("OriginalValues", 0),)
-            newconst = Variable(**newconstd)
+            newconst = Variable(VarKey(**newconstd))
             substitutions[newconst] = val
             self._derelax_map[newconst.key] = const
             # add constraints so the newly freed's wiggle room
-- 
2.43.0


From 7564b3610b00b1f81fbe8ff7ffd1c5f0ab66310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 084/105] fix: bound variables themselves in any environment

---
 gpkit/constraints/bounded.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/bounded.py b/gpkit/constraints/bounded.py
index c432468..08eed65 100644
--- a/gpkit/constraints/bounded.py
+++ b/gpkit/constraints/bounded.py
@@ -1,7 +1,7 @@
 "Implements Bounded"
 from collections import defaultdict
 import numpy as np
-from .. import Variable
+from ..nomials import Variable
 from .set import ConstraintSet
 from ..small_scripts import appendsolwarning
 
@@ -22,7 +22,7 @@ def varkey_bounds(varkeys, lower, upper):
     """
     constraints = []
     for varkey in varkeys:
-        variable = Variable(**varkey.descr)
+        variable = Variable(varkey)  # whatever environment this is in
         if variable.units:  # non-dimensionalize the variable monomial
             variable.units = variable.hmap.units = None
         constraint = []
-- 
2.43.0


From e8d975006a5ddd9f611b0b57f9b92dadbccc6adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 085/105] fix: read the last line of settings whole

---
 gpkit/globals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/globals.py b/gpkit/globals.py
index 8ad94fa..9f75e08 100644
--- a/gpkit/globals.py
+++ b/gpkit/globals.py
@@ -10,7 +10,7 @@ def load_settings(path=None, trybuild=True):
         path = os.sep.join([os.path.dirname(__file__), "env", "settings"])
     try:  # if the settings file already exists, read it
         with open(path) as settingsfile:
-            lines = [line[:-1].split(" : ") for line in settingsfile
+            lines = [line.rstrip("\n").split(" : ") for line in settingsfile
                      if len(line.split(" : ")) == 2]
             settings_ = {name: value.split(", ") for name, value in lines}
             for name, value in settings_.items():
-- 
2.43.0


From b059e5de207b92cbf26fe5608d25f2eddc036bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 086/105] fix: remove the mosek command line's files however it
 ends

---
 gpkit/solvers/mosek_cli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index 32e25d1..72143b8 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -114,15 +114,19 @@ def optimize_generator(path=None, **_):
             assert_equal(f.readline(), "INDEX   ACTIVITY")
             dual_vals = read_vals(f)
 
-        if tmpdir:
-            shutil.rmtree(path, ignore_errors=False, onerror=remove_read_only)
-
         return dict(status=solsta[:-1],
                     objective=objective_val,
                     primal=primal_vals,
                     nu=dual_vals)
 
-    return optimize
+    def optimize_and_clean(**kwargs):
+        "Removes the temporary directory, however optimizing went"
+        try:
+            return optimize(**kwargs)
+        finally:
+            shutil.rmtree(path, ignore_errors=False, onerror=remove_read_only)
+
+    return optimize_and_clean if tmpdir else optimize
 
 
 def write_output_file(filename, c, A, p_idxs):
-- 
2.43.0


From b54da386dcf2a967c27377e6545c6f1739ca50af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 087/105] fix: never read an earlier mosek command line
 solution

---
 gpkit/solvers/mosek_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index 72143b8..ddf28df 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -82,6 +82,8 @@ def optimize_generator(path=None, **_):
 
         # run mskexpopt and print stdout
         solution_filename = filename + ".sol"
+        if os.path.exists(solution_filename):
+            os.remove(solution_filename)  # an earlier problem's
         try:
             for logline in check_output(["mskexpopt", filename, "-sol",
                                          solution_filename]).split(b"\n"):
-- 
2.43.0


From 7f7ca1419c11313d78fc0bacad46c62541551088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:49 +0000
Subject: [PATCH 088/105] fix: sweep plots draw expressions, costs and free
 swept variables

---
 gpkit/interactive/plot_sweep.py | 5 +++--
 gpkit/solution_array.py         | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/gpkit/interactive/plot_sweep.py b/gpkit/interactive/plot_sweep.py
index a2d34fe..91edbdf 100644
--- a/gpkit/interactive/plot_sweep.py
+++ b/gpkit/interactive/plot_sweep.py
@@ -88,9 +88,10 @@ def plot_1dsweepgrid(model, sweeps, posys, origsol=None, tol=0.01, **solveargs):
             subaxes = axes[:, i]
 
         sol.plot(posys, subaxes)
-        if origsubs:
+        if swept in origsubs:
             for posy, ax in zip(posys, subaxes):
-                ax.plot(origsubs[swept], origsol(posy), "ko", markersize=4)
+                y = origsol["cost"] if posy in [None, "cost"] else origsol(posy)
+                ax.plot(origsubs[swept], y, "ko", markersize=4)
         format_and_label_axes(swept, posys, subaxes, ylabel=(i == 0))
         model.substitutions.update(origsubs)
 
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index cc2c1e1..ab017ed 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -781,6 +781,8 @@ class SolutionArray(DictOfLists):
         posys, axes = assign_axes(swept, posys, axes)
         for posy, ax in zip(posys, axes):
             y = self(posy) if posy not in [None, "cost"] else self["cost"]
+            if isinstance(y, NomialArray):  # posy is not a single variable
+                y = [mag(point.value) for point in y]
             ax.plot(x, y, color=GPBLU)
         if len(axes) == 1:
             axes, = axes
-- 
2.43.0


From 964032b8e9a784003dce58eb2d76c5c882aef60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 089/105] fix: interactive sliders accept (min, step, max) and
 cover swept values

---
 gpkit/interactive/widgets.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gpkit/interactive/widgets.py b/gpkit/interactive/widgets.py
index bd8ad8d..1c94821 100644
--- a/gpkit/interactive/widgets.py
+++ b/gpkit/interactive/widgets.py
@@ -51,13 +51,13 @@ def modelinteract(model, fns_of_sol, ranges=None, **solvekwargs):
                 _, sweep = v
                 v = sweep[0]
                 model.substitutions.update({k: v})
-            vmin, vmax = v/2.0, v*2.0
-            if is_sweepvar(v):
-                vmin = min(vmin, min(sweep))
-                vmax = max(vmax, min(sweep))
+                vmin, vmax = min(v/2.0, *sweep), max(v*2.0, *sweep)
+            else:
+                vmin, vmax = v/2.0, v*2.0
+            vstep = None
             if ranges and ranges[k]:
-                vmin, vmax = ranges[k]
-            vstep = (vmax-vmin)/24.0
+                vmin, *vstep, vmax = ranges[k]
+            vstep = vstep[0] if vstep else (vmax-vmin)/24.0
             varkey_latex = "$"+k.latex(excluded=["lineage"])+"$"
             floatslider = widgets.FloatSlider(min=vmin, max=vmax,
                                               step=vstep, value=v,
-- 
2.43.0


From 289604bc35e174fcee25f89e31b3fbfa0cdd2d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 090/105] fix: plot_convergence plots each iteration's cost

---
 gpkit/interactive/plotting.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/gpkit/interactive/plotting.py b/gpkit/interactive/plotting.py
index ee2d6b5..ed12774 100644
--- a/gpkit/interactive/plotting.py
+++ b/gpkit/interactive/plotting.py
@@ -50,16 +50,12 @@ def plot_convergence(model):
     """
     fig, ax = plt.subplots()
 
-    it = np.array([])
-    cost = np.array([])
-    for n in range(len(model.program.gps)):
-        try:
-            cost = np.append(cost, model.program.gps[n].result['cost'])
-            it = np.append(it, n+1)
-        except TypeError:
-            pass
+    # the program's GP is updated in place, so its result is only the last one
+    cost = np.array([float(s_o["objective"])
+                     for s_o in model.program.solver_outs])
+    it = np.arange(1, len(cost)+1)
     ax.plot(it, cost, '-o')
     ax.set_xlabel('Iteration')
     ax.set_ylabel('Cost')
-    ax.set_xticks(range(1, len(model.program.gps)+1))
+    ax.set_xticks(it)
     return fig, ax
-- 
2.43.0


From 1f8c6d4a92c2811c027040d53b1f845f883bc2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 091/105] fix: a second Sankey diagram does not include the
 first

---
 gpkit/interactive/sankey.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/interactive/sankey.py b/gpkit/interactive/sankey.py
index 24c7f28..839fc7b 100644
--- a/gpkit/interactive/sankey.py
+++ b/gpkit/interactive/sankey.py
@@ -152,6 +152,10 @@ class Sankey:
         self.minsenss = minsenss
         self.maxlinks = maxlinks
         self.showconstraints = showconstraints
+        self.last_top_node = None
+        self.links.clear()  # of any previous diagram
+        self.links_to_target.clear()
+        self.nodes.clear()
 
         for key in self.solution.name_collision_varkeys():
             key.descr["necessarylineage"] = True
-- 
2.43.0


From a5ccc52e82f6312bf503bf16e16bc41a984c479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 092/105] fix: Sankey diagrams of a variable in a folded
 constraint

---
 gpkit/interactive/sankey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/interactive/sankey.py b/gpkit/interactive/sankey.py
index 839fc7b..20074fc 100644
--- a/gpkit/interactive/sankey.py
+++ b/gpkit/interactive/sankey.py
@@ -122,7 +122,7 @@ class Sankey:
                 total_sens = -abs(self.csenss[cset]) or -EPS
             elif var is not None:
                 if cset.v_ss is None:
-                    if var.key in cset.varkeys:
+                    if var.key in cset.vks:
                         total_sens = EPS
                 elif var.key in cset.v_ss:
                     total_sens = cset.v_ss[var.key] or EPS
-- 
2.43.0


From 3b95065f87f89d5390043caa3fe16fc7a8555999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 093/105] fix: plots take names of variables

---
 gpkit/interactive/plot_sweep.py | 7 +++++--
 gpkit/solution_array.py         | 2 +-
 gpkit/tools/autosweep.py        | 4 ++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/gpkit/interactive/plot_sweep.py b/gpkit/interactive/plot_sweep.py
index 91edbdf..8e92f0a 100644
--- a/gpkit/interactive/plot_sweep.py
+++ b/gpkit/interactive/plot_sweep.py
@@ -1,11 +1,12 @@
 "Implements plot_sweep1d function"
 import matplotlib.pyplot as plt
+from ..small_classes import Strings
 from ..exceptions import InvalidGPConstraint
 
 
 def assign_axes(var, posys, axes):
     "Assigns axes to posys, creating and formatting if necessary"
-    if not hasattr(posys, "__iter__"):
+    if isinstance(posys, Strings) or not hasattr(posys, "__iter__"):
         posys = [posys]
     N = len(posys)
     if axes is None:
@@ -56,6 +57,8 @@ def plot_1dsweepgrid(model, sweeps, posys, origsol=None, tol=0.01, **solveargs):
     f, _ = plot_sweep_1d(m, {'x': np.linspace(1, 2, 5)}, 'y')
     f.savefig('mysweep.png')
     """
+    sweeps = {model[swept] if isinstance(swept, Strings) else swept: swept_over
+              for swept, swept_over in sweeps.items()}
     origsubs = {swept: model.substitutions[swept] for swept in sweeps
                 if swept in model.substitutions}
     if origsubs and not origsol:
@@ -63,7 +66,7 @@ def plot_1dsweepgrid(model, sweeps, posys, origsol=None, tol=0.01, **solveargs):
             origsol = model.solve(**solveargs)
         except InvalidGPConstraint:
             origsol = model.localsolve(**solveargs)
-    if not hasattr(posys, "__iter__"):
+    if isinstance(posys, Strings) or not hasattr(posys, "__iter__"):
         posys = [posys]
 
     N, S = len(posys), len(sweeps)
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index ab017ed..8e3f818 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -772,7 +772,7 @@ class SolutionArray(DictOfLists):
         "Plots a sweep for each posy"
         if len(self["sweepvariables"]) != 1:
             print("SolutionArray.plot only supports 1-dimensional sweeps")
-        if not hasattr(posys, "__len__"):
+        if isinstance(posys, Strings) or not hasattr(posys, "__len__"):
             posys = [posys]
         import matplotlib.pyplot as plt
         from .interactive.plot_sweep import assign_axes
diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 1f783af..1381bd6 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -1,7 +1,7 @@
 "Tools for optimal fits to GP sweeps"
 from time import time
 import numpy as np
-from ..small_classes import Count
+from ..small_classes import Count, Strings
 from ..small_scripts import mag, restored_sub
 from ..solution_array import SolutionArray
 from ..exceptions import InvalidGPConstraint
@@ -204,7 +204,7 @@ class SolutionOracle:
         import matplotlib.pyplot as plt
         from ..interactive.plot_sweep import assign_axes
         from .. import GPBLU
-        if not hasattr(posys, "__len__"):
+        if isinstance(posys, Strings) or not hasattr(posys, "__len__"):
             posys = [posys]
         for i, posy in enumerate(posys):
             if posy in [None, "cost"]:
-- 
2.43.0


From f7faed26d39040d9d92bd7eb628f148c68268328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 094/105] fix: quantities and numpy scalars given to slices of
 vectors

---
 gpkit/keydict.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 1261cf7..f1f07f7 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -201,7 +201,11 @@ class KeyDict(KeyMap, dict):
             # NOTE: this try/except takes ~4% of the time in this loop
             if not hasattr(key, "shape"):
                 raise e
-            if not hasattr(value, "shape"):
+            if isinstance(value, FixedScalar):
+                value = value.value
+            if isinstance(value, Quantity) and not value.ndim:
+                value = np.full(key.shape, value.magnitude)*value.units
+            elif not getattr(value, "shape", None):
                 value = np.full(key.shape, value)
             elif key.shape != value.shape:
                 raise KeyError("Key and value have different shapes") from e
-- 
2.43.0


From 3d1db06909aa24907e2957c0ae7021617909c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 095/105] fix: comparing sweeps with points when variables are
 vectors

---
 gpkit/solution_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 8e3f818..faf1b71 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -299,7 +299,8 @@ def cast(function, val1, val2):
                 return function(val1, val2)
             lessdim, dimmest = sorted([val1, val2], key=lambda v: v.ndim)
             dimdelta = dimmest.ndim - lessdim.ndim
-            add_axes = (slice(None),)*lessdim.ndim + (np.newaxis,)*dimdelta
+            # the extra axes of a sweep come first
+            add_axes = (np.newaxis,)*dimdelta + (slice(None),)*lessdim.ndim
             if dimmest is val1:
                 return function(dimmest, lessdim[add_axes])
             if dimmest is val2:
-- 
2.43.0


From 09cfd8f2f306682aecc1caf1f148a712663a3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:39 +0000
Subject: [PATCH 096/105] fix: constraint tables shorten only their model's
 names

---
 gpkit/solution_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index faf1b71..4ee0665 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -195,7 +195,9 @@ def constraint_table(data, title, sortbymodel=True, showmodels=True, **_):
             if model or lines:
                 lines.append([("newmodelline",), model])
             previous_model = model
-        constrstr = constrstr.replace(model, "")
+        if model:  # shown above already, so shorten its variables' names
+            constrstr = re.sub(r"(?<![\w.])%s\." % re.escape(model), ".",
+                               constrstr)
         minlen, maxlen = 25, 80
         segments = [s for s in CONSTRSPLITPATTERN.split(constrstr) if s]
         constraintlines = []
-- 
2.43.0


From f9876e15be1fa8a49b5c6add75dffb0da329fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 097/105] fix: silent SGPs whose cost rises have not converged

---
 gpkit/constraints/sgp.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 0ec6f39..0e82e90 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -189,13 +189,15 @@ solutions and can be solved with 'Model.solve()'.""")
             if prevcost is None:
                 continue
             rel_improvement = (prevcost - cost)/(prevcost + cost)
-            if cost*(1 - EPS) > prevcost + EPS and verbosity > -1:
-                pywarnings.warn(
-                    "SGP not convergent: Cost rose by %.2g%% on GP solve %i."
-                    " Details can be found in `m.program.results` or by"
-                    " solving at a higher verbosity. Note that convergence"
-                    " is not guaranteed for models with SignomialEqualities."
-                    % (100*(cost - prevcost)/prevcost, len(self.gps)))
+            if cost*(1 - EPS) > prevcost + EPS:
+                if verbosity > -1:
+                    pywarnings.warn(
+                        "SGP not convergent: Cost rose by %.2g%% on GP solve"
+                        " %i. Details can be found in `m.program.results` or"
+                        " by solving at a higher verbosity. Note that"
+                        " convergence is not guaranteed for models with"
+                        " SignomialEqualities."
+                        % (100*(cost - prevcost)/prevcost, len(self.gps)))
                 rel_improvement = cost = None
         # solved successfully!
         self.result = gp.generate_result(solver_out, verbosity=verbosity-3)
-- 
2.43.0


From fa02340ca4c37995c0565638c55f9d58cdea293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:49 +0000
Subject: [PATCH 098/105] fix: rises of small SGP costs are noticed

---
 gpkit/constraints/sgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 0e82e90..560ce7e 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -189,7 +189,7 @@ solutions and can be solved with 'Model.solve()'.""")
             if prevcost is None:
                 continue
             rel_improvement = (prevcost - cost)/(prevcost + cost)
-            if cost*(1 - EPS) > prevcost + EPS:
+            if cost*(1 - EPS) > prevcost*(1 + EPS):
                 if verbosity > -1:
                     pywarnings.warn(
                         "SGP not convergent: Cost rose by %.2g%% on GP solve"
-- 
2.43.0


From 5ac3bd39490af39618217baf487d4e69803a6953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 099/105] fix: localsolve starts at x0 given by names,
 variables or quantities

---
 gpkit/constraints/sgp.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 560ce7e..1910363 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -6,8 +6,8 @@ from collections import defaultdict
 import numpy as np
 from ..exceptions import (InvalidGPConstraint, Infeasible, UnnecessarySGP,
                           InvalidPosynomial, InvalidSGPConstraint)
-from ..keydict import KeyDict
-from ..nomials import Variable
+from ..keydict import KeyDict, clean_value
+from ..nomials import Variable, parse_subs
 from .gp import GeometricProgram
 from .set import ConstraintSet
 from ..nomials import PosynomialInequality, Posynomial
@@ -169,7 +169,7 @@ solutions and can be solved with 'Model.solve()'.""")
                     "Unsolved after %s iterations. Check `m.program.results`;"
                     " if they're converging, try `.localsolve(...,"
                     " iteration_limit=NEWLIMIT)`." % len(self.gps))
-            gp = self.gp(x0, cleanx0=True)
+            gp = self.gp(x0, cleanx0=bool(self.gps))
             self.gps.append(gp)  # NOTE: SIDE EFFECTS
             if verbosity > 1:
                 print("\nGP Solve %i" % len(self.gps))
@@ -238,8 +238,9 @@ solutions and can be solved with 'Model.solve()'.""")
         "Update self._gp for x0 and return it."
         if not x0:
             return self._gp  # return last generated
-        if not cleanx0:
-            x0 = KeyDict(x0)
+        if not cleanx0:  # it's formatted as a substitution would be
+            x0, _, _ = parse_subs(self.sgpvks, x0)
+            x0 = {vk: clean_value(vk, val) for vk, val in x0.items()}
         self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks
                             if vk in x0 and vk not in self._gp.substitutions})
         self.approxconstraints = [
-- 
2.43.0


From 6b1986a5cffc2294cc68517dbc89857f7f58c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:06 +0000
Subject: [PATCH 100/105] fix: a variable that vanishes from a sequential
 program leaves its matrix

---
 gpkit/constraints/sgp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 1910363..753eb3e 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -249,13 +249,13 @@ solutions and can be solved with 'Model.solve()'.""")
         hmaps = list(ConstraintSet.as_hmapslt1(self.approxconstraints,
                                                self._gp.substitutions))
         sp_end = len(self._gp.k) - self._n_gphmaps
+        allhmaps = self._gp.hmaps[:1] + hmaps + self._gp.hmaps[sp_end:]
+        vks = {vk for hmap in allhmaps for exp in hmap for vk in exp}
         if ([len(hmap) for hmap in hmaps] != self._gp.k[1:sp_end]
-                or any(vk not in self._gp.varidxs
-                       for hmap in hmaps for exp in hmap for vk in exp)):
+                or vks != set(self._gp.varidxs)):
             # terms or variables have appeared or vanished
             self._gp = copy(self._gp)
-            self._gp.hmaps = (self._gp.hmaps[:1] + hmaps
-                              + self._gp.hmaps[sp_end:])
+            self._gp.hmaps = allhmaps
             self._gp.gen()
             self._gen_a_idxs()
             return self._gp
-- 
2.43.0


From 06a9dd2600b692cb5a8cc2bae7bf8bc6c07ee5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:39 +0000
Subject: [PATCH 101/105] fix: Bounded and debug bound the variables made in a
 model's setup

---
 gpkit/constraints/set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 81037f0..638df0c 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -173,7 +173,7 @@ class ConstraintSet(list, ReprMixin):
 
     def constrained_varkeys(self):
         "Return all varkeys in non-ConstraintSet constraints"
-        return self.vks - self.unique_varkeys
+        return set().union(*(c.vks for c in self.flat()))
 
     flat = flatiter
 
-- 
2.43.0


From b96acb3b83d53bf329b734819835157eb356612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:23 +0000
Subject: [PATCH 102/105] fix: a vector swept as a whole can be given with a
 model, read by element and overwritten

---
 gpkit/keydict.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index f1f07f7..aae45a9 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -24,10 +24,30 @@ def clean_value(key, value):
 
 def at_idx(value, idx):
     "Element of a vector's value; if swept, that element at each point."
+    if is_sweepvar(value):
+        sweep, points = value
+        if hasattr(points, "__call__"):
+            return value
+        if not hasattr(points, "shape"):
+            try:
+                points = np.array(points)
+            except ValueError:  # ragged: each element has its own points
+                return sweep, np.array(points, dtype="object")[idx]
+        return sweep, at_idx(points, idx)
     swept_dims = getattr(value, "ndim", len(idx)) - len(idx)
     return value[(slice(None),)*swept_dims + idx]
 
 
+def unswept(value, shape):
+    "If an array was swept as a whole, returns an array of swept elements."
+    if not is_sweepvar(value):
+        return value
+    elements = np.empty(shape, dtype="object")
+    for idx in np.ndindex(*shape):
+        elements[idx] = at_idx(value, idx)
+    return elements
+
+
 class KeyMap:
     """Helper class to provide KeyMapping to interfaces.
 
@@ -98,6 +118,8 @@ class KeyMap:
         if super().__contains__(key):  # pylint: disable=no-member
             if idx:
                 try:
+                    if is_sweepvar(super().__getitem__(key)):  # pylint: disable=no-member
+                        return True
                     value = at_idx(super().__getitem__(key), idx)  # pylint: disable=no-member
                     return True if is_sweepvar(value) else not isnan(value).all()
                 except TypeError:
@@ -225,6 +247,8 @@ class KeyDict(KeyMap, dict):
                 dict.__setitem__(self, key, np.full(key.shape, np.nan, **dty))
                 self.owned.add(key)
         if idx:
+            super().__setitem__(key, unswept(super().__getitem__(key),
+                                             key.shape))
             if is_sweepvar(value):
                 old = super().__getitem__(key)
                 super().__setitem__(key, np.array(old, "object"))
@@ -240,7 +264,8 @@ class KeyDict(KeyMap, dict):
                 if value.dtype == INT_DTYPE:
                     value = np.array(value, "float")
                 if dict.__contains__(self, key):
-                    old = super().__getitem__(key)
+                    old = unswept(super().__getitem__(key), key.shape)
+                    super().__setitem__(key, old)
                     if old.dtype != value.dtype:
                         # e.g. replacing a number with a linked function
                         dtype = np.result_type(old, value)
@@ -283,6 +308,8 @@ class KeyDict(KeyMap, dict):
         if idx is None:
             super().__delitem__(key)
         else:
+            super().__setitem__(key, unswept(super().__getitem__(key),
+                                             key.shape))
             self._copyonwrite(key)
             super().__getitem__(key)[idx] = np.nan
             if not isnan(super().__getitem__(key)).all():
-- 
2.43.0


From 094ae8c69bb1db0132d6bd7b6797c1452d8155cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:15 +0000
Subject: [PATCH 103/105] fix: show the sensitivity of a chosen swept variable
 in summaries

---
 gpkit/solution_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 4ee0665..f986dac 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -678,7 +678,8 @@ class SolutionArray(DictOfLists):
         showvars = self._parse_showvars(showvars)
         out = self.table(showvars, ["cost", "warnings", "sweepvariables",
                                     "freevariables"], **kwargs)
-        constants_in_showvars = showvars.intersection(self["constants"])
+        constants_in_showvars = showvars.intersection(self["constants"]).union(
+            showvars.intersection(self.get("sweepvariables", ())))
         senss_tables = []
         if len(self["constants"]) < ntopsenss+2 or constants_in_showvars:
             senss_tables.append("sensitivities")
-- 
2.43.0


From 8e8ef8f178e5107391fcbd6cc41fe3d9595d4149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:40 +0000
Subject: [PATCH 104/105] fix: a vector is found in a set by its variable
 before any lookup by name

---
 gpkit/keydict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index aae45a9..5a05ca7 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -86,6 +86,8 @@ class KeyMap:
             key = key.key
             if self.collapse_arrays and key.idx:
                 return key.veckey, key.idx
+            if not self.collapse_arrays and key.shape and not key.idx:
+                self.update_keymap()  # vectors are keys of their elements
             return key, None
         except AttributeError:
             if self.cset is None:
-- 
2.43.0


From 626aa2f76195efc8e7719ccc1f5052c11464239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:45 +0000
Subject: [PATCH 105/105] fix: sweeps of another shape than their variable's
 are refused

---
 gpkit/nomials/substitution.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index fa15e22..4694574 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -56,9 +56,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                 if sweepel:  # if only an element is swept
                     value = sweepval
             elif sweepsub:
-                try:
-                    np.broadcast(sub, np.empty(key.shape))
-                except ValueError:
+                if sub.shape[1:] != key.shape:
                     raise ValueError("cannot sweep variable %s of shape %s"
                                      " with array of shape %s; array shape"
                                      " must either be %s or %s" %
-- 
2.43.0

