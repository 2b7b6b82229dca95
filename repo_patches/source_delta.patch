From ccb8205240cb47753f4db34bd5a04f7984a73833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 01/23] fix: m_c returned m_c(m_c) at scale=m_c for any number
 of flavours

---
 wilson/util/qcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/util/qcd.py b/wilson/util/qcd.py
index e540bd2..a1ff878 100644
--- a/wilson/util/qcd.py
+++ b/wilson/util/qcd.py
@@ -95,7 +95,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185, loop=3):
 def m_c(mcmc, scale, f, alphasMZ=0.1185, loop=3):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
-    if scale == mcmc:
+    if scale == mcmc and f == 4:
         return mcmc  # nothing to do
     _sane(scale, f)
     crd = rundec.CRunDec()
-- 
2.43.0


From f36b682f1259ebd02a0e6c8f8edd49c18f72c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 02/23] fix: _testtex left its temporary directory behind when
 latex is not installed

---
 wilson/wcxf/classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wilson/wcxf/classes.py b/wilson/wcxf/classes.py
index db63400..bc31d1d 100644
--- a/wilson/wcxf/classes.py
+++ b/wilson/wcxf/classes.py
@@ -75,6 +75,8 @@ def _testtex(s, delete=True):
                            stdout=subprocess.DEVNULL)
     except FileNotFoundError:
         logging.warn('latex executable not found. Cannot check tex code')
+        if delete:
+            shutil.rmtree(tmpd)
         return {'success': True}
     if p.returncode == 0:
         res = {'success': True}
-- 
2.43.0


From 21ab49317b644911985652bfe1dda65bcf162677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 03/23] fix: _testtex failed with an UnboundLocalError when
 latex wrote no log file

---
 wilson/wcxf/classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wilson/wcxf/classes.py b/wilson/wcxf/classes.py
index bc31d1d..ad860f4 100644
--- a/wilson/wcxf/classes.py
+++ b/wilson/wcxf/classes.py
@@ -84,6 +84,7 @@ def _testtex(s, delete=True):
         res = {'success': False}
     logf = os.path.join(tmpd, 'textest.log')
     res['log'] = ''
+    logl = []
     try:
         with open(logf) as f:
             logl = f.readlines()
-- 
2.43.0


From acecc79bba90680b4b0652e9c6fb0cee42bdbdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 04/23] fix: a Basis whose parent is missing stayed registered
 (and replaced a valid basis of that name)

---
 wilson/wcxf/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/wcxf/classes.py b/wilson/wcxf/classes.py
index ad860f4..c06ba7a 100644
--- a/wilson/wcxf/classes.py
+++ b/wilson/wcxf/classes.py
@@ -222,7 +222,6 @@ class Basis(WCxf, NamedInstanceClass):
         """Instantiate the basis file object."""
         self.eft = eft
         self.basis = basis
-        super().__init__((eft, basis))
         for k, v in kwargs.items():
             setattr(self, k, v)
         if hasattr(self, 'parent'):
@@ -234,6 +233,7 @@ class Basis(WCxf, NamedInstanceClass):
         else:
             self.sectors = sectors
         self._all_wcs = None
+        super().__init__((eft, basis))
 
     @property
     def known_translators(self):
-- 
2.43.0


From c1975952ba49a28f4ea6e8502c3e3b55e872b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 05/23] fix: SMEFTsim cards lost the sign of the real
 two-fermion coefficients and of ee_3333

---
 wilson/wcxf/converters/smeftsim.py | 89 +++++++++++++++---------------
 1 file changed, 45 insertions(+), 44 deletions(-)

diff --git a/wilson/wcxf/converters/smeftsim.py b/wilson/wcxf/converters/smeftsim.py
index e9de49e..0d96441 100644
--- a/wilson/wcxf/converters/smeftsim.py
+++ b/wilson/wcxf/converters/smeftsim.py
@@ -96,7 +96,8 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
       """Return the coefficient scaled by the appropriate symmetry factor
       to account for the change from the flavor-non-redundant WCxf convention
       to the symmetrized SMEFTsim convention."""
-      return wc[key] / _symm_fac[key]
+      c = wc[key] / _symm_fac[key]
+      return c.real if c.imag == 0 else c
 
 
   if model_set == 'A':
@@ -748,48 +749,48 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
 	  [644, format(scaled_wc('phiBtilde') * lambda_smeft_value**2,'.6e'), '# cHBtil'],
 	  [645, format(scaled_wc('phiWB') * lambda_smeft_value**2,'.6e'), '# cHWB'],
 	  [646, format(scaled_wc('phiWtildeB') * lambda_smeft_value**2,'.6e'), '# cHWBtil'],
-	  [647, format(abs(scaled_wc('phil1_11')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
+	  [647, format(scaled_wc('phil1_11') * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
 	  [648, format(abs(scaled_wc('phil1_12')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs12'],
 	  [649, format(abs(scaled_wc('phil1_13')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs13'],
-	  [650, format(abs(scaled_wc('phil1_22')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
+	  [650, format(scaled_wc('phil1_22') * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
 	  [651, format(abs(scaled_wc('phil1_23')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs23'],
-	  [652, format(abs(scaled_wc('phil1_33')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
-	  [653, format(abs(scaled_wc('phil3_11')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
+	  [652, format(scaled_wc('phil1_33') * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
+	  [653, format(scaled_wc('phil3_11') * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
 	  [654, format(abs(scaled_wc('phil3_12')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs12'],
 	  [655, format(abs(scaled_wc('phil3_13')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs13'],
-	  [656, format(abs(scaled_wc('phil3_22')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
+	  [656, format(scaled_wc('phil3_22') * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
 	  [657, format(abs(scaled_wc('phil3_23')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs23'],
-	  [658, format(abs(scaled_wc('phil3_33')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
-	  [659, format(abs(scaled_wc('phiq1_11')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
+	  [658, format(scaled_wc('phil3_33') * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
+	  [659, format(scaled_wc('phiq1_11') * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
 	  [660, format(abs(scaled_wc('phiq1_12')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs12'],
 	  [661, format(abs(scaled_wc('phiq1_13')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs13'],
-	  [662, format(abs(scaled_wc('phiq1_22')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
+	  [662, format(scaled_wc('phiq1_22') * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
 	  [663, format(abs(scaled_wc('phiq1_23')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs23'],
-	  [664, format(abs(scaled_wc('phiq1_33')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
-	  [665, format(abs(scaled_wc('phiq3_11')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
+	  [664, format(scaled_wc('phiq1_33') * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
+	  [665, format(scaled_wc('phiq3_11') * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
 	  [666, format(abs(scaled_wc('phiq3_12')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs12'],
 	  [667, format(abs(scaled_wc('phiq3_13')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs13'],
-	  [668, format(abs(scaled_wc('phiq3_22')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
+	  [668, format(scaled_wc('phiq3_22') * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
 	  [669, format(abs(scaled_wc('phiq3_23')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs23'],
-	  [670, format(abs(scaled_wc('phiq3_33')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
-	  [671, format(abs(scaled_wc('phie_11')) * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
+	  [670, format(scaled_wc('phiq3_33') * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
+	  [671, format(scaled_wc('phie_11') * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
 	  [672, format(abs(scaled_wc('phie_12')) * lambda_smeft_value**2,'.6e'), '# cHeAbs12'],
 	  [673, format(abs(scaled_wc('phie_13')) * lambda_smeft_value**2,'.6e'), '# cHeAbs13'],
-	  [674, format(abs(scaled_wc('phie_22')) * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
+	  [674, format(scaled_wc('phie_22') * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
 	  [675, format(abs(scaled_wc('phie_23')) * lambda_smeft_value**2,'.6e'), '# cHeAbs23'],
-	  [676, format(abs(scaled_wc('phie_33')) * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
-	  [677, format(abs(scaled_wc('phiu_11')) * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
+	  [676, format(scaled_wc('phie_33') * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
+	  [677, format(scaled_wc('phiu_11') * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
 	  [678, format(abs(scaled_wc('phiu_12')) * lambda_smeft_value**2,'.6e'), '# cHuAbs12'],
 	  [679, format(abs(scaled_wc('phiu_13')) * lambda_smeft_value**2,'.6e'), '# cHuAbs13'],
-	  [680, format(abs(scaled_wc('phiu_22')) * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
+	  [680, format(scaled_wc('phiu_22') * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
 	  [681, format(abs(scaled_wc('phiu_23')) * lambda_smeft_value**2,'.6e'), '# cHuAbs23'],
-	  [682, format(abs(scaled_wc('phiu_33')) * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
-	  [683, format(abs(scaled_wc('phid_11')) * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
+	  [682, format(scaled_wc('phiu_33') * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
+	  [683, format(scaled_wc('phid_11') * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
 	  [684, format(abs(scaled_wc('phid_12')) * lambda_smeft_value**2,'.6e'), '# cHdAbs12'],
 	  [685, format(abs(scaled_wc('phid_13')) * lambda_smeft_value**2,'.6e'), '# cHdAbs13'],
-	  [686, format(abs(scaled_wc('phid_22')) * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
+	  [686, format(scaled_wc('phid_22') * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
 	  [687, format(abs(scaled_wc('phid_23')) * lambda_smeft_value**2,'.6e'), '# cHdAbs23'],
-	  [688, format(abs(scaled_wc('phid_33')) * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
+	  [688, format(scaled_wc('phid_33') * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
 	  [689, format(scaled_wc('ll_1111') * lambda_smeft_value**2,'.6e'), '# cllAbs1111'],
 	  [690, format(scaled_wc('ll_1122') * lambda_smeft_value**2,'.6e'), '# cllAbs1122'],
 	  [691, format(scaled_wc('ll_1221') * lambda_smeft_value**2,'.6e'), '# cllAbs1221'],
@@ -967,7 +968,7 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
           [863, format(scaled_wc('ee_2222') * lambda_smeft_value**2,'.6e'),      '# ceeAbs2222'],
           [864, format(scaled_wc('ee_2233') * lambda_smeft_value**2,'.6e'),      '# ceeAbs2233'],
           [865, format(abs(scaled_wc('ee_1112')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1112'],
-          [866, format(abs(scaled_wc('ee_3333')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'],
+          [866, format(scaled_wc('ee_3333') * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'],
           [867, format(abs(scaled_wc('ee_1123')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1123'],
           [868, format(abs(scaled_wc('ee_1113')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1113'],
           [869, format(abs(scaled_wc('ee_1213')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1213'],
@@ -2712,66 +2713,66 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
   elif model_set == 'B':
 
       card['Block']['FRBlock'] = {'values': [
-	[1, format(abs(scaled_wc('phil1_11')* lambda_smeft_value**2), '.6e') , '# cHl1Abs11'],
+	[1, format(scaled_wc('phil1_11')* lambda_smeft_value**2, '.6e') , '# cHl1Abs11'],
 	[2, format(abs(scaled_wc('phil1_12')* lambda_smeft_value**2), '.6e') , '# cHl1Abs12'],
 	[3, format(abs(scaled_wc('phil1_13')* lambda_smeft_value**2), '.6e') , '# cHl1Abs13'],
-	[4, format(abs(scaled_wc('phil1_22')* lambda_smeft_value**2), '.6e') , '# cHl1Abs22'],
+	[4, format(scaled_wc('phil1_22')* lambda_smeft_value**2, '.6e') , '# cHl1Abs22'],
 	[5, format(abs(scaled_wc('phil1_23')* lambda_smeft_value**2), '.6e') , '# cHl1Abs23'],
-	[6, format(abs(scaled_wc('phil1_33')* lambda_smeft_value**2), '.6e') , '# cHl1Abs33'],
+	[6, format(scaled_wc('phil1_33')* lambda_smeft_value**2, '.6e') , '# cHl1Abs33'],
 	[7, format(angle(scaled_wc('phil1_12')), '.6e') , '# cHl1Ph12'],
 	[8, format(angle(scaled_wc('phil1_13')), '.6e') , '# cHl1Ph13'],
 	[9, format(angle(scaled_wc('phil1_23')), '.6e') , '# cHl1Ph23'],
-	[10, format(abs(scaled_wc('phil3_11')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs11'],
+	[10, format(scaled_wc('phil3_11')* lambda_smeft_value**2, '.6e') ,'# cHL3Abs11'],
 	[11, format(abs(scaled_wc('phil3_12')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs12'],
 	[12, format(abs(scaled_wc('phil3_13')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs13'],
-	[13, format(abs(scaled_wc('phil3_22')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs22'],
+	[13, format(scaled_wc('phil3_22')* lambda_smeft_value**2, '.6e') ,'# cHL3Abs22'],
 	[14, format(abs(scaled_wc('phil3_23')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs23'],
-	[15, format(abs(scaled_wc('phil3_33')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs33'],
+	[15, format(scaled_wc('phil3_33')* lambda_smeft_value**2, '.6e') ,'# cHL3Abs33'],
 	[16, format(angle(scaled_wc('phil3_12')), '.6e') ,'# cHL3Ph12'],
 	[17, format(angle(scaled_wc('phil3_13')), '.6e') ,'# cHL3Ph13'],
 	[18, format(angle(scaled_wc('phil3_23')), '.6e') ,'# cHL3Ph23'],
-	[19, format(abs(scaled_wc('phiq1_11')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs11'],
+	[19, format(scaled_wc('phiq1_11')* lambda_smeft_value**2, '.6e') ,'# cHq1Abs11'],
 	[20, format(abs(scaled_wc('phiq1_12')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs12'],
 	[21, format(abs(scaled_wc('phiq1_13')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs13'],
-	[22, format(abs(scaled_wc('phiq1_22')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs22'],
+	[22, format(scaled_wc('phiq1_22')* lambda_smeft_value**2, '.6e') ,'# cHq1Abs22'],
 	[23, format(abs(scaled_wc('phiq1_23')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs23'],
-	[24, format(abs(scaled_wc('phiq1_33')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs33'],
+	[24, format(scaled_wc('phiq1_33')* lambda_smeft_value**2, '.6e') ,'# cHq1Abs33'],
 	[25, format(angle(scaled_wc('phiq1_12')), '.6e') ,'# cHq1Ph12'],
 	[26, format(angle(scaled_wc('phiq1_13')), '.6e') ,'# cHq1Ph13'],
 	[27, format(angle(scaled_wc('phiq1_23')), '.6e') ,'# cHq1Ph23'],
-	[28, format(abs(scaled_wc('phiq3_11')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs11'],
+	[28, format(scaled_wc('phiq3_11')* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs11'],
 	[29, format(abs(scaled_wc('phiq3_12')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs12'],
 	[30, format(abs(scaled_wc('phiq3_13')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs13'],
-	[31, format(abs(scaled_wc('phiq3_22')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs22'],
+	[31, format(scaled_wc('phiq3_22')* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs22'],
 	[32, format(abs(scaled_wc('phiq3_23')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs23'],
-	[33, format(abs(scaled_wc('phiq3_33')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs33'],
+	[33, format(scaled_wc('phiq3_33')* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs33'],
 	[34, format(angle(scaled_wc('phiq3_12')), '.6e') ,'# cHQ3Ph12'],
 	[35, format(angle(scaled_wc('phiq3_13')), '.6e') ,'# cHQ3Ph13'],
 	[36, format(angle(scaled_wc('phiq3_23')), '.6e') ,'# cHQ3Ph23'],
-	[37, format(abs(scaled_wc('phiu_11')* lambda_smeft_value**2), '.6e') ,'# cHuAbs11'],
+	[37, format(scaled_wc('phiu_11')* lambda_smeft_value**2, '.6e') ,'# cHuAbs11'],
 	[38, format(abs(scaled_wc('phiu_12')* lambda_smeft_value**2), '.6e') ,'# cHuAbs12'],
 	[39, format(abs(scaled_wc('phiu_13')* lambda_smeft_value**2), '.6e') ,'# cHuAbs13'],
-	[40, format(abs(scaled_wc('phiu_22')* lambda_smeft_value**2), '.6e') ,'# cHuAbs22'],
+	[40, format(scaled_wc('phiu_22')* lambda_smeft_value**2, '.6e') ,'# cHuAbs22'],
 	[41, format(abs(scaled_wc('phiu_23')* lambda_smeft_value**2), '.6e') ,'# cHuAbs23'],
-	[42, format(abs(scaled_wc('phiu_33')* lambda_smeft_value**2), '.6e') ,'# cHuAbs33'],
+	[42, format(scaled_wc('phiu_33')* lambda_smeft_value**2, '.6e') ,'# cHuAbs33'],
 	[43, format(angle(scaled_wc('phiu_12')), '.6e') ,'# cHuPh12'],
 	[44, format(angle(scaled_wc('phiu_13')), '.6e') ,'# cHuPh13'],
 	[45, format(angle(scaled_wc('phiu_23')), '.6e') ,'# cHuPh23'],
-	[46, format(abs(scaled_wc('phid_11')* lambda_smeft_value**2), '.6e') ,'# cHdAbs11'],
+	[46, format(scaled_wc('phid_11')* lambda_smeft_value**2, '.6e') ,'# cHdAbs11'],
 	[47, format(abs(scaled_wc('phid_12')* lambda_smeft_value**2), '.6e') ,'# cHdAbs12'],
 	[48, format(abs(scaled_wc('phid_13')* lambda_smeft_value**2), '.6e') ,'# cHdAbs13'],
-	[49, format(abs(scaled_wc('phid_22')* lambda_smeft_value**2), '.6e') ,'# cHdAbs22'],
+	[49, format(scaled_wc('phid_22')* lambda_smeft_value**2, '.6e') ,'# cHdAbs22'],
 	[50, format(abs(scaled_wc('phid_23')* lambda_smeft_value**2), '.6e') ,'# cHdAbs23'],
-	[51, format(abs(scaled_wc('phid_33')* lambda_smeft_value**2), '.6e') ,'# cHdAbs33'],
+	[51, format(scaled_wc('phid_33')* lambda_smeft_value**2, '.6e') ,'# cHdAbs33'],
 	[52, format(angle(scaled_wc('phid_12')), '.6e') ,'# cHdPh12'],
 	[53, format(angle(scaled_wc('phid_13')), '.6e') ,'# cHdPh13'],
 	[54, format(angle(scaled_wc('phid_23')), '.6e') ,'# cHdPh23'],
-	[55, format(abs(scaled_wc('phie_11')* lambda_smeft_value**2), '.6e') ,'# cHeAbs11'],
+	[55, format(scaled_wc('phie_11')* lambda_smeft_value**2, '.6e') ,'# cHeAbs11'],
 	[56, format(abs(scaled_wc('phie_12')* lambda_smeft_value**2), '.6e') ,'# cHeAbs12'],
 	[57, format(abs(scaled_wc('phie_13')* lambda_smeft_value**2), '.6e') ,'# cHeAbs13'],
-	[58, format(abs(scaled_wc('phie_22')* lambda_smeft_value**2), '.6e') ,'# cHeAbs22'],
+	[58, format(scaled_wc('phie_22')* lambda_smeft_value**2, '.6e') ,'# cHeAbs22'],
 	[59, format(abs(scaled_wc('phie_23')* lambda_smeft_value**2), '.6e') ,'# cHeAbs23'],
-	[60, format(abs(scaled_wc('phie_33')* lambda_smeft_value**2), '.6e') ,'# cHeAbs33'],
+	[60, format(scaled_wc('phie_33')* lambda_smeft_value**2, '.6e') ,'# cHeAbs33'],
 	[61, format(angle(scaled_wc('phie_12')), '.6e') ,'# cHePh12'],
 	[62, format(angle(scaled_wc('phie_13')), '.6e') ,'# cHePh13'],
 	[63, format(angle(scaled_wc('phie_23')), '.6e') ,'# cHePh23'],
-- 
2.43.0


From 96d1183d330dc27a0014b50c5934017a26382d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 06/23] fix: wcxf command reported success (exit status 0) when
 a subcommand failed and hid AttributeErrors

---
 wilson/wcxf/cli.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wilson/wcxf/cli.py b/wilson/wcxf/cli.py
index 491278f..09c4731 100755
--- a/wilson/wcxf/cli.py
+++ b/wilson/wcxf/cli.py
@@ -75,18 +75,18 @@ def wcxf_cli():
     parser_validate.set_defaults(func=validate)
 
     args = parser.parse_args()
-    try:
-        args.func(args)
-    except AttributeError:
+    if not hasattr(args, 'func'):
         parser.print_help()
+        return 0
+    return args.func(args)
 
 
 def convert(args):
     from wilson.wcxf.converters.yamljson import convert_json, convert_yaml
     if args.FORMAT.lower() == 'json':
-        convert_json(args.FILE, args.output)
+        return convert_json(args.FILE, args.output)
     if args.FORMAT.lower() == 'yaml':
-        convert_yaml(args.FILE, args.output)
+        return convert_yaml(args.FILE, args.output)
 
 
 def translate(args):
-- 
2.43.0


From 69a482b1ed89bfadf8ff5343b40eb7693754761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 07/23] fix: 'wcxf convert' ignored unknown output formats
 silently

---
 wilson/wcxf/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wilson/wcxf/cli.py b/wilson/wcxf/cli.py
index 09c4731..5d2f7d4 100755
--- a/wilson/wcxf/cli.py
+++ b/wilson/wcxf/cli.py
@@ -87,6 +87,8 @@ def convert(args):
         return convert_json(args.FILE, args.output)
     if args.FORMAT.lower() == 'yaml':
         return convert_yaml(args.FILE, args.output)
+    logging.error("FORMAT should be 'yaml' or 'json'")
+    return 1
 
 
 def translate(args):
-- 
2.43.0


From 40dd4fc1642f7b59d7c142820e965310ed9371a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 08/23] fix: SMEFT.run_continuous solution lacked SM parameters
 and vanishing coefficients

---
 wilson/run/smeft/rge.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wilson/run/smeft/rge.py b/wilson/run/smeft/rge.py
index bd0fb7e..0cad980 100644
--- a/wilson/run/smeft/rge.py
+++ b/wilson/run/smeft/rge.py
@@ -46,13 +46,16 @@ def smeft_evolve_continuous(C_in, scale_in, scale_out, newphys=True, **kwargs):
     scales."""
     sol = _smeft_evolve(C_in, scale_in, scale_out, newphys=newphys,
                         dense_output=True, **kwargs)
+    keys = set(smeftutil.all_wcs)
     @np.vectorize
     def _rge_solution(scale):
         t = log(scale)
         y = sol.sol(t).view(complex)
         yd = smeftutil.C_array2dict(y)
-        yw = smeftutil.arrays2wcxf_nonred(yd)
-        return yw
+        # non-redundant WCs (including vanishing ones) and SM parameters
+        yw = smeftutil.arrays2wcxf(smeftutil.unscale_dict(yd))
+        return {k: v for k, v in yw.items()
+                if k in keys or k.split('_')[0] in smeftutil.dim4_keys}
     def rge_solution(scale):
         # this is to return a scalar if the input is scalar
         return _rge_solution(scale)[()]
-- 
2.43.0


From 62bd1ff85e0a733d34aeb89bb300baae977baa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 09/23] fix: hash of Wilson instance did not depend on the
 option values

---
 wilson/classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 379d3dd..a3d9870 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -153,7 +153,9 @@ class Wilson(ConfigurableClass):
         """Return a hash of the `Wilson` instance.
         The hash changes when Wilson coefficient values or options are modified.
         It assumes that `wcxf.WC` instances are not modified after instantiation."""
-        return hash((self.wc, frozenset(self._options)))
+        options = {k: frozenset(v.items()) if isinstance(v, dict) else v
+                   for k, v in self._options.items()}
+        return hash((self.wc, frozenset(options.items())))
 
     @classmethod
     def from_wc(cls, wc):
-- 
2.43.0


From debde5e0f3ce8f4a699f074bbfdca8acc201ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 10/23] fix: user parameters were ignored in the basis
 translation after SMEFT running

---
 wilson/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index a3d9870..49ba3c0 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -238,7 +238,7 @@ class Wilson(ConfigurableClass):
             if eft == 'SMEFT':
                 smeft = SMEFT(self.wc.translate('Warsaw', sectors=translate_sectors, parameters=self.parameters))
                 # if input and output EFT ist SMEFT, just run.
-                wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis)
+                wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis, parameters=self.parameters)
                 self._set_cache('all', scale, 'SMEFT', wc_out.basis, wc_out)
                 return wc_out
             else:
-- 
2.43.0


From 13757b29a67f9603f2bef2ed03908cd19b6c6078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 11/23] fix: user parameters were ignored in the WET running

---
 wilson/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 49ba3c0..a42491c 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -198,7 +198,8 @@ class Wilson(ConfigurableClass):
         """Return a dictionary of options to pass to a `run.wet.WETrunner`
         instance."""
         return {'qed_order': self.get_option('qed_order'),
-                'qcd_order': self.get_option('qcd_order')}
+                'qcd_order': self.get_option('qcd_order'),
+                'parameters': self.parameters}
 
     def match_run(self, scale, eft, basis, sectors='all'):
         """Run the Wilson coefficients to a different scale
-- 
2.43.0


From 77448200c6b78f928817a5b73e8103ca8115f55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 12/23] fix: setting deprecated parameter 'delta' modified the
 caller's dictionary

---
 wilson/classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index a42491c..cae8086 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -56,8 +56,8 @@ class ConfigurableClass:
                           "Please use 'gamma' instead. Support for using "
                           "'delta' will be removed in the future.",
                           FutureWarning)
-            value['gamma'] = value['delta']
-            del value['delta']
+            value = dict(value)  # do not modify the caller's dictionary
+            value['gamma'] = value.pop('delta')
         ####################################################################
         cls._default_options.update(cls._option_schema({key: value}))
 
@@ -75,8 +75,8 @@ class ConfigurableClass:
                           "Please use 'gamma' instead. Support for using "
                           "'delta' will be removed in the future.",
                           FutureWarning)
-            value['gamma'] = value['delta']
-            del value['delta']
+            value = dict(value)  # do not modify the caller's dictionary
+            value['gamma'] = value.pop('delta')
         ####################################################################
         self._options.update(self._option_schema({key: value}))
         self.clear_cache()
-- 
2.43.0


From e90ced8e07d5e6883a3ae8d471bb56e92c1b77a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 13/23] fix: dipole coefficients changed when QCD running was
 switched off

---
 wilson/run/wet/rge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wilson/run/wet/rge.py b/wilson/run/wet/rge.py
index 0a32b8e..3a7dc6d 100644
--- a/wilson/run/wet/rge.py
+++ b/wilson/run/wet/rge.py
@@ -143,6 +143,9 @@ def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1):
         # nothing to do for SM-like WCs or RG invariant operators
         C_result = C_input
     else:
+        if qcd_order == 0:
+            # without QCD running, couplings and quark masses are fixed as well
+            p_out = p_in
         C_scaled = np.asarray([C_input[i] * scale_C(key, p_in) for i, key in enumerate(keylist)])
         if qcd_order == 0:
             Us = np.eye(len(C_scaled))
-- 
2.43.0


From d451dfe7f0e75f0b82f924b604acc5a4fde21ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 14/23] fix: no matching possible from SMEFT bases other than
 Warsaw at the matching scale

---
 wilson/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index cae8086..6efc92b 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -247,7 +247,7 @@ class Wilson(ConfigurableClass):
                 wc_ew = self._get_from_cache(sector='all', scale=scale_ew, eft='WET', basis='JMS')
                 if wc_ew is None:
                     if self.wc.scale == scale_ew:
-                        wc_ew = self.wc.match('WET', 'JMS', parameters=self.matching_parameters)  # no need to run
+                        wc_ew = self.wc.translate('Warsaw', parameters=self.parameters).match('WET', 'JMS', parameters=self.matching_parameters)  # no need to run
                     else:
                         smeft = SMEFT(self.wc.translate('Warsaw', parameters=self.parameters))
                         wc_ew = smeft.run(scale_ew, accuracy=smeft_accuracy).match('WET', 'JMS', parameters=self.matching_parameters)
-- 
2.43.0


From cbf77f4567fb5d89f25c9212bfdd8fc0845f6bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 15/23] fix: no QED running of WET coefficients when QCD
 running was switched off

---
 wilson/run/wet/classes.py |  3 ++-
 wilson/run/wet/rge.py     | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/wilson/run/wet/classes.py b/wilson/run/wet/classes.py
index 035c250..c76ff2b 100644
--- a/wilson/run/wet/classes.py
+++ b/wilson/run/wet/classes.py
@@ -80,7 +80,8 @@ class WETrunner:
                     C_out.update(rge.run_sector(sector, self.C_in,
                                                 Etas, self.f, p_i, p_o,
                                                 qed_order=self.qed_order,
-                                                qcd_order=self.qcd_order))
+                                                qcd_order=self.qcd_order,
+                                                scale_ratio=scale_out / self.scale_in))
         return C_out
 
     def run(self, scale_out, sectors='all'):
diff --git a/wilson/run/wet/rge.py b/wilson/run/wet/rge.py
index 3a7dc6d..ea00d27 100644
--- a/wilson/run/wet/rge.py
+++ b/wilson/run/wet/rge.py
@@ -81,6 +81,17 @@ def getUe(classname, eta_s, f, alpha_s, alpha_e, m_u, m_d, m_s, m_c, m_b, m_e, m
     return -alpha_e / (2 * b0s * alpha_s) * v @ K @ np.linalg.inv(v)
 
 
+@lru_cache(maxsize=32)
+def getUe_noqcd(classname, scale_ratio, f, alpha_s, alpha_e, m_u, m_d, m_s, m_c, m_b, m_e, m_mu, m_tau):
+    """Get the QED evolution matrix in the absence of QCD running."""
+    A = getattr(adm, 'adm_e_' + classname)(f, m_u, m_d, m_s, m_c, m_b, m_e, m_mu, m_tau)
+    perm_keys = get_permissible_wcs(classname, f)
+    if perm_keys != 'all':
+        # remove disallowed rows & columns if necessary
+        A = A[perm_keys][:, perm_keys]
+    return alpha_e / (4 * pi) * log(scale_ratio) * A.T
+
+
 qG = ['uG', 'dG']
 qgamma = ['ugamma', 'dgamma']
 lgamma = ['egamma', 'nugamma']
@@ -116,7 +127,7 @@ def scale_C(key, p):
         return 1
 
 
-def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1):
+def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1, scale_ratio=1):
     r"""Solve the WET RGE for a specific sector.
 
     Parameters:
@@ -127,6 +138,8 @@ def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1):
     - f: number of active quark flavours
     - p_in: running parameters at the input scale
     - p_out: running parameters at the output scale
+    - scale_ratio: ratio of output and input scale. Only used for the QED
+      running in the absence of QCD running.
     """
     Cdictout = OrderedDict()
     classname = sectors[sector]
@@ -155,7 +168,7 @@ def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1):
             Ue = np.zeros(C_scaled.shape)
         elif qed_order == 1:
             if qcd_order == 0:
-                Ue = getUe(classname, 1, f, **p_in)
+                Ue = getUe_noqcd(classname, scale_ratio, f, **p_in)
             else:
                 Ue = getUe(classname, eta_s, f, **p_in)
         C_out = (Us + Ue) @ C_scaled
-- 
2.43.0


From 480bbd16471c9108f26515a3ba4d1830b22d9421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 16/23] fix: anomalous dimension of the three-gluon operators
 of the WET

The coefficients are rescaled by the strong coupling (scale_C) before the
evolution matrix is applied, so the running of the coupling contributes
-b0 to the diagonal entries: 36 - 3 b0 for the unscaled coefficient becomes
36 - 4 b0, just as the entries of the dipole operators contain the running of
their factors g/m.
---
 wilson/run/wet/adm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wilson/run/wet/adm.py b/wilson/run/wet/adm.py
index 5801b35..2704e0c 100644
--- a/wilson/run/wet/adm.py
+++ b/wilson/run/wet/adm.py
@@ -2027,8 +2027,8 @@ def adm_e_dF0(f, mu, md, ms, mc, mb, me, mmu, mtau):
 def adm_s_dF0(f, mu, md, ms, mc, mb, me, mmu, mtau):
     """1-loop QCD anomalous dimension matrix for sector dF0"""
     b0g = _b0g(f)
-    return np.array([[-3*b0g + 36, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 9, 9, 0, 0, 0, 0, 0, 0, 9, 9, 0, 0],
-            [0, -3*b0g + 36, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9*1j, 9*1j, 9*1j, 0, 0, 0, 0, 0, 0, 9*1j, 9*1j, 0, 0],
+    return np.array([[-4*b0g + 36, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 9, 9, 0, 0, 0, 0, 0, 0, 9, 9, 0, 0],
+            [0, -4*b0g + 36, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9*1j, 9*1j, 9*1j, 0, 0, 0, 0, 0, 0, 9*1j, 9*1j, 0, 0],
             [0, 0, -80/9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8/3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, -2/3, 0, 0, 0, 0, 0, 0, 0, 0, 0],
             [0, 0, 0, -16, 0, 64/9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0, -16/3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
             [0, 0, 0, 0, -16, 0, 64/9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0, -16/3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
-- 
2.43.0


From 409dc5b9990b59dcb84141e68c874fb01874d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 17/23] fix: running of VddLL_1231 and VddRR_1231 with complex
 coefficients

These coefficients have flavour quantum numbers opposite to the other
coefficients of the sector sb; the anomalous dimension matrix refers to their
complex conjugates.
---
 wilson/run/wet/rge.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/wilson/run/wet/rge.py b/wilson/run/wet/rge.py
index ea00d27..3e10c54 100644
--- a/wilson/run/wet/rge.py
+++ b/wilson/run/wet/rge.py
@@ -127,6 +127,17 @@ def scale_C(key, p):
         return 1
 
 
+# The ADM of the sector refers to the complex conjugate of these coefficients,
+# which have the opposite flavour quantum numbers to the rest of the sector.
+conjugated = {'sb': ['VddLL_1231', 'VddRR_1231']}
+
+
+def conj_C(sector, keylist, C):
+    """Take the complex conjugate of the coefficients defined in `conjugated`."""
+    return [np.conj(C[i]) if key in conjugated.get(sector, []) else C[i]
+            for i, key in enumerate(keylist)]
+
+
 def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1, scale_ratio=1):
     r"""Solve the WET RGE for a specific sector.
 
@@ -159,7 +170,8 @@ def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1, sc
         if qcd_order == 0:
             # without QCD running, couplings and quark masses are fixed as well
             p_out = p_in
-        C_scaled = np.asarray([C_input[i] * scale_C(key, p_in) for i, key in enumerate(keylist)])
+        C_conj = conj_C(sector, keylist, C_input)
+        C_scaled = np.asarray([C_conj[i] * scale_C(key, p_in) for i, key in enumerate(keylist)])
         if qcd_order == 0:
             Us = np.eye(len(C_scaled))
         elif qcd_order == 1:
@@ -173,6 +185,7 @@ def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1, sc
                 Ue = getUe(classname, eta_s, f, **p_in)
         C_out = (Us + Ue) @ C_scaled
         C_result = [C_out[i] / scale_C(key, p_out) for i, key in enumerate(keylist)]
+        C_result = conj_C(sector, keylist, C_result)
     for j in range(len(C_result)):
         Cdictout[keylist[j]] = C_result[j]
     return Cdictout
-- 
2.43.0


From 8968ebe6efa2ee419568316b8f81e74338b23d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 18/23] fix: translation to the Bern, EOS and formflavor bases
 when sectors are specified

---
 wilson/translate/wet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 6acf24c..910917f 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1726,7 +1726,7 @@ def get_parameters(scale, f=5, input_parameters=None):
 
 def JMS_to_EOS(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
@@ -1991,7 +1991,7 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None, sectors=None):
 
 def JMS_to_FormFlavor(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
@@ -2010,7 +2010,7 @@ def JMS_to_FormFlavor(Cflat, scale, parameters=None, sectors=None):
 
 def JMS_to_Bern(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
-- 
2.43.0


From c6b997988aa024d62a53a8cd3b69db8126d0abe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 19/23] fix: real and imaginary parts of Wilson coefficients in
 the EOS basis

---
 wilson/translate/wet.py | 78 ++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 910917f..3388070 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1026,7 +1026,7 @@ def _Fierz_to_EOS_V(Fsbuu,Fsbdd,Fsbcc,Fsbss,Fsbbb,parameters):
         - Fsbdd['Fsbdd4'] / 180 + Fsbss['Fsbss1'] / 54
         - Fsbss['Fsbss3'] / 60 - Fsbss['Fsbss4'] / 180
         + 5 * Fsbuu['Fsbuu1'] / 216 - Fsbuu['Fsbuu2'] / 216
-        - Fsbuu['Fsbuu3'] / 60 - Fsbuu['Fsbuu4'] / 180,
+        - Fsbuu['Fsbuu3'] / 60 - Fsbuu['Fsbuu4'] / 180
     )
     c6 = (
         + Fsbbb['Fsbbb1'] / 36 - Fsbbb['Fsbbb4'] / 30
@@ -1036,16 +1036,16 @@ def _Fierz_to_EOS_V(Fsbuu,Fsbdd,Fsbcc,Fsbss,Fsbbb,parameters):
         - Fsbuu['Fsbuu1'] / 36 + Fsbuu['Fsbuu2'] / 18
         - Fsbuu['Fsbuu4'] / 30
     )
+    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
     dic = {
-        'b->s::c1' : np.real(c1),
-        'b->s::c2' : np.real(c2),
-        'b->s::c3' : np.real(c3),
-        'b->s::c4' : np.real(c4),
-        'b->s::c5' : np.real(c5),
-        'b->s::c6' : np.real(c6)
+        'b->s::c1' : np.real(prefactor * c1),
+        'b->s::c2' : np.real(prefactor * c2),
+        'b->s::c3' : np.real(prefactor * c3),
+        'b->s::c4' : np.real(prefactor * c4),
+        'b->s::c5' : np.real(prefactor * c5),
+        'b->s::c6' : np.real(prefactor * c6)
     }
-    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
+    return dic
 
 
 # semileptonic operators
@@ -1382,30 +1382,30 @@ def Fierz_to_EOS_lep(C, ddll, parameters):
     ind = ddll.replace('l_','').replace('nu_','')
     ind2 = ddll.replace('l_','').replace('nu_','')[2::]
     e = sqrt(4* pi * parameters['alpha_e'])
+    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
     dic = {
-        'b->s' + ind2 + '::Re{c9}'   : np.real((16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
-        'b->s' + ind2 + '::Im{c9}'   : np.imag((16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
-        'b->s' + ind2 + "::Re{c9'}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + '9p' ]),
-        'b->s' + ind2 + "::Im{c9'}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + '9p' ]),
-        'b->s' + ind2 + "::Re{c10}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + '10' ]),
-        'b->s' + ind2 + "::Im{c10}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + '10' ]),
-        'b->s' + ind2 + "::Re{c10'}" : np.real((16 * pi**2) / e**2 * C['F' + ind + '10p']),
-        'b->s' + ind2 + "::Im{c10'}" : np.imag((16 * pi**2) / e**2 * C['F' + ind + '10p']),
-        'b->s' + ind2 + "::Re{cS}"   : np.real((16 * pi**2) / e**2 * C['F' + ind + 'S'  ]),
-        'b->s' + ind2 + "::Im{cS}"   : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'S'  ]),
-        'b->s' + ind2 + "::Re{cS'}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + 'Sp' ]),
-        'b->s' + ind2 + "::Im{cS'}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'Sp' ]),
-        'b->s' + ind2 + "::Re{cP}"   : np.real((16 * pi**2) / e**2 * C['F' + ind + 'P'  ]),
-        'b->s' + ind2 + "::Im{cP}"   : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'P'  ]),
-        'b->s' + ind2 + "::Re{cP'}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + 'Pp' ]),
-        'b->s' + ind2 + "::Im{cP'}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'Pp' ]),
-        'b->s' + ind2 + "::Re{cT}"   : np.real((16 * pi**2) / e**2 * C['F' + ind + 'T'  ]),
-        'b->s' + ind2 + "::Im{cT}"   : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'T'  ]),
-        'b->s' + ind2 + "::Re{cT5}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + 'T5' ]),
-        'b->s' + ind2 + "::Im{cT5}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'T5' ])
+        'b->s' + ind2 + '::Re{c9}'   : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
+        'b->s' + ind2 + '::Im{c9}'   : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
+        'b->s' + ind2 + "::Re{c9'}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '9p' ]),
+        'b->s' + ind2 + "::Im{c9'}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '9p' ]),
+        'b->s' + ind2 + "::Re{c10}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '10' ]),
+        'b->s' + ind2 + "::Im{c10}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '10' ]),
+        'b->s' + ind2 + "::Re{c10'}" : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '10p']),
+        'b->s' + ind2 + "::Im{c10'}" : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '10p']),
+        'b->s' + ind2 + "::Re{cS}"   : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'S'  ]),
+        'b->s' + ind2 + "::Im{cS}"   : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'S'  ]),
+        'b->s' + ind2 + "::Re{cS'}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'Sp' ]),
+        'b->s' + ind2 + "::Im{cS'}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'Sp' ]),
+        'b->s' + ind2 + "::Re{cP}"   : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'P'  ]),
+        'b->s' + ind2 + "::Im{cP}"   : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'P'  ]),
+        'b->s' + ind2 + "::Re{cP'}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'Pp' ]),
+        'b->s' + ind2 + "::Im{cP'}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'Pp' ]),
+        'b->s' + ind2 + "::Re{cT}"   : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'T'  ]),
+        'b->s' + ind2 + "::Im{cT}"   : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'T'  ]),
+        'b->s' + ind2 + "::Re{cT5}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'T5' ]),
+        'b->s' + ind2 + "::Im{cT5}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'T5' ])
     }
-    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
+    return dic
 
 def JMS_to_FormFlavor_lep(C, dd):
     """From JMS to semileptonic Fierz basis for Classes V.
@@ -1597,16 +1597,16 @@ def Fierz_to_EOS_chrom(C, dd, parameters):
     e = sqrt(4 * pi * parameters['alpha_e'])
     gs = sqrt(4 * pi * parameters['alpha_s'])
     mb = parameters['m_b']
+    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
     dic = {
-        "b->s::Re{c7}"  : np.real(16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
-        "b->s::Im{c7}"  : np.imag(16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
-        "b->s::Re{c7'}" : np.real(16 * pi**2 / mb / e  * C["F7pgamma" + dd]),
-        "b->s::Im{c7'}" : np.imag(16 * pi**2 / mb / e  * C["F7pgamma" + dd]),
-        "b->s::c8"      : np.real(16 * pi**2 / mb / gs * C["F8g"      + dd]),
-        "b->s::c8'"     : np.real(16 * pi**2 / mb / gs * C["F8pg"     + dd])
+        "b->s::Re{c7}"  : np.real(prefactor * 16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
+        "b->s::Im{c7}"  : np.imag(prefactor * 16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
+        "b->s::Re{c7'}" : np.real(prefactor * 16 * pi**2 / mb / e  * C["F7pgamma" + dd]),
+        "b->s::Im{c7'}" : np.imag(prefactor * 16 * pi**2 / mb / e  * C["F7pgamma" + dd]),
+        "b->s::c8"      : np.real(prefactor * 16 * pi**2 / mb / gs * C["F8g"      + dd]),
+        "b->s::c8'"     : np.real(prefactor * 16 * pi**2 / mb / gs * C["F8pg"     + dd])
     }
-    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
+    return dic
 
 
 def JMS_to_FormFlavor_chrom(C, qq, parameters):
-- 
2.43.0


From 0f32a3a6136d817e02f36adde2f5d445bf3b2c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 20/23] fix: normalisation of leptonic dipoles in the
 formflavor basis

---
 wilson/translate/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 3388070..ce81daa 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1628,7 +1628,7 @@ def JMS_to_FormFlavor_chrom(C, qq, parameters):
         l2 = llflav[qq[1]]
         return {
             'CAR_' + qq : C['egamma'][l1, l2] / e,
-            'CAL_' + qq : C['egamma'][l2, l1].conj() / gs,
+            'CAL_' + qq : C['egamma'][l2, l1].conj() / e,
                 }
     if qq[0] in uflav.keys():
         u = uflav[qq[0]]
-- 
2.43.0


From 73ffa6750cda209c9772167253bd2b7ba8bbf97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 21/23] fix: complex conjugation of Delta C=2 coefficients in
 the formflavor basis

---
 wilson/translate/wet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index ce81daa..0639a86 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -166,12 +166,12 @@ def _BernI_to_FormFlavor_I(C, qq):
     elif qq == 'cu':
         return {
             'CVLL_' + 2*qq: C["1" + 2*qq].conjugate(),
-            'CSLL_' + 2*qq: C["2" + 2*qq] + 1 / 2 * C["3" + 2*qq].conjugate(),
+            'CSLL_' + 2*qq: C["2" + 2*qq].conjugate() + 1 / 2 * C["3" + 2*qq].conjugate(),
             'CTLL_' + 2*qq: -1 / 8 * C["3" + 2*qq].conjugate(),
             'CVLR_' + 2*qq: -1 / 2 * C["5" + 2*qq].conjugate(),
             'CVRR_' + 2*qq: C["1p" + 2*qq].conjugate(),
             'CSRR_' + 2*qq: C["2p" + 2*qq].conjugate() + 1 / 2 * C["3p" + 2*qq].conjugate(),
-            'CTRR_' + 2*qq: -1 / 8 * C["3p" + 2*qq],
+            'CTRR_' + 2*qq: -1 / 8 * C["3p" + 2*qq].conjugate(),
             'CSLR_' + 2*qq: C["4" + 2*qq].conjugate()
             }
     else:
-- 
2.43.0


From 13c4d1c88c7cd1e83fc515b56614f9ef4fada452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 22/23] fix: formflavor coefficients of s -> d nu nu
 transitions

---
 wilson/translate/wet.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 0639a86..5ce1538 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1424,12 +1424,12 @@ def JMS_to_FormFlavor_lep(C, dd):
         'CSRL_' + dd + 'mm' : C["SedRL"][1, 1, b, s].conj(),
         'CTLL_' + dd + 'mm' : C["TedRR"][1, 1, b, s].conj(),
         'CTRR_' + dd + 'mm' : C["TedRR"][1, 1, s, b],
-        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLL"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLL"][2, 2, s-1, s],
-        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLR"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLR"][2, 2, s-1, s]
+        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLL"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLL"][2, 2, 0, 1],
+        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLR"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLR"][2, 2, 0, 1]
             }
 
 # chromomagnetic operators
-- 
2.43.0


From bc2abfbadfdf810da5458d2f20ef922d72571afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 23/23] fix: lepton flavour violating s -> d coefficients lost
 in translation from flavio to Bern

---
 wilson/translate/wet.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 5ce1538..a60a4f2 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1954,11 +1954,10 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None, sectors=None):
                                         'db'+'l_'+l+'nu_'+lp, p,
                                         norm_gf=True),
                                         'db'+'l_'+l+'nu_'+lp))
-            if l == lp:  # l+l- only for l=l'
-                d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
-                                            'ds'+'l_'+l+'nu_'+lp, p,
-                                            norm_gf=True),
-                                            'ds'+'l_'+l+'nu_'+lp))
+            d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
+                                        'ds'+'l_'+l+'nu_'+lp, p,
+                                        norm_gf=True),
+                                        'ds'+'l_'+l+'nu_'+lp))
             d.update(Fierz_to_Bern_nunu(Flavio_to_Fierz_nunu(C,
                                         'sb'+'l_'+l+'nu_'+lp, p,
                                         norm_gf=True),
-- 
2.43.0

