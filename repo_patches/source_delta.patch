From 63cd13ede83c605f3a93dd01fad863e6ff0b40c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:37 +0000
Subject: [PATCH 01/50] fix: LinearOperator power: zeroth power is the identity
 and chained operators are kept

---
 src/spectrocrunch/math/linop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/math/linop.py b/src/spectrocrunch/math/linop.py
index 4b7501b..7b4a5e1 100755
--- a/src/spectrocrunch/math/linop.py
+++ b/src/spectrocrunch/math/linop.py
@@ -358,11 +358,11 @@ class LinearOperator(Operator):
             if p < 0:
                 raise NotImplementedError
             elif p == 0:
-                ret = self.__class__(0, 1)
+                ret = self.__class__(1, 0)
             else:
-                ret = self.__class__(self.m, self.b)
+                ret = self
                 for _ in range(1, p):
-                    ret *= self.__class__(self.m, self.b)
+                    ret = ret * self
             return ret
         else:
             raise NotImplementedError
-- 
2.43.0


From 0a2deebbff1511dbf8d369d670e22be97c16aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:37 +0000
Subject: [PATCH 02/50] fix: operator equality takes the operator on the right
 into account

---
 src/spectrocrunch/math/linop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/math/linop.py b/src/spectrocrunch/math/linop.py
index 7b4a5e1..9555628 100755
--- a/src/spectrocrunch/math/linop.py
+++ b/src/spectrocrunch/math/linop.py
@@ -88,7 +88,9 @@ class Operator(object):
     def __eq__(self, other):
         if not isinstance(other, self.__class__):
             return False
-        return self._op_name == other._op_name and self._attr_eq(other)
+        if self._op_name != other._op_name or self._opright != other._opright:
+            return False
+        return self._attr_eq(other)
 
     def _attr_eq(self, other):
         return True
-- 
2.43.0


From 92582d1fe5c8f97f90b1a789351bfa18b38a5019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 03/50] fix: Mueller matrix of a complex or asymmetric Jones
 matrix

---
 src/spectrocrunch/sources/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/sources/polarization.py b/src/spectrocrunch/sources/polarization.py
index a93c914..13b3b3e 100755
--- a/src/spectrocrunch/sources/polarization.py
+++ b/src/spectrocrunch/sources/polarization.py
@@ -739,7 +739,7 @@ class Stokes(object):
         """
 
         return (
-            cls.pauli44.dot(np.kron(M, M.T.conjugate())).dot(cls.pauli44.T.conjugate())
+            cls.pauli44.dot(np.kron(M, M.conjugate())).dot(cls.pauli44.T.conjugate())
             / 2.0
         )
 
-- 
2.43.0


From 2edcb344ff6abc6b919132fd7731150ba42abb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 04/50] fix: a beam filter without a name no longer replaces an
 existing beam filter

---
 src/spectrocrunch/detectors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/base.py b/src/spectrocrunch/detectors/base.py
index 062e6b1..942d66b 100644
--- a/src/spectrocrunch/detectors/base.py
+++ b/src/spectrocrunch/detectors/base.py
@@ -194,7 +194,7 @@ class Material(Copyable):
         for att in self.attenuators:
             m = self.match_beamfilter(att)
             if m:
-                i = max(i, int(m.groups()[0]))
+                i = max(i, int(m.groups()[0]) + 1)
         return "BeamFilter{}".format(i)
 
     def addtofisx(self, setup, cfg):
-- 
2.43.0


From 00f81ded7ec11d3bfd1c0597ba0a7ed5fa606bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 05/50] fix: atmosphere is a detector filter when it is to be
 included

---
 src/spectrocrunch/detectors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/base.py b/src/spectrocrunch/detectors/base.py
index 942d66b..6269196 100644
--- a/src/spectrocrunch/detectors/base.py
+++ b/src/spectrocrunch/detectors/base.py
@@ -165,7 +165,7 @@ class Material(Copyable):
         return (
             not self.isbeamfilter(name)
             and name != self.DETMATERIALLABEL
-            and (name != self.ATMOSPHERELABEL or not include_atmosphere)
+            and (name != self.ATMOSPHERELABEL or include_atmosphere)
         )
 
     def beamfilters(self, include_atmosphere=False):
-- 
2.43.0


From 4c04711b7d797b9015c25d9515e1c73df4478f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 06/50] fix: XRF geometry without a distance function

---
 src/spectrocrunch/geometries/xrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/geometries/xrf.py b/src/spectrocrunch/geometries/xrf.py
index 149815a..fe0e918 100755
--- a/src/spectrocrunch/geometries/xrf.py
+++ b/src/spectrocrunch/geometries/xrf.py
@@ -360,7 +360,7 @@ class XRFGeometry(with_metaclass(base.Centric)):
         """Sample-detector distance in cm"""
         calc = self.distancefunc
         if calc is None:
-            return super(XRFGeometry, self).distance
+            return super(XRFGeometry, self).distance_rv
         else:
             return calc(rv=True, **self.distancekwargs)
 
@@ -371,7 +371,7 @@ class XRFGeometry(with_metaclass(base.Centric)):
     @distance.setter
     def distance(self, distance):
         if self.distancefunc is None:
-            super(XRFGeometry, self).distance = distance
+            base.Centric.distance.fset(self, distance)
         else:
             if distance is not None:
                 distance = units.Quantity(distance, "cm")
-- 
2.43.0


From f08de7fd56ee759e344cd2c3628a3988796c31de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 07/50] fix: saving the calibration of a linear XRF geometry

---
 src/spectrocrunch/geometries/xrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/geometries/xrf.py b/src/spectrocrunch/geometries/xrf.py
index fe0e918..8d78951 100755
--- a/src/spectrocrunch/geometries/xrf.py
+++ b/src/spectrocrunch/geometries/xrf.py
@@ -498,7 +498,7 @@ class LinearXRFGeometry(XRFGeometry):
 
     def set_calibrc(self, calibrc):
         calibrc["positionunits"] = calibrc.get("positionunits", self.positionunits)
-        super(LinearXRFGeometry, self).set_calibrc(calibrc)
+        super(LinearXRFGeometry, self)._set_calibrc(calibrc)
 
 
 class sxm120(LinearXRFGeometry):
-- 
2.43.0


From 0e379cdb3b71f41ec171eb510db23bd220aeecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 08/50] fix: noise and fano factor of the virtual ID16b
 detector

---
 src/spectrocrunch/detectors/xrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/detectors/xrf.py b/src/spectrocrunch/detectors/xrf.py
index 5247066..17a939d 100755
--- a/src/spectrocrunch/detectors/xrf.py
+++ b/src/spectrocrunch/detectors/xrf.py
@@ -998,8 +998,8 @@ class ID16b_Virtual1(XRFDetector):
         kwargs["activearea"] = units.Quantity(activearea, "cm^2")
         kwargs["mcazero"] = kwargs.get("mcazero", 0.0)  # keV
         kwargs["mcagain"] = kwargs.get("mcagain", 10e-3)  # keV
-        kwargs["mcanoise"] = kwargs.get("mcagain", 0.1)  # keV
-        kwargs["mcafano"] = kwargs.get("mcagain", 0.114)
+        kwargs["mcanoise"] = kwargs.get("mcanoise", 0.1)  # keV
+        kwargs["mcafano"] = kwargs.get("mcafano", 0.114)
         ehole = kwargs.get("ehole", constants.eholepair_si())
         kwargs["ehole"] = units.Quantity(ehole, "eV")
         super(ID16b_Virtual1, self).__init__(**kwargs)
-- 
2.43.0


From 2cc2f6cfbe10c7a5b8095336d275241fa83f4dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 09/50] fix: changing the fraction of one part rebalances the
 other parts

---
 src/spectrocrunch/materials/multielementbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multielementbase.py b/src/spectrocrunch/materials/multielementbase.py
index 369c14e..52d6f20 100755
--- a/src/spectrocrunch/materials/multielementbase.py
+++ b/src/spectrocrunch/materials/multielementbase.py
@@ -33,7 +33,7 @@ class MultiElementBase(elementbase.ElementBase):
 
         # update others
         if w2:
-            v2 = np.asarray(w2.values())
+            v2 = np.asarray(list(w2.values()))
             v2 *= (1 - values.sum()) / v2.sum()
             w.update((k, v) for k, v in zip(w2.keys(), v2))
 
-- 
2.43.0


From e9ad89b02dc94ea6ef684bbca253b133a5407dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 10/50] fix: scattering cross section of a mixture without
 scatterers

---
 src/spectrocrunch/materials/mixture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/materials/mixture.py b/src/spectrocrunch/materials/mixture.py
index a929c6f..65c78c8 100755
--- a/src/spectrocrunch/materials/mixture.py
+++ b/src/spectrocrunch/materials/mixture.py
@@ -246,7 +246,7 @@ class Mixture(multielementbase.MultiElementBase):
     def _crosssection(self, method, E, fine=False, decomposed=False, **kwargs):
         """Calculate mixture cross-sections"""
         bscat = self._cs_scattering(method)
-        if bscat and not self.hasscatterers:
+        if bscat and not self.hasscatterers():
             if decomposed:
                 return {}
             else:
@@ -342,7 +342,7 @@ class Mixture(multielementbase.MultiElementBase):
             c.unmarkscatterer()
 
     def hasscatterers(self):
-        return any([c.isscatterer() for c in self._compounds])
+        return any([c.isscatterer for c in self._compounds])
 
     def get_energy(self, energyrange, defaultinc=1):
         """Get absolute energies (keV) from a relative energy range (eV)"""
-- 
2.43.0


From df54d240f70485a92aeafed2fddf9874ddefd26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 11/50] fix: elemental mole fractions of a mixture account for
 the number of atoms in each compound

---
 src/spectrocrunch/materials/mixture.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/spectrocrunch/materials/mixture.py b/src/spectrocrunch/materials/mixture.py
index 65c78c8..d118062 100755
--- a/src/spectrocrunch/materials/mixture.py
+++ b/src/spectrocrunch/materials/mixture.py
@@ -158,9 +158,8 @@ class Mixture(multielementbase.MultiElementBase):
 
     @property
     def Zeff(self):
-        # equivalent to using elemental_molefractions
-        nfrac = self.molefractions()
-        Z = np.asarray([c.Zeff for c in nfrac])
+        nfrac = self.elemental_molefractions()
+        Z = np.asarray([e.Z for e in nfrac])
         nfrac = np.asarray(list(nfrac.values()))
         return (Z * nfrac).sum()
 
@@ -208,16 +207,11 @@ class Mixture(multielementbase.MultiElementBase):
         return stoichiometry.density_from_molefrac(nfrac, rho, MM)
 
     def elemental_molefractions(self):
-        ret = {}
-        c_nfrac = self.molefractions()
-        for c in c_nfrac:
-            e_nfrac = c.elemental_molefractions()
-            for e in e_nfrac:
-                if e in ret:
-                    ret[e] += c_nfrac[c] * e_nfrac[e]
-                else:
-                    ret[e] = c_nfrac[c] * e_nfrac[e]
-        return ret
+        # the mole fractions of the compounds cannot be used as weights because
+        # the number of atoms in one mole depends on the compound
+        e_nfrac = self.elemental_equivalents()
+        total = sum(e_nfrac.values())
+        return {e: n / total for e, n in e_nfrac.items()}
 
     def elemental_equivalents(self):
         ret = {}
-- 
2.43.0


From b0f6c6ff47b667988ac81c9e94c4ef608a614e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:41 +0000
Subject: [PATCH 12/50] fix: a copied or transferred transformation does not
 share its matrix and may be of another type

---
 src/spectrocrunch/align/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 172efd4..e61239c 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -53,7 +53,7 @@ class LinearMapping(Mapping):
         m = LinearMapping(
             self.transfotype, dtype=self.dtype, cval=self.cval, **self.interpolationargs
         )
-        m.cof = self.cof
+        m.cof = self.cof.copy()
         return m
 
     def copy(self):
@@ -444,7 +444,7 @@ class LinearMapping(Mapping):
         self.transfotype = transformobj.transfotype
         self.dtype = transformobj.dtype
         self.cval = transformobj.cval
-        self.cof[:] = transformobj.cof[:]
+        self.cof = transformobj.cof.copy()
 
     def _solvelinearsystem(self, A, b):
         sol = lstsq(A, b)
-- 
2.43.0


From 1a2d6e0dc0facb5777b2ddaadffce0948ed16ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 13/50] fix: image of an affine transformation with different
 scales along x and y

---
 src/spectrocrunch/align/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index e61239c..d1492ee 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -79,7 +79,7 @@ class LinearMapping(Mapping):
                 #                   for coordinates (y,x)
                 return affine_transform(
                     img,
-                    self.cof[0:2, 0:2].T,
+                    self.cof[1::-1, 1::-1],
                     offset=self.cof[1::-1, 2],
                     cval=self.cval,
                     **self.interpolationargs,
-- 
2.43.0


From 474fc0f42884ababb2c5d6fc896641d1ef50f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 14/50] fix: setting and reading back parts of a transformation

---
 src/spectrocrunch/align/transform.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index d1492ee..0c5b59d 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -151,7 +151,7 @@ class LinearMapping(Mapping):
     def setrigid(self, theta, tx, ty):
         if self.transfotype == transformationType.translation:
             # trn = self.gettranslation()
-            self.transfotype == transformationType.affine
+            self.transfotype = transformationType.rigid
             self.cof = self.getidentity()
         elif self.transfotype == transformationType.rigid:
             pass
@@ -173,7 +173,8 @@ class LinearMapping(Mapping):
         if self.transfotype == transformationType.translation:
             return 0, self.cof[0], self.cof[1]
         elif self.transfotype == transformationType.rigid:
-            return np.arccos(self.cof[0, 0]), self.cof[0, 2], self.cof[1, 2]
+            theta = np.arctan2(self.cof[1, 0], self.cof[0, 0])
+            return theta, self.cof[0, 2], self.cof[1, 2]
         else:
             raise ValueError(
                 "Transformation should be a translation or a rigid transformation"
@@ -235,13 +236,13 @@ class LinearMapping(Mapping):
                 [[1, 0, self.cof[0]], [0, 1, self.cof[1]]], dtype=self.dtype
             )
         elif self.transfotype == transformationType.rigid:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         elif self.transfotype == transformationType.similarity:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         elif self.transfotype == transformationType.affine:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         elif self.transfotype == transformationType.projective:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         else:
             raise ValueError("Transformation does not have an affine part")
 
@@ -252,11 +253,11 @@ class LinearMapping(Mapping):
             self.cof = self.getidentity()
             self.settranslation(trn)
         elif self.transfotype == transformationType.rigid:
-            self.transfotype == transformationType.projective
+            self.transfotype = transformationType.projective
         elif self.transfotype == transformationType.similarity:
-            self.transfotype == transformationType.projective
+            self.transfotype = transformationType.projective
         elif self.transfotype == transformationType.affine:
-            self.transfotype == transformationType.projective
+            self.transfotype = transformationType.projective
         elif self.transfotype == transformationType.projective:
             pass
         else:
-- 
2.43.0


From 0c6f04cda4ec852501e486c1a5fe38eabd82195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 15/50] fix: rigid transformation from key points

---
 src/spectrocrunch/align/transform.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 0c5b59d..2dc56d1 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -497,8 +497,9 @@ class LinearMapping(Mapping):
         # R.(X-Xcen) = Y-Ycen
         # R.X + T = Y   and   T = Ycen - R.Xcen
 
-        censrc = np.asarray([self.centroid(xdest), self.centroid(ydest)])[:, np.newaxis]
-        cendest = np.asarray([self.centroid(xsrc), self.centroid(ysrc)])[:, np.newaxis]
+        # Not the trimmed mean: it does not rotate along with the points
+        censrc = np.asarray([np.mean(xdest), np.mean(ydest)])[:, np.newaxis]
+        cendest = np.asarray([np.mean(xsrc), np.mean(ysrc)])[:, np.newaxis]
 
         X = np.vstack([xdest, ydest])
         Y = np.vstack([xsrc, ysrc])
@@ -506,7 +507,11 @@ class LinearMapping(Mapping):
         S = np.dot(
             np.dot(X - censrc, np.identity(len(xdest))), np.transpose(Y - cendest)
         )
-        U, s, V = np.linalg.svd(S, full_matrices=False)
+        U, s, VT = np.linalg.svd(S, full_matrices=False)
+        V = np.transpose(VT)
+        if np.linalg.det(np.dot(V, np.transpose(U))) < 0:
+            # reflection: closest rotation instead
+            V = V * [1, -1]
         C = np.dot(V, np.transpose(U))
         self.setlinear(C)
 
-- 
2.43.0


From 9820732c20b743434084042b44c5b2ac50d46b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 16/50] fix: outgoing path lengths of a multilayer use the
 outgoing angle

---
 src/spectrocrunch/materials/multilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 4e5e039..7766e1e 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -217,7 +217,7 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
 
     @property
     def xraythicknessout(self):
-        return np.vectorize(lambda layer: layer.xraythicknessin)(self)
+        return np.vectorize(lambda layer: layer.xraythicknessout)(self)
 
     def arealdensity(self):
         ret = collections.Counter()
-- 
2.43.0


From acb618d94526184b32b32948acbc08ff238b0e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 17/50] fix: one lower bound per refined parameter

---
 src/spectrocrunch/materials/multilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 7766e1e..fad6b6c 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -350,7 +350,7 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
             A = np.vstack(A).T
 
             if constraint:
-                lb = np.zeros(len(A), dtype=float)
+                lb = np.zeros(A.shape[1], dtype=float)
                 lb[-1] = -np.inf
                 ub = np.inf
                 params = fit1d.lstsq_bound(A, y, lb, ub)
-- 
2.43.0


From e536a7c75060cbbab97ebcf5161b08c6aff0cfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 18/50] fix: source weights of fixed layers in multilayer
 refinement

---
 src/spectrocrunch/materials/multilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index fad6b6c..23d3781 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -371,7 +371,7 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
     ):
         y = absorbance
         for layer in self.fixediter():
-            y = y - layer.absorbance(energy)
+            y = y - layer.absorbance(energy, weights=weights)
 
         A = [layer.mass_att_coeff(energy) for layer in self.freeiter()]
         if weights is not None:
-- 
2.43.0


From 2cd9a248fef928f368944eba17a323f1c0e2e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 19/50] fix: diode counts to current conversion did not call
 the operator factory

---
 src/spectrocrunch/detectors/diode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index b5d24bd..82dfe4d 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -1046,7 +1046,7 @@ class PNdiode(with_metaclass(base.SolidState)):
         Returns:
             callable: slope (C/cts), intercept(C/s)
         """
-        return self.op_cpstocurrent * self.op_countstocps(time)
+        return self.op_cpstocurrent() * self.op_countstocps(time)
 
     def op_voltagetocps(self):
         """Operator to convert voltage to counts-per-second
-- 
2.43.0


From f89b46f39ddc60abfa1ab3c23b4c0dcbe4df982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 20/50] fix: diode counts to voltage conversion always failed

---
 src/spectrocrunch/detectors/diode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index 82dfe4d..54a8891 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -1317,7 +1317,7 @@ class PNdiode(with_metaclass(base.SolidState)):
         Returns:
             num or array: voltage (V)
         """
-        op = self.op_cpstovoltage(time)
+        op = self.op_countstovoltage(time)
         return op(units.Quantity(counts, "dimensionless")).to("volt")
 
     def voltagetoflux(self, energy, voltage, weights=None):
@@ -1467,7 +1467,7 @@ class PNdiode(with_metaclass(base.SolidState)):
             tmp = response_after.to("dimensionless")
             if time is None:
                 raise RuntimeError("Need exposure time to convert counts to flux.")
-            V_meas = self.countstovoltage(time, tmp, weights=weights)
+            V_meas = self.countstovoltage(time, tmp)
 
         # Voltage from the signal before the gain is applied
         response_before = units.Quantity(response_before, "Hz")
-- 
2.43.0


From 618002ad6ae84ef2c8688ed3e72afba9b246a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 21/50] fix: diode charge per sample photon mixed up the lines
 of a polychromatic source

---
 src/spectrocrunch/detectors/diode.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index 54a8891..10c3924 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -664,7 +664,6 @@ class PNdiode(with_metaclass(base.SolidState)):
                 * self.filter_transmission(energy, source=True)
                 * self.filter_transmission(energy, source=False)
             )
-            wY = wY.sum(axis=-1, keepdims=True)
         else:
             # Target spectrum energies and rates (ph/phsource)
             secondarytarget_ratedict = None
-- 
2.43.0


From 59b59839657cb6af770a472a9feb178e5dfca6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 22/50] fix: simplified diode calibration overestimated the
 charge for several source lines

---
 src/spectrocrunch/detectors/diode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index 10c3924..3b6c004 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -789,7 +789,7 @@ class PNdiode(with_metaclass(base.SolidState)):
             # Cs = SUM_i [SUM_j[wi.Yij.Cj]] / SUM_k [wk.Tks]
             #    = SUM_i [wi . Csi]
             self._lut_chargepersamplephoton.replace(
-                units.Quantity(energy, "keV"), Cscalib / weights
+                units.Quantity(energy, "keV"), Cscalib * np.ones_like(weights)
             )
             Cscalc = self._chargepersamplephoton(energy, weights=weights)
         else:
-- 
2.43.0


From e87c15d4e2c2cc31e1424417938df79d7e1b9cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:32 +0000
Subject: [PATCH 23/50] fix: diode gain from response accepted ratios that are
 not finite or not positive

---
 src/spectrocrunch/detectors/diode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index 3b6c004..77add91 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -1490,7 +1490,7 @@ class PNdiode(with_metaclass(base.SolidState)):
             r = units.magnitude(V_meas / V_calc, "dimensionless")
 
         r = np.median(r[np.isfinite(r)])
-        if np.isfinite(r and r > 0):
+        if np.isfinite(r) and r > 0:
             return self.gainrounder(self.gain * r)
         else:
             return None
-- 
2.43.0


From 1ddd5b5970f11df3ecedd43785879cd9d65de3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 24/50] fix: changing the limits of a regular axis added a
 position

---
 src/spectrocrunch/process/axis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index dd7b2fa..4a24379 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -521,11 +521,11 @@ class AxisRegular(_AxisRegular):
 
     @_AxisRegular.start.setter
     def start(self, value):
-        self.values = value, self.end, self.size
+        self.values = value, self.end, self.nsteps
 
     @_AxisRegular.end.setter
     def end(self, value):
-        self.values = self.start, value, self.size
+        self.values = self.start, value, self.nsteps
 
     @_AxisRegular.size.setter
     def size(self, value):
@@ -556,11 +556,11 @@ class AxisRegularInc(_AxisRegular):
 
     @_AxisRegular.start.setter
     def start(self, value):
-        self.values = value, self.stepsize, self.size
+        self.values = value, self.stepsize, self.nsteps
 
     @_AxisRegular.stepsize.setter
     def stepsize(self, value):
-        self.values = self.start, value, self.size
+        self.values = self.start, value, self.nsteps
 
     @_AxisRegular.size.setter
     def size(self, value):
-- 
2.43.0


From eb64bae470fa12efe37b2c26e6b914d486d79538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 25/50] fix: changing the step size or the end of a regular
 axis did not change its values

---
 src/spectrocrunch/process/axis.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 4a24379..c6dc193 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -527,6 +527,11 @@ class AxisRegular(_AxisRegular):
     def end(self, value):
         self.values = self.start, value, self.nsteps
 
+    @_AxisRegular.stepsize.setter
+    def stepsize(self, value):
+        value = units.Quantity(value, units=self.units)
+        self.values = self.start, self.start + value * self.nsteps, self.nsteps
+
     @_AxisRegular.size.setter
     def size(self, value):
         self.values = self.start, self.end, value - 1
@@ -558,6 +563,11 @@ class AxisRegularInc(_AxisRegular):
     def start(self, value):
         self.values = value, self.stepsize, self.nsteps
 
+    @_AxisRegular.end.setter
+    def end(self, value):
+        value = units.Quantity(value, units=self.units)
+        self.values = self.start, (value - self.start) / self.nsteps, self.nsteps
+
     @_AxisRegular.stepsize.setter
     def stepsize(self, value):
         self.values = self.start, value, self.nsteps
-- 
2.43.0


From 016f375405d33f080ab1fc76522a28c0741c02ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 26/50] fix: last step size of a segmented axis

---
 src/spectrocrunch/process/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index c6dc193..894e305 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -682,7 +682,7 @@ class AxisSegments(Axis):
 
     @property
     def end_stepsize(self):
-        return self.stepsizes[1]
+        return self.stepsizes[-1]
 
     @property
     def nsteps(self):
-- 
2.43.0


From c0fc9242ecd6268545b370f5847219f4b5c76202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 27/50] fix: step sizes of a segmented axis in other units than
 the limits

---
 src/spectrocrunch/process/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 894e305..5677118 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -672,7 +672,7 @@ class AxisSegments(Axis):
         for i, stepsize in enumerate(values):
             stepsize = func(stepsize)
             a, b = limits[i], limits[i + 1]
-            nsteps.append(int(round((b - a) / stepsize)))
+            nsteps.append(int(round(((b - a) / stepsize).to("dimensionless").magnitude)))
 
         self.values = limits, nsteps
 
-- 
2.43.0


From c4dd6adc30515e23eb522907001e0982be4b9759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 28/50] fix: interpolation on an axis with one value

---
 src/spectrocrunch/process/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 5677118..141547a 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -295,7 +295,7 @@ class Axis(object):
         xold = self.magnitude
         xnew = self._extract_magnitude(values)
         if self.type == "quantitative":
-            if xold[1] < xold[0]:
+            if len(xold) > 1 and xold[1] < xold[0]:
                 # Reverse axis
                 m = np.nanmax(xold)
                 xold = m - xold
-- 
2.43.0


From 8efaf270e8c2c2beb73b0f09b233b96a71991142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:55 +0000
Subject: [PATCH 29/50] fix: unit conversion of an axis modified the original
 axis and failed on integers

---
 src/spectrocrunch/process/axis.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 141547a..d687214 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -85,7 +85,7 @@ class Axis(object):
     def units(self, value):
         if self.type != "quantitative":
             raise RuntimeError("{} axis has no units".format(self.type))
-        self.values.ito(value)
+        self._values = self.values.to(value)
 
     @property
     def unit_suffix(self):
@@ -505,10 +505,10 @@ class _AxisRegular(Axis):
 
     @units.setter
     def units(self, value):
-        self.values.ito(value)
-        self.start.ito(value)
-        self.end.ito(value)
-        self.stepsize.ito(value)
+        self._values = self.values.to(value)
+        self._start = self.start.to(value)
+        self._end = self.end.to(value)
+        self._stepsize = self.stepsize.to(value)
 
     def __repr__(self):
         return "{}(start={:~},end={:~},step={:~},size={})".format(
-- 
2.43.0


From c7b6fc6d71cd737db242d46ea5d645587d58e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 30/50] fix: cropping an irregular axis dropped values inside
 the new limits

---
 src/spectrocrunch/process/axis.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index d687214..c788e14 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -393,7 +393,12 @@ class Axis(object):
             add = oldstart - np.arange(1, nstepsadd + 1)[::-1] * stepsize
             x = np.append(add.magnitude, x)
         elif nstepsadd < 0:
-            x = x[-nstepsadd:]
+            # last value not beyond the new start
+            diff = (x - newstart.to(self.units).magnitude) * np.sign(stepsize.magnitude)
+            if (diff < 0).all():
+                x = x[:0]
+            else:
+                x = x[max(np.sum(diff <= 0) - 1, 0) :]
         if len(x):
             return self.factory(units.Quantity(x, units=self.units))
         else:
@@ -418,7 +423,12 @@ class Axis(object):
             add = oldend + np.arange(1, nstepsadd + 1) * stepsize
             x = np.append(x, add.magnitude)
         elif nstepsadd < 0:
-            x = x[:nstepsadd]
+            # first value not before the new end
+            diff = (x - newend.to(self.units).magnitude) * np.sign(stepsize.magnitude)
+            if (diff > 0).all():
+                x = x[:0]
+            else:
+                x = x[: np.sum(diff < 0) + 1]
         if len(x):
             return self.factory(units.Quantity(x, units=self.units))
         else:
-- 
2.43.0


From bfc363b027a02d6d1c9936c38ba55f9cfa34d2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:48 +0000
Subject: [PATCH 31/50] fix: new axis limits failed when cropped to one value
 or placed outside the axis

---
 src/spectrocrunch/process/axis.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index c788e14..aaa18b1 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -444,9 +444,20 @@ class Axis(object):
         Returns:
             Axis|None
         """
-        axis = self.newstart(newstart)
-        if axis is not None:
-            axis = axis.newend(newend)
+        newstart = units.Quantity(newstart, units=self.units)
+        newend = units.Quantity(newend, units=self.units)
+        if newstart == self.start and newend == self.end:
+            return self.factory(self.values)
+        # Expand before cropping: the step size is lost
+        # when no or only one value remains
+        if (newend - self.end) * self.end_stepsize > 0:
+            axis = self.newend(newend)
+            if axis is not None:
+                axis = axis.newstart(newstart)
+        else:
+            axis = self.newstart(newstart)
+            if axis is not None and axis.end != newend:
+                axis = axis.newend(newend)
         return axis
 
 
-- 
2.43.0


From 0392e1e0fcab7ef43e13bd94c111c265d4b754b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:14 +0000
Subject: [PATCH 32/50] fix: step sizes of a segmented axis without units

---
 src/spectrocrunch/process/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index aaa18b1..b42fddd 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -683,7 +683,7 @@ class AxisSegments(Axis):
         limits = self.limits
 
         u = units.Quantity(values[0]).units
-        if u == "dimensionless":
+        if u == units.ureg.dimensionless:
             u = limits.units
 
         def func(x):
-- 
2.43.0


From fdee74e9fc86136438a2f254294915bf92dc05a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:14 +0000
Subject: [PATCH 33/50] fix: comparing axes with labels raised an exception

---
 src/spectrocrunch/process/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index b42fddd..88b5122 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -206,7 +206,7 @@ class Axis(object):
         if self.size != other.size:
             return False
         if self.type != "quantitative":
-            return all(self.values == other.values)
+            return all(a == b for a, b in zip(self.values, other.values))
         # threshold = max(self.precision, other.precision.to(self.units)).magnitude
         threshold = self.precision.magnitude
         values = self.magnitude
-- 
2.43.0


From 3479d857f2335365c4c8145f26868580bb0eca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:14 +0000
Subject: [PATCH 34/50] fix: unit conversion of a segmented axis did not
 convert its limits

---
 src/spectrocrunch/process/axis.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 88b5122..8cfa828 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -658,6 +658,16 @@ class AxisSegments(Axis):
     def __setitem__(self, ind, values):
         raise RuntimeError("Axis values are not editable")
 
+    @property
+    def units(self):
+        return self.values.units
+
+    @units.setter
+    def units(self, value):
+        self._values = self.values.to(value)
+        self._limits = self.limits.to(value)
+        self._stepsizes = self.stepsizes.to(value)
+
     @property
     def start(self):
         return self.limits[0]
-- 
2.43.0


From 852cf483cf582e9ec84b3fa23abb4a47c1bb28df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:46 +0000
Subject: [PATCH 35/50] fix: noise of absorption, gain and detection was not
 applied to arrays of photon counts

---
 src/spectrocrunch/detectors/area.py          | 2 +-
 src/spectrocrunch/materials/lenses.py        | 2 +-
 src/spectrocrunch/materials/multilayer.py    | 2 +-
 src/spectrocrunch/materials/scintillators.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/detectors/area.py b/src/spectrocrunch/detectors/area.py
index 15659d4..55979ea 100755
--- a/src/spectrocrunch/detectors/area.py
+++ b/src/spectrocrunch/detectors/area.py
@@ -111,7 +111,7 @@ class AreaDetector(with_metaclass()):
         """
         qe = visspectrum.sample(self.qe).to("dimensionless").magnitude
         N, qe = self.propagate_broadcast(N, qe)
-        if instance.isuscalar(N):
+        if instance.isuscalar(N) or instance.isuarray(N):
             darkcurrent = noisepropagation.poisson(self.darkcurrent)
             readoutnoise = noisepropagation.randomvariable(0, self.readoutnoise)
 
diff --git a/src/spectrocrunch/materials/lenses.py b/src/spectrocrunch/materials/lenses.py
index 7427445..3a6b5dd 100755
--- a/src/spectrocrunch/materials/lenses.py
+++ b/src/spectrocrunch/materials/lenses.py
@@ -127,7 +127,7 @@ class Lens(with_metaclass()):
         probsuccess = self.transmission(visspectrum)
         N, probsuccess = self.propagate_broadcast(N, probsuccess)
         lightyield = self.lightyield(nrefrac, source=source)
-        if instance.isuscalar(N):
+        if instance.isuscalar(N) or instance.isuarray(N):
             if forward:
                 proc1 = noisepropagation.bernouilli(probsuccess)
                 proc2 = noisepropagation.poisson(lightyield)
diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 23d3781..5c24d6b 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -1766,7 +1766,7 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
         else:
             raise RuntimeError("{} not implemented yet".format(interaction))
         N, probsuccess = self.propagate_broadcast(N, probsuccess)
-        if instance.isuscalar(N):
+        if instance.isuscalar(N) or instance.isuarray(N):
             process = noisepropagation.bernouilli(probsuccess)
             Nout = noisepropagation.compound(N, process, forward=forward)
         else:
diff --git a/src/spectrocrunch/materials/scintillators.py b/src/spectrocrunch/materials/scintillators.py
index d132d1a..90cc9ed 100755
--- a/src/spectrocrunch/materials/scintillators.py
+++ b/src/spectrocrunch/materials/scintillators.py
@@ -102,7 +102,7 @@ class Scintillator(with_metaclass()):
 
         N, probsuccess, gain = self.propagate_broadcast(N, probsuccess, gain)
 
-        if instance.isuscalar(N):
+        if instance.isuscalar(N) or instance.isuarray(N):
             if forward:
                 proc1 = noisepropagation.bernouilli(probsuccess)
                 proc2 = noisepropagation.poisson(gain)
-- 
2.43.0


From 0e136ced094a33f1cb8c6d058a9608ca0c442166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:26 +0000
Subject: [PATCH 36/50] fix: number of flat images was calculated from the
 exposure time of the data

---
 src/spectrocrunch/simulation/calcnoise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/simulation/calcnoise.py b/src/spectrocrunch/simulation/calcnoise.py
index 2087f2d..330e9f7 100755
--- a/src/spectrocrunch/simulation/calcnoise.py
+++ b/src/spectrocrunch/simulation/calcnoise.py
@@ -222,7 +222,7 @@ class id21_ffsetup(object):
     @staticmethod
     def getnframes(totaltime, tframe_data, tframe_flat, fracflat):
         ndata = max(int(round(totaltime / tframe_data * (1 - fracflat))), 1)
-        nflat = max(int(round(totaltime / tframe_data * fracflat / 2.0)), 1)
+        nflat = max(int(round(totaltime / tframe_flat * fracflat / 2.0)), 1)
         nflat *= 2  # before and after
         return ndata, nflat
 
-- 
2.43.0


From 50cf55847bed5f85c02cb6c38bdceb093d77ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:26 +0000
Subject: [PATCH 37/50] fix: transmission without dark images divided by zero

---
 src/spectrocrunch/simulation/calcnoise.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spectrocrunch/simulation/calcnoise.py b/src/spectrocrunch/simulation/calcnoise.py
index 330e9f7..e33a004 100755
--- a/src/spectrocrunch/simulation/calcnoise.py
+++ b/src/spectrocrunch/simulation/calcnoise.py
@@ -25,6 +25,10 @@ def transmission(
     nframe_flat=1,
     nframe_dark=1,
 ):
+    if nframe_dark == 0:
+        # No dark images
+        D = D0 = 0
+        nframe_dark = 1
     num = N - D / nframe_dark * nframe_data
     num /= nframe_data * tframe_data
     denom = N0 - D0 / nframe_dark * nframe_flat
-- 
2.43.0


From 0df71ff553d6b3d0c45f68e19e72fccc60c07620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:11 +0000
Subject: [PATCH 38/50] fix: the amplitude of a Gaussian was guessed at the
 wrong position

---
 src/spectrocrunch/math/fit1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/math/fit1d.py b/src/spectrocrunch/math/fit1d.py
index bc56049..deb4deb 100755
--- a/src/spectrocrunch/math/fit1d.py
+++ b/src/spectrocrunch/math/fit1d.py
@@ -11,7 +11,7 @@ def guess_gaussian(x, data):
     x0i = np.argmax(data)
     x0 = x[x0i]
     sx = np.sqrt(abs((x - x0) ** 2 * data).sum() / data.sum())
-    A = data[x0] * np.sqrt(2 * np.pi) * sx
+    A = data[x0i] * np.sqrt(2 * np.pi) * sx
     return np.array([x0, sx, A], dtype=np.float32)
 
 
-- 
2.43.0


From 5c79c9f97b35c04e9e697839deb74aaf48a4b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:11 +0000
Subject: [PATCH 39/50] fix: the noise of a fit without intercept was estimated
 around the mean residual

---
 src/spectrocrunch/math/fit1d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/math/fit1d.py b/src/spectrocrunch/math/fit1d.py
index deb4deb..5cb56ae 100755
--- a/src/spectrocrunch/math/fit1d.py
+++ b/src/spectrocrunch/math/fit1d.py
@@ -109,8 +109,9 @@ def lstsq_std(A, b=None, x=None, vare=None, cove=None):
         stdx(array): errors (n)
     """
     if vare is None and cove is None:
-        vare = np.var(np.dot(A, x) - b, ddof=x.size)
-        vare = np.array([vare] * b.size)
+        residual = np.dot(A, x) - b
+        vare = (residual**2).sum() / (b.size - x.size)
+        vare = np.full(b.size, vare)
     return np.sqrt(np.diag(lstsq_cov(A, vare=vare, cove=cove)))
 
 
-- 
2.43.0


From b20545f1273af866cd00b8d8a3ee1ccf3d469e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:11 +0000
Subject: [PATCH 40/50] fix: the errors of independent parameters could not be
 estimated from the residual

---
 src/spectrocrunch/math/fit1d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/math/fit1d.py b/src/spectrocrunch/math/fit1d.py
index 5cb56ae..097889e 100755
--- a/src/spectrocrunch/math/fit1d.py
+++ b/src/spectrocrunch/math/fit1d.py
@@ -140,8 +140,9 @@ def lstsq_std_indep(A, b=None, x=None, vare=None):
         stdx(array): sqrt(VARX) (n)
     """
     if vare is None:
-        vare = np.var(np.dot(A, x) - b, ddof=x.size)
-        vare = np.full(vare, x.size)
+        residual = np.dot(A, x) - b
+        vare = (residual**2).sum() / (b.size - x.size)
+        vare = np.full(b.size, vare)
     return np.sqrt(lstsq(A * A, vare))
 
 
-- 
2.43.0


From 3b8222f5a1d0016683d332fba266666261eec82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:08 +0000
Subject: [PATCH 41/50] fix: the step of a line profile was not normalized for
 energies close to the detector noise

---
 src/spectrocrunch/detectors/xrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/xrf.py b/src/spectrocrunch/detectors/xrf.py
index 17a939d..73fed2f 100755
--- a/src/spectrocrunch/detectors/xrf.py
+++ b/src/spectrocrunch/detectors/xrf.py
@@ -515,7 +515,7 @@ class XRFDetector(with_metaclass(base.CentricCone)):
             snorm = float(u)
         else:
             zero = (
-                a * np.exp(-(u**2) / a) / (2 * np.sqrt(np.pi))
+                b * np.exp(-(u**2) / a) / (2 * np.sqrt(np.pi))
                 - u * scipy.special.erfc(u / b) / 2.0
             )
             snorm = u + zero
-- 
2.43.0


From 13b37fae6cd17483bcf8624601372975c671703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:08 +0000
Subject: [PATCH 42/50] fix: normalized profiles of several lines with PyMca
 peak shape parameters raised an exception

---
 src/spectrocrunch/detectors/xrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/detectors/xrf.py b/src/spectrocrunch/detectors/xrf.py
index 73fed2f..df5cba3 100755
--- a/src/spectrocrunch/detectors/xrf.py
+++ b/src/spectrocrunch/detectors/xrf.py
@@ -256,11 +256,11 @@ class XRFDetector(with_metaclass(base.CentricCone)):
     @staticmethod
     def wpeak(wstail, wltail, wstep):
         s = wstail + wltail + wstep
-        if s < -0.0001 or s > 1.0001:
+        if np.any(s < -0.0001) or np.any(s > 1.0001):
             raise RuntimeError(
                 "Sum of step and tail fractions must be between 0 and 1 ({})".format(s)
             )
-        return min(max(1 - s, 0), 1)
+        return np.clip(1 - s, 0, 1)
 
     @property
     def fractions(self):
-- 
2.43.0


From b0243a6075ea9788b4ac274580b7734e40321263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:08 +0000
Subject: [PATCH 43/50] fix: PyMca configurations were written and read with
 the peak shape of another energy

---
 src/spectrocrunch/detectors/xrf.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/spectrocrunch/detectors/xrf.py b/src/spectrocrunch/detectors/xrf.py
index df5cba3..41e7dd8 100755
--- a/src/spectrocrunch/detectors/xrf.py
+++ b/src/spectrocrunch/detectors/xrf.py
@@ -96,17 +96,21 @@ class XRFDetector(with_metaclass(base.CentricCone)):
             o.shape_conversionenergy = shape_conversionenergy
         if shape_conversionenergy is None:
             raise RuntimeError("Specify conversion energy")
-        if o.fixedarearatios:
-            o.stailbroadening = o.stailbroadening
-            o.ltailbroadening = o.ltailbroadening
-            o.fractions = o.fractions
-        else:
-            o.stailslope_ratio = o.stailslope_ratio
-            o.ltailslope_ratio = o.ltailslope_ratio
-            o.ratios = o.ratios
+        o._convert_shape()
         o.fixedarearatios = not o.fixedarearatios
         return o
 
+    def _convert_shape(self):
+        """Convert the shape parameters at the conversion energy"""
+        if self.fixedarearatios:
+            self.stailbroadening = self.stailbroadening
+            self.ltailbroadening = self.ltailbroadening
+            self.fractions = self.fractions
+        else:
+            self.stailslope_ratio = self.stailslope_ratio
+            self.ltailslope_ratio = self.ltailslope_ratio
+            self.ratios = self.ratios
+
     def __getstate__(self):
         state = super(XRFDetector, self).__getstate__()
         state["mcazero"] = self.mcazero
@@ -793,6 +797,7 @@ class XRFDetector(with_metaclass(base.CentricCone)):
 
         # No one-to-one correspondance
         self.shape_conversionenergy = np.max(setup.energy)
+        self._convert_shape()
 
         rstail, rltail, rstep = self.ratios
         cfg["peakshape"]["st_arearatio"] = rstail
@@ -840,6 +845,10 @@ class XRFDetector(with_metaclass(base.CentricCone)):
         self.bltail = (b & 4) == 4
         self.bstep = (b & 8) == 8
 
+        # PyMca parameters, also when the detector has fixed area ratios
+        fixedarearatios = self.fixedarearatios
+        self.fixedarearatios = False
+
         rstail = cfg["peakshape"]["st_arearatio"]
         self.stailslope_ratio = cfg["peakshape"]["st_sloperatio"]
         rltail = cfg["peakshape"]["lt_arearatio"]
@@ -847,6 +856,7 @@ class XRFDetector(with_metaclass(base.CentricCone)):
         rstep = cfg["peakshape"]["step_heightratio"]
 
         self.ratios = (rstail, rltail, rstep)
+        self.fixedarearatios = fixedarearatios
 
         setup.emin = cfg["fit"]["xmin"] * self.mcagain + self.mcazero
         setup.emax = cfg["fit"]["xmax"] * self.mcagain + self.mcazero
-- 
2.43.0


From 12b8bafbe39b2fdd100ab06a7afb9ad8dccf178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:16 +0000
Subject: [PATCH 44/50] fix: XIA data could not be normalized with a number or
 without normalization counter

---
 src/spectrocrunch/io/xiaedf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 56b1a69..abaf02f 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2328,15 +2328,14 @@ class xiaimage(xiacompound):
             m = self._xiaconfig["norm"]["ctr"]
             try:
                 1 / m
-                # if instance.isnumber(m):
-                #    m = np.full(self.dshape[0:2],m)
             except TypeError:
                 logger.warning(
                     'No "{}" counter for {} (set normalization counter = 1)'.format(
                         m, self
                     )
                 )
-                m = 1  # np.ones(self.dshape[0:2])
+                m = 1
+            m = np.full(self.dshape[:2], m)
         else:
             m = self._getedfimage(f)
 
-- 
2.43.0


From 1613547533c4519f0e881d413a6d5b827b11a9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:27 +0000
Subject: [PATCH 45/50] fix: rates of lines attenuated as much on the way in as
 on the way out were NaN

---
 src/spectrocrunch/materials/multilayer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 5c24d6b..29571fa 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -717,14 +717,14 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
             chicor = cor1[1:-1, :, np.newaxis] - cor0[1:-1, np.newaxis, :]
 
             layerinfo = self.getcache("layerinfo")
-            J2 = np.exp(chi * layerinfo["cumul_thickness"][1:, np.newaxis, np.newaxis])
-            J2 -= np.exp(
-                chi * layerinfo["cumul_thickness"][:-1, np.newaxis, np.newaxis]
-            )
-            J2 /= chi
-            J2 *= np.exp(chicor)
             if not self.geometry.reflection:
-                J2 *= np.exp(-cor1[-1, np.newaxis, :, np.newaxis])
+                chicor = chicor - cor1[-1, np.newaxis, :, np.newaxis]
+            za = layerinfo["cumul_thickness"][:-1, np.newaxis, np.newaxis]
+            zb = layerinfo["cumul_thickness"][1:, np.newaxis, np.newaxis]
+            # int_za^zb exp(chi.z+chicor) dz (relative to the largest value of
+            # the integrand so that it exists for any chi, including chi = 0)
+            J2 = np.exp(chi * np.where(chi > 0, zb, za) + chicor)
+            J2 *= (zb - za) * scipy.special.exprel(-np.abs(chi * (zb - za)))
 
             # nlayers x nenergy1 x nenergy0 -> nlayers x nsource x nenergy1
             J2 = np.transpose(J2, [0, 2, 1])
-- 
2.43.0


From dd9d9e494a757dad6844aa7c53c5a4bb5d0e78a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:27 +0000
Subject: [PATCH 46/50] fix: an interrupted calculation left its cache behind
 for the next one

---
 src/spectrocrunch/utils/cache.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/utils/cache.py b/src/spectrocrunch/utils/cache.py
index 6b9a100..cbdaa5c 100644
--- a/src/spectrocrunch/utils/cache.py
+++ b/src/spectrocrunch/utils/cache.py
@@ -50,11 +50,12 @@ class Cache(object):
             self._store[subject] = self._generate_cache(subject, *args, **kwargs)
 
         # Use cache
-        yield
-
-        # Keep cache?
-        if cache:
-            self._store.pop(subject, None)
+        try:
+            yield
+        finally:
+            # Keep cache?
+            if cache:
+                self._store.pop(subject, None)
 
     def getcache(self, subject):
         """Get cache belonging to a subject"""
-- 
2.43.0


From 7bf0758020706804ad6f300a417c5060cb63f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:27 +0000
Subject: [PATCH 47/50] fix: spectra per element-shell group raised an
 exception

---
 src/spectrocrunch/materials/xrayspectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index 79c711a..14971aa 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -1230,7 +1230,7 @@ class Spectrum(Copyable, collections.abc.MutableMapping):
         for line in lineinfo.values():
             if line["label"]:
                 groups[line["group"]] = line["energy"]
-        groups = zip(*sorted(groups.items(), key=lambda x: x[1]))[0]
+        groups = sorted(groups, key=groups.get)
 
         # Add lines per group
         lineinfo2 = collections.OrderedDict(
-- 
2.43.0


From 2c422c8d1e7f61d13d5a2b1acdea0e743bb6fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:27 +0000
Subject: [PATCH 48/50] fix: spectrum_dict counted the lines instead of adding
 their rates

---
 src/spectrocrunch/materials/xrayspectrum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index 14971aa..fac1d29 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -905,7 +905,10 @@ class Spectrum(Copyable, collections.abc.MutableMapping):
         """
         Line energy and rates (ph/phsource) or probabilities (1/cm/srad)
         """
-        return dict(Counter(self.spectrum()))
+        ret = Counter()
+        for energy, v in self.spectrum():
+            ret[energy] += v
+        return dict(ret)
 
     def linegroups(self, **kwargs):
         ret = {}
-- 
2.43.0


From 486f83626674fdf73b57eaa352a8618a7a44e045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 49/50] fix: adding X-ray spectra changed the spectra that were
 added

---
 src/spectrocrunch/materials/xrayspectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index fac1d29..e6c50ab 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -805,7 +805,7 @@ class Spectrum(Copyable, collections.abc.MutableMapping):
             raise ValueError("Spectra need to be of the same type")
         for k, v in other.items():
             if k in self:
-                self._lines[k] += v
+                self._lines[k] = self[k] + v
             else:
                 self._lines[k] = v
         return self
-- 
2.43.0


From be3e8db25443e3e9917219d490f471775f468e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:42 +0000
Subject: [PATCH 50/50] fix: source energies of an X-ray spectrum raised an
 exception

---
 src/spectrocrunch/materials/xrayspectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index e6c50ab..1c63554 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -1061,7 +1061,7 @@ class Spectrum(Copyable, collections.abc.MutableMapping):
 
     @property
     def energysource(self):
-        return self["Rayleigh"].energy()
+        return next(line for line in self if isinstance(line, RayleighLine)).energy()
 
     @property
     def nsource(self):
-- 
2.43.0

