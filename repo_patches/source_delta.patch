From fe226789c0c4a6fb69a70d1696cfead8465e33c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:31 +0000
Subject: [PATCH 01/56] Verification hooks: small momentum range and word
 source for the RNG (FEYNMAN_VERIF)

---
 src/utility/momentum.h |  5 +++++
 src/utility/rng.h      | 44 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/src/utility/momentum.h b/src/utility/momentum.h
index 833cbd0..a024e15 100644
--- a/src/utility/momentum.h
+++ b/src/utility/momentum.h
@@ -12,7 +12,12 @@
 #include <stdio.h>
 #include <iostream>
 
+#if defined(FEYNMAN_VERIF) && defined(FEYNMAN_VERIF_MAX_K)
+//verification builds explore a small momentum range exhaustively
+const int MAX_K = FEYNMAN_VERIF_MAX_K;
+#else
 const int MAX_K = 10000;
+#endif
 
 class Momentum{
   public:
diff --git a/src/utility/rng.h b/src/utility/rng.h
index 68f4393..971107c 100644
--- a/src/utility/rng.h
+++ b/src/utility/rng.h
@@ -30,13 +30,51 @@ Jurgen A. Doornik. 2007. Conversion of high-period random numbers to floating po
 #define RANDBL_52_NO_ZERO(iRan1, iRan2) \
     ((int)(iRan1)*M_RAN_INVM32 + (0.5 + M_RAN_INVM52 / 2) + (int)((iRan2)&0x000FFFFF) * M_RAN_INVM52)
 
+#ifdef FEYNMAN_VERIF
+//verification builds supply every generator word through Verif::Source
+namespace Verif {
+struct WordSource {
+    virtual ~WordSource() {}
+    //Kind 0: urn(); Kind 1: irn(From, Thru); Kind 2: any other use of the generator
+    virtual std::mt19937::result_type Word(int Kind, int From, int Thru) = 0;
+};
+extern WordSource* Source;
+class Engine : public std::mt19937 {
+public:
+    int Kind, From, Thru;
+    Engine()
+        : Kind(2)
+    {
+    }
+    void Note(int kind, int from, int thru)
+    {
+        Kind = kind;
+        From = from;
+        Thru = thru;
+    }
+    result_type operator()()
+    {
+        if (Source == nullptr)
+            return std::mt19937::operator()();
+        int kind = Kind;
+        Kind = 2;
+        return Source->Word(kind, From, Thru);
+    }
+};
+}
+#endif
+
 class RandomFactory {
     friend std::ostream& operator<<(std::ostream& os, RandomFactory& r);
     friend std::istream& operator>>(std::istream& is, RandomFactory& r);
     friend std::string ToString(const RandomFactory& RNG);
 
 private:
+#ifdef FEYNMAN_VERIF
+    Verif::Engine _eng;
+#else
     std::mt19937 _eng;
+#endif
 
 public:
     RandomFactory();
@@ -47,12 +85,18 @@ public:
     void Reset(const std::string& state);
     inline real urn()
     {
+#ifdef FEYNMAN_VERIF
+        _eng.Note(0, 0, 0);
+#endif
         return RANDBL_32(_eng());
     }
 
     //Generator integer random numbers in the closed interval [from, thru]
     inline int irn(int from, int thru)
     {
+#ifdef FEYNMAN_VERIF
+        _eng.Note(1, from, thru);
+#endif
         return _eng() % (thru - from + 1) + from;
     }
     //    inline int nrn(real mean, real std)
-- 
2.43.0


From 191ed202d4fce4a615720a0255a5eae7eb2afa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 02/56] fix: do not leave an instantaneous interaction as the
 only one at order 1

Deleting the continuous interaction of an order-2 diagram whose other interaction is
instantaneous left an order-1 diagram with a delta interaction. JumpToOrder0 and
JumpBackToOrder1 then treated that interaction as a continuous one: the jump back drew two
different times for its ends and broke detailed balance.
---
 src/module/markov/markov.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/module/markov/markov.cpp b/src/module/markov/markov.cpp
index 53faf3c..d41458f 100644
--- a/src/module/markov/markov.cpp
+++ b/src/module/markov/markov.cpp
@@ -781,6 +781,9 @@ void Markov::DeleteInteraction()
     wLine wAB = vA->NeighW();
     if (wAB->IsMeasure || wAB->IsWorm || wAB->IsDelta || wAB->IsWWGammaW)
         return;
+    //the only interaction line left at order 1 must not be a delta function
+    if (Diag->Order == 2 && Diag->W(1 - wAB->Name)->IsDelta)
+        return;
 
     gLine GAC = vA->NeighG(dir), GBD = vB->NeighG(dir);
     vertex vC = GAC->NeighVer(dir), vD = GBD->NeighVer(dir);
@@ -990,6 +993,9 @@ void Markov::DeleteDeltaInteraction()
     wLine wAB = vA->NeighW();
     if (wAB->IsMeasure || wAB->IsWorm || !wAB->IsDelta || wAB->IsWWGammaW)
         return;
+    //the only interaction line left at order 1 must not be a delta function
+    if (Diag->Order == 2 && Diag->W(1 - wAB->Name)->IsDelta)
+        return;
 
     gLine GAC = vA->NeighG(dir), GBD = vB->NeighG(dir);
     vertex vC = GAC->NeighVer(dir), vD = GBD->NeighVer(dir);
-- 
2.43.0


From 9aeacd13a9a39dfe1df278cf1668446fbfca4156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:17 +0000
Subject: [PATCH 03/56] fix: keep times just inside [-Beta, Beta) within the
 weight table

---
 src/module/weight/index_map.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/weight/index_map.cpp b/src/module/weight/index_map.cpp
index 6c46239..f11025d 100644
--- a/src/module/weight/index_map.cpp
+++ b/src/module/weight/index_map.cpp
@@ -42,6 +42,11 @@ int IndexMap::TauIndex(real tau) const
 
     int bin = tau < 0 ? floor(tau * _dBetaInverse) + MaxTauBin
                       : floor(tau * _dBetaInverse);
+    //rounding must not carry a time inside [-Beta, Beta) over the outermost bin edges
+    if (tau < Beta && bin == (int)MaxTauBin)
+        bin = MaxTauBin - 1;
+    else if (tau >= -Beta && bin == -1)
+        bin = 0;
     if (DEBUGMODE && (bin < 0 || bin >= MaxTauBin)) {
         LOG_INFO("tau=" << tau << " is out of the range ["
                         << -Beta << "," << Beta << ")");
-- 
2.43.0


From ab2c2848439b4768802e6fc4e7db7230e016f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:57 +0000
Subject: [PATCH 04/56] fix: refuse filling a bundle beyond its capacity and
 names outside it

---
 src/module/diagram/component_bundle.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/module/diagram/component_bundle.cpp b/src/module/diagram/component_bundle.cpp
index d9136b4..cbb33c6 100644
--- a/src/module/diagram/component_bundle.cpp
+++ b/src/module/diagram/component_bundle.cpp
@@ -32,7 +32,7 @@ string Bundle<T>::BundleName()
 template <typename T>
 T *Bundle<T>::Add()
 {
-    if (_available_space > MAX_BUNDLE)
+    if (_available_space >= MAX_BUNDLE)
         ABORT("Too many objects >=" << MAX_BUNDLE);
     T *address = _component_name[_available_space];
 
@@ -58,6 +58,8 @@ void Bundle<T>::Remove(name name)
 {
     if (DEBUGMODE && _available_space == 0)
         ABORT("Nothing to delete!");
+    if (DEBUGMODE && (name < 0 || name >= _available_space))
+        ABORT("The component to remove do not belong to the bundle!");
     _available_space--;
     T *last = _component_name[_available_space];
     T *target = _component_name[name];
@@ -96,7 +98,7 @@ void Bundle<T>::Remove(T *target)
 template <typename T>
 T &Bundle<T>::operator[](name name)
 {
-    if (DEBUGMODE && name >= _available_space)
+    if (DEBUGMODE && (name < 0 || name >= _available_space))
         ABORT(name << " exceeds the storage!");
     return *_component_name[name];
 }
@@ -104,7 +106,7 @@ T &Bundle<T>::operator[](name name)
 template <typename T>
 T *Bundle<T>::operator()(name name)
 {
-    if (DEBUGMODE && name >= _available_space)
+    if (DEBUGMODE && (name < 0 || name >= _available_space))
         ABORT(name << " exceeds the storage!");
     return _component_name[name];
 }
-- 
2.43.0


From 5b38cf3b2b2a69c05647680d6823f458555ec7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:17 +0000
Subject: [PATCH 05/56] fix: save the current mean and error of an estimator,
 not the last evaluated ones

---
 src/estimator/estimator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estimator/estimator.cpp b/src/estimator/estimator.cpp
index 9784ae8..ea07c67 100644
--- a/src/estimator/estimator.cpp
+++ b/src/estimator/estimator.cpp
@@ -238,6 +238,7 @@ bool Estimator<T>::FromDict(const Dictionary& dict)
 template <typename T>
 Dictionary Estimator<T>::ToDict()
 {
+    _update();
     vector<uint> shape = { _end };
     Dictionary dict;
     dict["Norm"] = _norm;
-- 
2.43.0


From 173570f40976c65f64c6bfbba82e7a1230421472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:17 +0000
Subject: [PATCH 06/56] fix: forget the error bar of an estimator when its
 statistics are cleared

---
 src/estimator/estimator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estimator/estimator.cpp b/src/estimator/estimator.cpp
index ea07c67..8335955 100644
--- a/src/estimator/estimator.cpp
+++ b/src/estimator/estimator.cpp
@@ -91,6 +91,7 @@ void Estimator<T>::ClearStatistics()
     _counter = 0;
     _end = 0;
     _accumulator = 0.0;
+    _value = EstimateClass<T>();
     _ratio = 1.0;
     _norm = 1.0;
     //small enough non-zero number to avoid NAN
-- 
2.43.0


From 42dbdc129601102955e518dcfb7fa824582a1da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:17 +0000
Subject: [PATCH 07/56] fix: refuse an unknown estimator name instead of
 returning the first estimator

---
 src/estimator/estimator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estimator/estimator.cpp b/src/estimator/estimator.cpp
index 8335955..34fcc4b 100644
--- a/src/estimator/estimator.cpp
+++ b/src/estimator/estimator.cpp
@@ -328,7 +328,10 @@ Estimator<T>& EstimatorBundle<T>::operator[](int index)
 template <typename T>
 Estimator<T>& EstimatorBundle<T>::operator[](string name)
 {
-    return _EstimatorVector[_EstimatorMap[name]];
+    auto entry = _EstimatorMap.find(name);
+    if (entry == _EstimatorMap.end())
+        ABORT(name << " is not the name of an estimator!");
+    return _EstimatorVector[entry->second];
 }
 
 /**
-- 
2.43.0


From 3fad20280e1ee9533dfab8a8d3c4b84f3ad1258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:25 +0000
Subject: [PATCH 08/56] fix: add and subtract a real number to the real part of
 a complex one only

---
 src/utility/complex.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/complex.cpp b/src/utility/complex.cpp
index 154eb7b..9799407 100644
--- a/src/utility/complex.cpp
+++ b/src/utility/complex.cpp
@@ -134,12 +134,12 @@ Complex operator+(const Complex& lhs, const Complex& rhs)
 
 Complex operator+(real lhs, const Complex& rhs)
 {
-    return Complex(rhs.Re + lhs, rhs.Im + lhs);
+    return Complex(lhs + rhs.Re, rhs.Im);
 }
 
 Complex operator+(const Complex& lhs, real rhs)
 {
-    return Complex(lhs.Re + rhs, lhs.Im + rhs);
+    return Complex(lhs.Re + rhs, lhs.Im);
 }
 
 Complex operator+(const Complex& lhs)
@@ -154,12 +154,12 @@ Complex operator-(const Complex& lhs, const Complex& rhs)
 
 Complex operator-(real lhs, const Complex& rhs)
 {
-    return Complex(rhs.Re - lhs, rhs.Im - lhs);
+    return Complex(lhs - rhs.Re, -rhs.Im);
 }
 
 Complex operator-(const Complex& lhs, real rhs)
 {
-    return Complex(lhs.Re + rhs, lhs.Im + rhs);
+    return Complex(lhs.Re - rhs, lhs.Im);
 }
 
 Complex operator-(const Complex& c)
-- 
2.43.0


From e30899769c0e7d0bd23e98134c3d21592bcf17ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:25 +0000
Subject: [PATCH 09/56] fix: multiply and divide a complex number by its own
 part correctly

---
 src/utility/complex.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utility/complex.cpp b/src/utility/complex.cpp
index 9799407..dddb92f 100644
--- a/src/utility/complex.cpp
+++ b/src/utility/complex.cpp
@@ -79,8 +79,9 @@ Complex& Complex::operator*=(const Complex& c)
 
 Complex& Complex::operator*=(const real& d)
 {
-    Re *= d; // same as above with c.Im = 0 and c.Re = d
-    Im *= d; // logically and happily simplified
+    real factor = d; // backup d, in case c *= c.Re;
+    Re *= factor; // same as above with c.Im = 0 and c.Re = d
+    Im *= factor; // logically and happily simplified
     return (*this);
 }
 
@@ -101,8 +102,9 @@ Complex& Complex::operator/=(const Complex& c)
 
 Complex& Complex::operator/=(const real& d)
 {
-    Re /= d;
-    Im /= d;
+    real divisor = d; // backup d, in case c /= c.Re;
+    Re /= divisor;
+    Im /= divisor;
     return (*this);
 }
 
-- 
2.43.0


From a0ee4c3a741074c23015316226a958f2ce0d125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:25 +0000
Subject: [PATCH 10/56] fix: phase angle of a negative real number is pi, not
 zero

---
 src/utility/complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/complex.h b/src/utility/complex.h
index d021ba8..252ad61 100644
--- a/src/utility/complex.h
+++ b/src/utility/complex.h
@@ -98,7 +98,7 @@ inline real mod(const Complex& c)
 
 inline real arg(const Complex& c)
 {
-    return c.Im != 0.0 ? atan2(c.Im, c.Re) : 0.0;
+    return atan2(c.Im, c.Re);
 }
 
 inline Complex phase(const Complex& c)
-- 
2.43.0


From d82fb9a4f6b47cfc7ad0efb9e87ac9a8f8804676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:25 +0000
Subject: [PATCH 11/56] fix: real power of a complex number other than zero is
 not zero

---
 src/utility/complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/complex.h b/src/utility/complex.h
index 252ad61..13e27c1 100644
--- a/src/utility/complex.h
+++ b/src/utility/complex.h
@@ -151,7 +151,7 @@ inline Complex pow(const Complex& z, const Complex& w)
 
 inline Complex pow(const Complex& z, real u)
 {
-    if (IsZero(0.0))
+    if (IsZero(z))
         return u == 0.0 ? 1.0 : 0.0;
     real logr = 0.5 * log(mod2(z));
     real theta = u * arg(z);
-- 
2.43.0


From 9b9cf9c01e95766d4167913b320974d20a7016db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:24 +0000
Subject: [PATCH 12/56] fix: save a large dictionary under a path with
 directories

---
 IO.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/IO.py b/IO.py
index 0c3f708..2a996b7 100755
--- a/IO.py
+++ b/IO.py
@@ -8,6 +8,11 @@ from numpy import *
 
 set_printoptions(threshold=nan) #make sure numpy will print all elements, so that SaveDict and LoadDict will work even for very large array
 
+def TempName(filename):
+    """temporary file beside filename, to be renamed to filename once it is complete"""
+    path, name=os.path.split(filename)
+    return os.path.join(path, "_"+name)
+
 def SaveDict(filename, mode, root):
     if filename[-4:]!=".txt":
         filename+=".txt"
@@ -26,8 +31,8 @@ def SaveBigDict(filename, root):
     if "GammaWStatis" in root.keys():
         gammaw=root["GammaWStatis"]
         gammaw["WeightAccu"]=array(gammaw["WeightAccu"], dtype=complex64)
-    hkl.dump(root, "_"+filename, mode='w', compression='gzip')
-    os.rename("_"+filename, filename)
+    hkl.dump(root, TempName(filename), mode='w', compression='gzip')
+    os.rename(TempName(filename), filename)
 
 def LoadBigDict(filename):
     if filename[-4:]!=".hkl":
-- 
2.43.0


From 19abfc0b5ae1e6599268dad09cb3ddf3c7a24501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:24 +0000
Subject: [PATCH 13/56] fix: never leave a half-written text file behind when
 saving

---
 IO.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/IO.py b/IO.py
index 2a996b7..f37fae3 100755
--- a/IO.py
+++ b/IO.py
@@ -16,8 +16,14 @@ def TempName(filename):
 def SaveDict(filename, mode, root):
     if filename[-4:]!=".txt":
         filename+=".txt"
-    with open(filename, mode) as f:
-        f.write(pprint.pformat(root))
+    if mode=="w":
+        #the old file stays complete until the new one is
+        with open(TempName(filename), mode) as f:
+            f.write(pprint.pformat(root))
+        os.rename(TempName(filename), filename)
+    else:
+        with open(filename, mode) as f:
+            f.write(pprint.pformat(root))
 
 def LoadDict(filename):
     if filename[-4:]!=".txt":
-- 
2.43.0


From fc2c2c48cc5dd7c1955cf187747872b632eb5c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:24 +0000
Subject: [PATCH 14/56] fix: load the GammaW statistics in the precision they
 are used in

---
 IO.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IO.py b/IO.py
index f37fae3..2b51c2a 100755
--- a/IO.py
+++ b/IO.py
@@ -48,4 +48,7 @@ def LoadBigDict(filename):
         gammaw=data["WWGammaW"]
         if "SmoothT" in gammaw.keys():
             gammaw["SmoothT"]=array(gammaw["SmoothT"], dtype=complex)
+    if "GammaWStatis" in data.keys():
+        gammaw=data["GammaWStatis"]
+        gammaw["WeightAccu"]=array(gammaw["WeightAccu"], dtype=complex)
     return data
-- 
2.43.0


From 8a0d67cee179acc92597580c0978c05b7e5ebe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:50 +0000
Subject: [PATCH 15/56] fix: leave the protected section on Resume even when no
 signal arrived

---
 src/utility/abort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/abort.cpp b/src/utility/abort.cpp
index ebe2f1e..4dc66ef 100644
--- a/src/utility/abort.cpp
+++ b/src/utility/abort.cpp
@@ -50,6 +50,6 @@ void InterruptHandler::Resume()
     if (__IsDelaying && (__Signal == SIGINT || __Signal == SIGTERM)) {
         __SignalHandler(__Signal);
         __Signal = -1;
-        __IsDelaying = false;
     }
+    __IsDelaying = false;
 }
-- 
2.43.0


From ce1a76c7795a60aeadcc8d92165ff5f3ae63e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:50 +0000
Subject: [PATCH 16/56] fix: initialise and release the vertex function tables,
 return from loading the basis

---
 src/module/weight/weight.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index 1445851..b2d5460 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -22,6 +22,8 @@ weight::Weight::Weight(bool IsAllSymmetric)
     Polar = nullptr;
     G = nullptr;
     W = nullptr;
+    GammaG = nullptr;
+    GammaW = nullptr;
 }
 
 weight::Weight::~Weight()
@@ -30,6 +32,8 @@ weight::Weight::~Weight()
     delete Polar;
     delete G;
     delete W;
+    delete GammaG;
+    delete GammaW;
 }
 /**
 *  Build G, W, Sigma, Polar from file, you may use flag weight::GW and weight::SigmaPolar to control which group to load. Notice those in unflaged group will remain the same.
@@ -198,5 +202,6 @@ bool weight::Weight::_LoadBasis(real Beta)
     _Number=_Basis.Get<real>("Number");
     _basis=_Basis.Get<vector<basis>>("Basis");
     _BoseBasis.swap(_basis);
+    return true;
 }
 
-- 
2.43.0


From 49a845c46e9601185b66c39bc9b4228823b790f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:19 +0000
Subject: [PATCH 17/56] fix: keep the measured weight when an accumulator is
 annealed to another beta

---
 src/module/weight/weight_estimator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/module/weight/weight_estimator.cpp b/src/module/weight/weight_estimator.cpp
index fddd18f..faffb7d 100644
--- a/src/module/weight/weight_estimator.cpp
+++ b/src/module/weight/weight_estimator.cpp
@@ -39,7 +39,10 @@ void WeightEstimator::Anneal(real Beta)
     //real NormFactor = 1.0 / _NormAccu * _Norm;
     //has the same value before Beta is changed
     //so that GetWeightArray will give a same weight function
-    _NormAccu *= pow((Beta / _Beta), 2.0);
+    real ratio = pow(_Beta / Beta, 2.0);
+    _Norm *= ratio;
+    _NormAccu *= ratio;
+    _Beta = Beta;
 }
 
 void WeightEstimator::MeasureNorm(real weight)
-- 
2.43.0


From ccd1f6d82c04d34b326109d5b440cc4fc178c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:19 +0000
Subject: [PATCH 18/56] fix: refuse saved statistics larger than the table they
 are restored into

---
 src/module/weight/gamma3.cpp           | 2 ++
 src/module/weight/weight_estimator.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index a953a96..a2ef04e 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -147,6 +147,7 @@ bool GammaGClass::StatisFromDict(const Dictionary &dict)
     auto arr = dict.Get<Python::ArrayObject>("WeightAccu");
     //assert estimator shape except order dimension
     ASSERT_ALLWAYS(Equal(arr.Shape().data() + 1, _WeightAccu.GetShape() + 1, _WeightAccu.GetDim() - 1), "Shape should match!");
+    ASSERT_ALLWAYS(arr.Size() <= _WeightAccu.GetSize(), "The saved statistics do not fit into the table!");
     _WeightAccu.Assign(0.0);
     _WeightAccu.Assign(arr.Data<Complex>(), arr.Size());
     return true;
@@ -523,6 +524,7 @@ bool GammaWClass::StatisFromDict(const Dictionary &dict)
     auto arr = dict.Get<Python::ArrayObject>("WeightAccu");
     //assert estimator shape except order dimension
     ASSERT_ALLWAYS(Equal(arr.Shape().data() + 1, _WeightAccu.GetShape() + 1, _WeightAccu.GetDim() - 1), "Shape should match!");
+    ASSERT_ALLWAYS(arr.Size() <= _WeightAccu.GetSize(), "The saved statistics do not fit into the table!");
     _WeightAccu.Assign(0.0);
     _WeightAccu.Assign(arr.Data<Complex>(), arr.Size());
     return true;
diff --git a/src/module/weight/weight_estimator.cpp b/src/module/weight/weight_estimator.cpp
index faffb7d..dd6588b 100644
--- a/src/module/weight/weight_estimator.cpp
+++ b/src/module/weight/weight_estimator.cpp
@@ -81,6 +81,7 @@ bool WeightEstimator::FromDict(const Dictionary& dict)
     auto arr = dict.Get<Python::ArrayObject>("WeightAccu");
     //assert estimator shape except order dimension
     ASSERT_ALLWAYS(Equal(arr.Shape().data() + 1, _WeightAccu.GetShape() + 1, _WeightAccu.GetDim() - 1), "Shape should match!");
+    ASSERT_ALLWAYS(arr.Size() <= _WeightAccu.GetSize(), "The saved statistics do not fit into the table!");
     _WeightAccu.Assign(0.0);
     _WeightAccu.Assign(arr.Data<Complex>(), arr.Size());
     return true;
-- 
2.43.0


From ef3f290d04d9363a56fa6a2789b59bbec1012fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:19 +0000
Subject: [PATCH 19/56] fix: start the GammaW statistics from zero

---
 src/module/weight/gamma3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index a2ef04e..7778f2a 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -509,6 +509,7 @@ bool GammaWClass::WeightFromDict(const Dictionary& dict) {
     if(!_WeightAccu.IsAllocate()) {
         _WeightAccu.Allocate(WeightShape, SMOOTH);
         _WeightSize = _WeightAccu.GetSize();
+        ClearStatistics();
     }
 
     if(dict.HasKey("SmoothT")) {
-- 
2.43.0


From dc4aaefe4ccabaca38ed6e391b868519567f888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:35 +0000
Subject: [PATCH 20/56] fix: listening while a vertex function is present
 returns no adoption

---
 src/environment/envMonteCarlo.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/environment/envMonteCarlo.cpp b/src/environment/envMonteCarlo.cpp
index 9f29913..1b164f4 100644
--- a/src/environment/envMonteCarlo.cpp
+++ b/src/environment/envMonteCarlo.cpp
@@ -202,4 +202,5 @@ bool EnvMonteCarlo::ListenToMessage()
 
         return true;
     }
+    return false;
 }
-- 
2.43.0


From 907e8fe0d17a5d32bd84f4cbca90e56deb98ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:35 +0000
Subject: [PATCH 21/56] fix: anneal the vertex function tables together with
 the other weights

---
 src/module/weight/gamma3.cpp | 21 +++++++++++++++++++++
 src/module/weight/gamma3.h   |  2 ++
 src/module/weight/weight.cpp |  4 ++++
 3 files changed, 27 insertions(+)

diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index 7778f2a..3a615b5 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -119,6 +119,17 @@ void GammaGClass::Measure(const Site &Gr_in, const Site &Gr_out, const Site &Ur,
     _WeightAccu[Index] += weight * sign;
 }
 
+void GammaGClass::Reset(real Beta)
+{
+    //keep the measured weight, see WeightEstimator::Anneal
+    real ratio = pow(_Beta / Beta, 3.0);
+    _Norm *= ratio;
+    _NormAccu *= ratio;
+    _Map = IndexMapSPIN2(Beta, _Map.MaxTauBin, _Map.Lat, _Map.Symmetry);
+    _Beta = Beta;
+    _dBetaInverse = _MaxTauBin / _Beta;
+}
+
 void GammaGClass::ClearStatistics()
 {
     _NormAccu = 0.0;
@@ -467,6 +478,16 @@ void GammaWClass::MeasureNorm(real weight)
     _NormAccu += weight;
 }
 
+void GammaWClass::Reset(real Beta)
+{
+    real ratio = pow(_Beta / Beta, 3.0);
+    _Norm *= ratio;
+    _NormAccu *= ratio;
+    _Map = IndexMapSPIN4(Beta, _Map.MaxTauBin, _Map.Lat, _Map.Symmetry);
+    _Beta = Beta;
+    _dBetaInverse = _MaxTauBinTiny / _Beta;
+}
+
 void GammaWClass::ClearStatistics()
 {
     _NormAccu = 0.0;
diff --git a/src/module/weight/gamma3.h b/src/module/weight/gamma3.h
index 2d17c42..202fe7f 100755
--- a/src/module/weight/gamma3.h
+++ b/src/module/weight/gamma3.h
@@ -27,6 +27,7 @@ namespace weight {
 
 //        void BuildNew(GClass *);
 //    void BuildTest();
+        void Reset(real Beta);
 
         bool StatisFromDict(const Dictionary &);
         bool WeightFromDict(const Dictionary &);
@@ -66,6 +67,7 @@ namespace weight {
 
 //        void BuildNew();
 //    void BuildTest();
+        void Reset(real Beta);
 
         bool StatisFromDict(const Dictionary &);
         bool WeightFromDict(const Dictionary &);
diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index b2d5460..f13d8a4 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -68,6 +68,10 @@ void weight::Weight::Anneal(const ParaMC &para)
     W->Reset(para.Beta);
     Sigma->Reset(para.Beta);
     Polar->Reset(para.Beta);
+    if (GammaG != nullptr)
+        GammaG->Reset(para.Beta);
+    if (GammaW != nullptr)
+        GammaW->Reset(para.Beta);
 }
 
 bool weight::Weight::FromDict(const Dictionary &dict, flag _flag, const para::ParaMC &para)
-- 
2.43.0


From 44091d656821e50df5de2b5688fcdf2c27d1a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:46 +0000
Subject: [PATCH 22/56] fix: do not take the ends of a deleted worm for a worm
 when the diagram is reset

---
 src/module/diagram/diagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/diagram/diagram.cpp b/src/module/diagram/diagram.cpp
index ad15532..8568941 100644
--- a/src/module/diagram/diagram.cpp
+++ b/src/module/diagram/diagram.cpp
@@ -146,7 +146,7 @@ bool Diagram::FixDiagram()
         vertex vin = w->NeighVer(IN);
         vertex vout = w->NeighVer(OUT);
 
-        w->IsWorm = (vin==Worm.Ira || vin==Worm.Masha || vout==Worm.Ira ||vout==Worm.Masha);
+        w->IsWorm = IsWorm(vin) || IsWorm(vout);
 
         vin->nW = w;
         vin->Dir = IN;
-- 
2.43.0


From 2aa9daca83165350912ce3c85414d8a1e4cc15f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:46 +0000
Subject: [PATCH 23/56] fix: a diagram of order 0 stays at order 0 when it is
 reset or restored

---
 src/module/diagram/diagram.cpp    | 6 +++++-
 src/module/diagram/diagram_IO.cpp | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/module/diagram/diagram.cpp b/src/module/diagram/diagram.cpp
index 8568941..51b9dab 100644
--- a/src/module/diagram/diagram.cpp
+++ b/src/module/diagram/diagram.cpp
@@ -120,7 +120,9 @@ bool Diagram::FixDiagram()
     ASSERT_ALLWAYS(Lat != nullptr, "Lattice is not defined yet!");
     ASSERT_ALLWAYS(GWeight != nullptr && WWeight != nullptr, "G and W have been initialized yet!");
 
-    Order = W.HowMany();
+    //at order 0 the diagram keeps the lines of the order 1 diagram it came from
+    if (Order != 0 || W.HowMany() != 1)
+        Order = W.HowMany();
     Worm.Weight = 1.0;
     
     if(Worm.Exist){
@@ -164,6 +166,8 @@ bool Diagram::FixDiagram()
     }
 
     Weight *= SignFermiLoop * (Order % 2 == 0 ? 1 : -1);
+    if (Order == 0)
+        Weight = weight::Norm::Weight();
     Phase = phase(Weight);
     return true;
 }
diff --git a/src/module/diagram/diagram_IO.cpp b/src/module/diagram/diagram_IO.cpp
index aaf891f..f0bdbdb 100644
--- a/src/module/diagram/diagram_IO.cpp
+++ b/src/module/diagram/diagram_IO.cpp
@@ -136,6 +136,7 @@ Dictionary Diagram::ToDict()
         Config["Worm"] = _ToDict(Worm);
     }
     Config["SignFermiLoop"] = SignFermiLoop;
+    Config["Order"] = Order;
     return Config;
 }
 
@@ -159,6 +160,7 @@ bool Diagram::FromDict(const Dictionary& Config)
         _FromDict(Config.Get<Dictionary>("Worm"), Worm);
     }
     SignFermiLoop = Config.Get<real>("SignFermiLoop");
+    Order = Config.HasKey("Order") ? Config.Get<int>("Order") : W.HowMany();
     FixDiagram();
     return true;
 }
-- 
2.43.0


From b8fbf346294e96d991751e6343a4ed91f05e6af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:37 +0000
Subject: [PATCH 24/56] fix: a message or weight file that can not be
 understood does not end the worker

---
 src/environment/envMonteCarlo.cpp |  2 +-
 src/module/parameter/message.cpp  | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/environment/envMonteCarlo.cpp b/src/environment/envMonteCarlo.cpp
index 1b164f4..f29b2ab 100644
--- a/src/environment/envMonteCarlo.cpp
+++ b/src/environment/envMonteCarlo.cpp
@@ -168,7 +168,7 @@ bool EnvMonteCarlo::ListenToMessage()
         try {
             weight_.BigLoad(Job.WeightFile);
         }
-        catch (IOInvalid e) {
+        catch (const std::runtime_error&) {
             LOG_WARNING("Annealing Failed!");
             return false;
         }
diff --git a/src/module/parameter/message.cpp b/src/module/parameter/message.cpp
index d35dcc1..01453a5 100644
--- a/src/module/parameter/message.cpp
+++ b/src/module/parameter/message.cpp
@@ -11,17 +11,17 @@
 
 bool para::Message::Load(const string& FileName)
 {
-    //do not abort if message file does not exist
+    //do not abort if message file does not exist or can not be understood
     Dictionary _Para;
     try {
         _Para.Load(FileName);
+        GET(_Para, Beta);
+        GET(_Para, Version);
+        GET(_Para, SqueezeFactor);
     }
-    catch (IOInvalid e) {
+    catch (const std::runtime_error&) {
         return false;
     }
-    GET(_Para, Beta);
-    GET(_Para, Version);
-    GET(_Para, SqueezeFactor);
     return true;
 }
 
-- 
2.43.0


From ff39818c2c0d6e66af48765735fb239ce7716ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:37 +0000
Subject: [PATCH 25/56] fix: reweighting never makes a factor zero or infinite,
 reporting does not reweight

---
 src/module/markov/markov_monitor.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/module/markov/markov_monitor.cpp b/src/module/markov/markov_monitor.cpp
index b78d2ba..55b8df2 100644
--- a/src/module/markov/markov_monitor.cpp
+++ b/src/module/markov/markov_monitor.cpp
@@ -126,7 +126,6 @@ void MarkovMonitor::PrintOrderReWeight()
         output << "Order0 :" << weight[0] << " Order" << i << " :" << weight[i] << endl;
     }
 
-    Para->WormSpaceReweight = phyweight / wormweight;
     output << "Worm confs:" << wormweight << " Physics confs: " << phyweight <<  endl;
     LOG_INFO(output.str());
 
@@ -171,12 +170,18 @@ bool MarkovMonitor::AdjustOrderReWeight()
     real wormweight = 0.0, phyweight = 0.0;
     weight[0] = WormEstimator[0].Value() + PhyEstimator[0].Value();
 
-    LOG_INFO("Number of confs in different Order => Reweight Ratio:");
-    stringstream output;
     for (int i = 1; i <= Para->Order; i++) {
         weight[i] = WormEstimator[i].Value() + PhyEstimator[i].Value();
         wormweight += WormEstimator[i].Value();
         phyweight += PhyEstimator[i].Value();
+    }
+    //a ratio with an empty sector would make a factor zero or infinite
+    if (Zero(weight[0]) || Zero(wormweight) || Zero(phyweight))
+        return false;
+
+    LOG_INFO("Number of confs in different Order => Reweight Ratio:");
+    stringstream output;
+    for (int i = 1; i <= Para->Order; i++) {
         if (Zero(weight[i]))
             continue;
         Para->OrderReWeight[i] *= Para->OrderTimeRatio[i] * weight[0] / weight[i];
@@ -184,9 +189,6 @@ bool MarkovMonitor::AdjustOrderReWeight()
     }
     Para->OrderReWeight[0] = 1.0;
 
-    if (Zero(wormweight))
-        return false;
-
     Para->WormSpaceReweight *= phyweight / wormweight;
     output << "Worm confs:" << wormweight << " Physics confs: " << phyweight << " => " << Para->WormSpaceReweight << endl;
     LOG_INFO(output.str());
-- 
2.43.0


From 2c6c183c7b35e9f1eea336b51748436938fa9485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:33 +0000
Subject: [PATCH 26/56] fix: transform the accumulated data of a weight with
 the same phase as its data

---
 dyson/weight.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dyson/weight.py b/dyson/weight.py
index 474fbcb..b5a08e1 100644
--- a/dyson/weight.py
+++ b/dyson/weight.py
@@ -313,6 +313,8 @@ class Weight():
         #if BackForth==-1:
             #PhaseFactor=1/PhaseFactor
         self.Data*=PhaseFactor
+        if hasattr(self, "AccuData"):
+            self.AccuData*=PhaseFactor
 
     def __SpatialShape(self, shape):
         InsertPos=self.VOLDIM
-- 
2.43.0


From b6b8d9362dcf36de6d027d1b765443c83c0a2042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:50 +0000
Subject: [PATCH 27/56] fix: rolling back a weight restores exactly the version
 before the last merge, once

---
 dyson/main.py   |  3 +++
 dyson/weight.py | 22 +++++++++-------------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/dyson/main.py b/dyson/main.py
index dc2f41b..752509a 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -319,6 +319,9 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
             #everything works prefectly 
 	    log.info("everything is going well!")
             Gold, Wold = G, W
+            SigmaDeltaT.Accept()
+            Sigma.Accept()
+            Polar.Accept()
             if para["Gamma3"]:
                 Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor, GGGammaG, WWGammaW)
             else:
diff --git a/dyson/weight.py b/dyson/weight.py
index b5a08e1..99b8b6d 100644
--- a/dyson/weight.py
+++ b/dyson/weight.py
@@ -180,28 +180,24 @@ class Weight():
             self.AccuData=np.zeros(self.Shape,dtype=complex)
         if not hasattr(self, "Norm"):
             self.Norm=0.0
+        #everything RollBack needs to restore the version before this merge
+        self.BackUp=(self.Data.copy(), self.AccuData.copy(), self.Norm, self.SpaceDomain, self.TimeDomain)
         if ratio is not None:
             self.AccuData+=ratio*newWeight.Data
             self.Norm+=ratio
-        self.BackUpRatio=ratio
-        self.BackUpWeight=newWeight
         if self.Norm>1.0e-3:
             self.Data = self.AccuData/self.Norm
         else:
             self.Data=newWeight.Data
     def RollBack(self):
-        if not hasattr(self, "BackUpRatio"):
+        """restore the version before the last merge; nothing happens if it is already rolled back or accepted"""
+        if getattr(self, "BackUp", None) is None:
             return
-        if self.BackUpRatio is None:
-            #None means no update in the last calling of Merge
-            return 
-        self.BackUpWeight.FFT(self.SpaceDomain, self.TimeDomain)
-        self.Norm-=self.BackUpRatio
-        self.AccuData-=self.BackUpRatio*self.BackUpWeight.Data
-        if self.Norm>1.0e-3:
-            self.Data = self.AccuData/self.Norm
-        else:
-            self.Data=self.BackUpWeight.Data
+        self.Data, self.AccuData, self.Norm, self.SpaceDomain, self.TimeDomain=self.BackUp
+        self.BackUp=None
+    def Accept(self):
+        """the last merge belongs to a successful version, it will not be rolled back any more"""
+        self.BackUp=None
     
     def FFT(self, *SpaceOrTime):
         if "R" in SpaceOrTime and self.SpaceDomain is "K":
-- 
2.43.0


From de34e781b055dc8c3865da13e9d696bd81fe62ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:13 +0000
Subject: [PATCH 28/56] fix: a statistics file that does not fit is not merged
 in part

---
 dyson/collect.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/dyson/collect.py b/dyson/collect.py
index 337cf84..97854b6 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -28,13 +28,23 @@ class WeightEstimator():
         self.__Map=Weight.Map
         self.__Weight=Weight
 
+    def CheckDict(self, WeightDict):
+        """raise if the data of another WeightEstimator can not be added"""
+        datamat=WeightDict[self.__Weight.Name]
+        Shape=np.shape(datamat['WeightAccu'])
+        self.__AssertShape(self.__Weight.Shape, Shape[1:])
+        datamat['NormAccu']+datamat['Norm']
+        if hasattr(self, "Norm"):
+            self.__AssertShape(self.WeightAccu.shape, Shape)
+            Assert(self.Norm==datamat['Norm'], "Norm have to be the same to merge statistics")
+
     def MergeFromDict(self, WeightDict):
-        """add data from another WeightEstimator, work even if order WeightDict is smaller than MaxOrder"""
+        """add data from another WeightEstimator, or nothing if they do not fit"""
+        self.CheckDict(WeightDict)
         datamat=WeightDict[self.__Weight.Name]
         if hasattr(self, "Norm"):
             self.WeightAccu+=datamat['WeightAccu']
             self.NormAccu+=datamat['NormAccu']
-            Assert(self.Norm==datamat['Norm'], "Norm have to be the same to merge statistics")
         else:
             self.Norm=datamat['Norm']
             self.NormAccu=datamat['NormAccu']
@@ -149,6 +159,14 @@ def GetFileList():
     StatisFileList=[os.path.join(workspace, f) for f in FileList if f.find(StatisFilePattern) is not -1]
     return StatisFileList
 
+def CheckGammaDict(data, Accu, Norm):
+    """raise if the statistics of a vertex function can not be added to Accu"""
+    Shape=np.shape(data['WeightAccu'])
+    data['NormAccu']+data['Norm']
+    if Norm is not None:
+        Assert(Shape==np.shape(Accu), "Shape {0} is expected instead of shape {1}!".format(np.shape(Accu), Shape))
+        Assert(Norm==data['Norm'], "Norm have to be the same to merge statistics")
+
 def CollectStatis(_map, runGamma3=False):
     Sigma=weight.Weight("SmoothT", _map, "TwoSpins", "AntiSymmetric")
     SigmaSmoothT=WeightEstimator(Sigma)
@@ -177,6 +195,13 @@ def CollectStatis(_map, runGamma3=False):
         try:
             log.info("Merging {0} ...".format(f));
             Dict=IO.LoadBigDict(f)
+            #nothing is merged unless everything in the file is there and fits
+            SigmaSmoothT.CheckDict(Dict['Sigma']['Histogram'])
+            PolarSmoothT.CheckDict(Dict['Polar']['Histogram'])
+            if runGamma3:
+                CheckGammaDict(Dict["GammaGStatis"], GammaGAccu, GammaGNorm)
+                CheckGammaDict(Dict["GammaWStatis"], GammaWAccu, GammaWNorm)
+
             SigmaSmoothT.MergeFromDict(Dict['Sigma']['Histogram'])
             PolarSmoothT.MergeFromDict(Dict['Polar']['Histogram'])
 
@@ -185,7 +210,6 @@ def CollectStatis(_map, runGamma3=False):
                 if GammaGNorm is not None:
                     GammaGAccu+=dataG['WeightAccu']
                     GammaGNormAccu+=dataG['NormAccu']
-                    Assert(GammaGNorm==dataG['Norm'], "Norm have to be the same to merge statistics")
                 else:
                     GammaGAccu=dataG['WeightAccu']
                     GammaGNormAccu=dataG['NormAccu']
@@ -195,7 +219,6 @@ def CollectStatis(_map, runGamma3=False):
                 if GammaWNorm is not None:
                     GammaWAccu+=dataW['WeightAccu']
                     GammaWNormAccu+=dataW['NormAccu']
-                    Assert(GammaWNorm==dataW['Norm'], "Norm have to be the same to merge statistics")
                     # GammaWFluc.append(dataW['WeightAccu'][0,0,0,0,:]/dataW['NormAccu']*dataW['Norm'])
                 else:
                     GammaWAccu=dataW['WeightAccu']
-- 
2.43.0


From 3dc67c70275a7a99f553e7070c82904f23d8e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:13 +0000
Subject: [PATCH 29/56] fix: statistics without data are a failure of the
 collection, not an unknown error

---
 dyson/collect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dyson/collect.py b/dyson/collect.py
index 97854b6..d90bfdf 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -63,6 +63,7 @@ class WeightEstimator():
         #Average0 = np.average(abs(np.sum(self.OrderWeight[:,0,0,0,0,0,:], axis=0)))
         Info=[]
         DimList=[]
+        RelativeError=None
         for order in xrange(1,Shape[0]+1):
             # Order Index is equal to real Order-1
             #RelativeError=0.0
@@ -86,6 +87,8 @@ class WeightEstimator():
                         Position=(order,sp1,sub1,sp2,sub2,vol)
                         #if relative>0.05:
                             #weight[index]=smooth  #use smoothed function instead if the noise is larger than 5%
+            if RelativeError is None:
+                raise CollectStatisFailure("{0} has no data at order {1}!".format(Name, order))
             log.info("RelativeError at Order {0} is {1}".format(order, RelativeError))
             IsAccpted=RelativeError<ErrorThreshold or order<=OrderAccepted
             State="Accepted with relative error {0:.2g}".format(RelativeError, ErrorThreshold)
-- 
2.43.0


From f04f078e288ba970232c9778fdb761b324aa4e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:13 +0000
Subject: [PATCH 30/56] fix: collecting statistics only saves the sum of the
 files

---
 dyson/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dyson/main.py b/dyson/main.py
index 752509a..92d60b5 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -386,13 +386,14 @@ if __name__=="__main__":
 
     if args.collect:
         log.info("Collect statistics only...")
-        SigmaMC, PolarMC=collect.CollectStatis(Map)
-        collect.UpdateWeight((SigmaMC, PolarMC), para["Dyson"]["ErrorThreshold"], para["Dyson"]["OrderAccepted"])
+        SigmaMC, PolarMC, _, _=collect.CollectStatis(Map)
         data ={}
         data["Sigma"] = {"Histogram": SigmaMC.ToDict()}
         data["Polar"] = {"Histogram": PolarMC.ToDict()}
         with DelayedInterrupt():
             IO.SaveBigDict(StatisFile, data)
+        #the accumulated data are destroyed here
+        collect.UpdateWeight((SigmaMC, PolarMC), para["Dyson"]["ErrorThreshold"], para["Dyson"]["OrderAccepted"])
         sys.exit(0)
     else:
         Dyson(job["DysonOnly"],  IsNewCalculation, job["SumRule"], para, Map, Lat)
-- 
2.43.0


From 74c4e5195c1a2f9d56985bad1080ab24fd7c4fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:02 +0000
Subject: [PATCH 31/56] fix: restarting counts every job once and ignores files
 that belong to no job

---
 job_class.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/job_class.py b/job_class.py
index 9a7520c..41d2f4c 100644
--- a/job_class.py
+++ b/job_class.py
@@ -4,7 +4,8 @@ import sys, os, random, re, copy
 
 def get_current_PID(KeyWord):
     workspace=os.path.abspath(".")
-    filelist=sorted([int(e.split('_')[0]) for e in os.listdir(workspace) if (KeyWord in e) and e[0] is not '_'])
+    #only files of numbered jobs count, each job once
+    filelist=sorted(set([int(e.split('_')[0]) for e in os.listdir(workspace) if (KeyWord in e) and e.split('_')[0].isdigit()]))
     if len(filelist)==0:
         NextPID=0
     else:
-- 
2.43.0


From 62460b860127d242c252b92944d216879a08e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:04 +0000
Subject: [PATCH 32/56] fix: a request to stop ends every job and starts no
 further one

---
 job_manager.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/job_manager.py b/job_manager.py
index adfcebd..fcbd76a 100755
--- a/job_manager.py
+++ b/job_manager.py
@@ -5,11 +5,13 @@ import os, sys, copy, signal
 import time
 import subprocess
 import logging
+import traceback
 import IO
 import inlist
 
 PROCLIST = []
 PROCLIST_BACK = []
+IS_STOPPED = False
 workdir=os.path.abspath(".")
 logging.basicConfig(filename=workdir+"/project.log",
         level=logging.INFO,
@@ -77,6 +79,8 @@ def check_status():
 
 def submit_job(job_atom):
     '''submit a job to cluster or your own computer'''
+    if IS_STOPPED:
+        return
 
     if os.path.exists(INFILEPATH) is not True:
         os.system("mkdir "+INFILEPATH)
@@ -117,6 +121,9 @@ def submit_job(job_atom):
                 PROCLIST.append((proc, job_atom))
             else:
                 PROCLIST_BACK.append((proc, job_atom))
+            if IS_STOPPED and proc.poll() is None:
+                #the request to stop came before the job was in the list
+                proc.terminate()
 
             logging.info(job_atom.get_job_name()+" is started...")
             logging.info("input:\n"+str(job_atom.para))
@@ -133,6 +140,8 @@ def Exit():
 
 def StopTheWorld(signum, frame):
     """Stop the sub-process *child* if *signum* is SIGTERM. Then terminate."""
+    global IS_STOPPED
+    IS_STOPPED = True
     check_status()
     ##terminate all background process here
     try:
-- 
2.43.0


From 1ad8414d5322a1d32f007e47423d83b291d564f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 33/56] fix: a job that ends while the manager is stopped does
 not keep the others running

---
 job_manager.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/job_manager.py b/job_manager.py
index fcbd76a..888bc8f 100755
--- a/job_manager.py
+++ b/job_manager.py
@@ -70,9 +70,10 @@ def check_status():
     PROC=(PROCLIST, PROCLIST_BACK)
     #print PROC
     for plist in PROC:
-        for elemp in plist:
+        for elemp in plist[:]:
             if elemp[0].poll() is not None:
-                plist.remove(elemp)
+                #StopTheWorld may have removed it meanwhile
+                plist[:] = [e for e in plist if e is not elemp]
                 logging.info(elemp[1].get_job_name()+" is ended!")
                 print elemp[1].get_job_name()+" is ended..."
     return
@@ -144,14 +145,15 @@ def StopTheWorld(signum, frame):
     IS_STOPPED = True
     check_status()
     ##terminate all background process here
-    try:
-        for elem in PROCLIST_BACK+PROCLIST:
+    for elem in PROCLIST_BACK+PROCLIST:
+        try:
             elem[0].terminate()
             elem[0].wait()
             logging.info(elem[1].get_job_name()+" is ended!")
             print elem[1].get_job_name()+" is ended!"
-    except:
-        traceback.print_exc()
+        except:
+            #it has ended by itself meanwhile, go on with the others
+            traceback.print_exc()
 
 if __name__ == "__main__":
     logging.info("Jobs manage daemon is started...")
-- 
2.43.0


From f2aeae40c0af69b2b34b20ec31d292b3e594d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 34/56] fix: announce a version only when its weights and
 parameters are saved

---
 dyson/main.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dyson/main.py b/dyson/main.py
index 92d60b5..0fe3a44 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -98,6 +98,7 @@ def Measure(para, Observable,Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, D
 
     Observable.Measure(Chi, BKChi, Determ, G, Factory.NearestNeighbor)
 
+    IsSaved=False
     with DelayedInterrupt():
         try:
             log.info("Save weights into {0} File".format(WeightFile))
@@ -105,6 +106,7 @@ def Measure(para, Observable,Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, D
             IO.SaveBigDict(WeightFile, data)
 
             parameter.Save(ParaFile, para)  #Save Parameters
+            IsSaved=True
             Observable.Save(OutputFile)
 
             #plot what you are interested in
@@ -120,6 +122,7 @@ def Measure(para, Observable,Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, D
             plot.PlotBand(G0, Lat)
         except:
             log.warning(blue("Output fails due to\n {0}".format(traceback.format_exc())))
+    return IsSaved
 
 def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
     ParaDyson=para["Dyson"]
@@ -323,15 +326,17 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
             Sigma.Accept()
             Polar.Accept()
             if para["Gamma3"]:
-                Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor, GGGammaG, WWGammaW)
+                IsSaved=Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor, GGGammaG, WWGammaW)
             else:
-                Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor)
+                IsSaved=Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor)
             IsSuccessed=Factory.DecreaseField(ParaDyson["Annealing"])
             # Factor=2.0 if IsSuccessed else 1.0
             # Factor=2.0
             Factor = 1.0 + 3.0/(1.0*para["Version"]+1.0)
-            parameter.BroadcastMessage(MessageFile, 
-                    {"Version": para["Version"], "Beta": Map.Beta, "SqueezeFactor": Factor})
+            if IsSaved:
+                #never announce weights which are not there
+                parameter.BroadcastMessage(MessageFile, 
+                        {"Version": para["Version"], "Beta": Map.Beta, "SqueezeFactor": Factor})
             log.info("Version {0} is done!".format(para["Version"]))
         finally:
             log.info(green("Memory Usage before collecting: {0} MB".format(memory_usage())))
-- 
2.43.0


From 3043077591a3085bb12a73d30fbcf9ef65fcdf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 35/56] fix: a version that fails leaves GGGammaG of the last
 successful one

---
 dyson/main.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dyson/main.py b/dyson/main.py
index 0fe3a44..ed4f15a 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -192,6 +192,8 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
                 GGGammaG=gamma3.SimpleGG(G, Map)
 
     Gold, Wold = G, W
+    if para["Gamma3"]:
+        GGGammaGold = GGGammaG
 
     #while para["Version"]==0:
     while True:
@@ -299,6 +301,8 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
             log.info(green("Version {0} fails due to:\n{1}".format(para["Version"],err)))
             Factory.RevertField(ParaDyson["Annealing"])
             G, W = Gold, Wold
+            if para["Gamma3"]:
+                GGGammaG = GGGammaGold
             SigmaDeltaT.RollBack()
             Sigma.RollBack()
             Polar.RollBack()
@@ -307,6 +311,8 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
             #failure due to statis files collection
             log.info(green("Version {0} fails due to:\n{1}".format(para["Version"],err)))
             G, W = Gold, Wold
+            if para["Gamma3"]:
+                GGGammaG = GGGammaGold
             SigmaDeltaT.RollBack()
             Sigma.RollBack()
             Polar.RollBack()
@@ -322,6 +328,8 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
             #everything works prefectly 
 	    log.info("everything is going well!")
             Gold, Wold = G, W
+            if para["Gamma3"]:
+                GGGammaGold = GGGammaG
             SigmaDeltaT.Accept()
             Sigma.Accept()
             Polar.Accept()
-- 
2.43.0


From 631debc855d1df1aee462f397b119efa114767de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 36/56] fix: an interrupt is not taken for a failure of the
 model, of a statistics file, of the parameter file or of a value in a file

---
 dyson/collect.py | 2 ++
 dyson/main.py    | 2 ++
 dyson/model.py   | 2 ++
 hickle.py        | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/dyson/collect.py b/dyson/collect.py
index d90bfdf..fd5deef 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -228,6 +228,8 @@ def CollectStatis(_map, runGamma3=False):
                     GammaWNormAccu=dataW['NormAccu']
                     GammaWNorm=dataW['Norm']
                     # GammaWFluc.append(dataW['WeightAccu'][0,0,0,0,:]/dataW['NormAccu']*dataW['Norm'])
+        except KeyboardInterrupt:
+            raise
         except:
             log.info("Fails to merge\n {0}".format(traceback.format_exc()))
         else:
diff --git a/dyson/main.py b/dyson/main.py
index ed4f15a..636856e 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -386,6 +386,8 @@ if __name__=="__main__":
             log.info(green("Try to load previous DYSHON_para file"))
             para=parameter.LoadPara(ParaFile)
             log.info("{0} para file is loaded".format(ParaFile))
+        except KeyboardInterrupt:
+            raise
         except:
             log.warning(red("Previous DYSHON_para file does not exist, use _in_DYSON_ file as para instead"))
             parameter.Save(ParaFile, para)  #Save Parameters
diff --git a/dyson/model.py b/dyson/model.py
index 7d5dee6..d5b51e9 100644
--- a/dyson/model.py
+++ b/dyson/model.py
@@ -60,6 +60,8 @@ class BareFactory:
         # getattr(self, self.__Model)(LatName)
         try:
             getattr(self, self.__Model)(LatName)
+        except KeyboardInterrupt:
+            raise
         except:
             log.error(blue("Model construction fails {0}".format(traceback.format_exc())))
             # Assert(False, "Model {0} has not been implemented!".format(self.__Model))
diff --git a/hickle.py b/hickle.py
index 9503df6..154b977 100755
--- a/hickle.py
+++ b/hickle.py
@@ -426,6 +426,8 @@ def load_dict(group):
             try:
                 mod = types.get(dtype)
                 dd[key] = mod(dd[key])
+            except KeyboardInterrupt:
+                raise
             except:
                 pass
     return dd
-- 
2.43.0


From bdbddd0b92b5e5677fb3ef38b5d4ef275c309b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:36 +0000
Subject: [PATCH 37/56] fix: a time-mirrored entry of WWGammaW has its two ends
 exchanged in space too

---
 src/module/weight/gamma3.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index 3a615b5..b5dba08 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -325,6 +325,8 @@ Complex GammaWClass::Weight(const Site &Wr_in, const Site &Wr_out, const Site &U
     int t2Index=floor(t2*_dBetaInverse);
 
     auto tIndex=t1Index*_MaxTauBinTiny+t2Index;
+    if(_TauFlag[tIndex]!=0) //the mirrored time bin is stored with its two ends exchanged
+        coordiIndex=coord_r2*_Vol+coord_r1;
 
     auto Index=_RSqueeze[coordiIndex]*_TauSize+_TauSqueeze[tIndex];
 
@@ -408,6 +410,8 @@ void GammaWClass::Measure(const Site &Wr_in, const Site &Wr_out, const Site &Ur,
     int t2Index=floor(t2*_dBetaInverse);
 
     auto tauIndex=t1Index*_MaxTauBinTiny+t2Index;
+    if(_TauFlag[tauIndex]!=0) //the mirrored time bin is stored with its two ends exchanged
+        coordiIndex=coord_r2*_Vol+coord_r1;
 
     auto Index=_RSqueeze[coordiIndex]*_TauSize+_TauSqueeze[tauIndex];
     auto SpinIndex=_SpinIndex(Wspin_out, Wspin_in);
-- 
2.43.0


From 3d245fd7e5ddd25f00e1bd5eccd7faf258b09be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:48 +0000
Subject: [PATCH 38/56] fix: compare time bins by value in SymmetryMapping

---
 dyson/gamma3_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyson/gamma3_calc.py b/dyson/gamma3_calc.py
index 4512c93..9064e3a 100644
--- a/dyson/gamma3_calc.py
+++ b/dyson/gamma3_calc.py
@@ -652,11 +652,11 @@ def SymmetryMapping(_map):
         for t2 in range(t1, TauBin):
             TauSqueeze[t1,t2]=Index
             TauSymFactor[t1,t2]=2
-            if t1 is not t2:
+            if t1 != t2:
                 TauSqueeze[t2,t1]=Index
                 TauSymFactor[t2,t1]=2
                 TauFlag[t2,t1]=1
-            if t1 is t2:
+            if t1 == t2:
                 TauSymFactor[t1,t1]=1
             TauRestore.append((t1, t2))
             Index+=1
-- 
2.43.0


From 4cd2083efd1ceb882e2fc0a128435dda13abdc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 39/56] fix: GetR folds any distance into the lattice,
 elongated triangular lattices included

---
 dyson/gamma3_calc.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/dyson/gamma3_calc.py b/dyson/gamma3_calc.py
index 9064e3a..48304d7 100644
--- a/dyson/gamma3_calc.py
+++ b/dyson/gamma3_calc.py
@@ -610,15 +610,7 @@ def RestoreGammaW(GammaW, _map, TauBin=None):
     # return GammaW
 
 def GetR(r, L):
-    if r<0:
-        r+=L
-        if r<0:
-            r+=L
-    elif r>=L:
-        r-=L
-        if r>=L:
-            r-=L
-    return r
+    return r%L
 
 def MirrorR(vec, _map):
     x1, y1, x2, y2=vec
-- 
2.43.0


From 04848d17f87cc97bbbed9cbfea3fa9abe6858a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:47 +0000
Subject: [PATCH 40/56] fix: CoordiIndex folds coordinates into the lattice, so
 that second neighbours exist on lattices of two cells

---
 dyson/weight.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dyson/weight.py b/dyson/weight.py
index 99b8b6d..0b5655d 100644
--- a/dyson/weight.py
+++ b/dyson/weight.py
@@ -51,9 +51,10 @@ class IndexMap:
 
     def CoordiIndex(self, Out):
         #Out[0]*L1*L2+Out[1]*L2+Out[2] with In=(0,0,0)
-        Index=Out[0]
+        #coordinates are periodic
+        Index=Out[0]%self.L[0]
         for i in range(1,len(self.L)):
-            Index=Index*self.L[i]+Out[i]
+            Index=Index*self.L[i]+Out[i]%self.L[i]
         return Index
     def IndexToCoordi(self, Index):
         Out=[0]*len(self.L)
-- 
2.43.0


From d15f684d2d9527fd4cf4bb8a884ab336ae921b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:47 +0000
Subject: [PATCH 41/56] fix: the Hubbard interaction couples the densities of
 the two spins on one site

---
 dyson/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dyson/model.py b/dyson/model.py
index d5b51e9..7f608ec 100644
--- a/dyson/model.py
+++ b/dyson/model.py
@@ -213,9 +213,11 @@ class BareFactory:
 
     def __BuildHubbardInteraction(self):
         HubbardU=self.__HubbardInteraction
+        UPUP=self.__Map.Spin2Index(UP,UP)
+        DOWNDOWN=self.__Map.Spin2Index(DOWN,DOWN)
         for sub in range(self.__Map.NSublat):
-            self.BareW.Data[0,sub,1,sub,:]+= HubbardU;
-            self.BareW.Data[1,sub,0,sub,:]+= HubbardU;
+            self.BareW.Data[UPUP,sub,DOWNDOWN,sub,0]+= HubbardU;
+            self.BareW.Data[DOWNDOWN,sub,UPUP,sub,0]+= HubbardU;
 
     def __BuildShortRangeInteraction(self, LatName, InteractionTypeList):
         """
-- 
2.43.0


From 4240d78155df8f4c2cbdd594281b3f3bb3b33bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:47 +0000
Subject: [PATCH 42/56] fix: fermion models accept a list of hoppings without
 the next nearest neighbours

---
 dyson/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dyson/model.py b/dyson/model.py
index 7f608ec..faa62c0 100644
--- a/dyson/model.py
+++ b/dyson/model.py
@@ -142,9 +142,9 @@ class BareFactory:
             self.NextNearestNeighbor[0][0]=[(1,1),(Lx-1,1),(1,Ly-1),(Lx-1,Ly-1)]
 
             for e in self.NearestNeighbor[sub][sub]:
-                self.__KineticTerm.Data[:,sub,:,sub,self.__Map.CoordiIndex(e)]+= -self.__Hopping[0]*SpinOrbit[0];
+                self.__KineticTerm.Data[:,sub,:,sub,self.__Map.CoordiIndex(e)]+= -Hopping[0]*SpinOrbit[0];
             for e in self.NextNearestNeighbor[sub][sub]:
-                self.__KineticTerm.Data[:,sub,:,sub,self.__Map.CoordiIndex(e)]+= -self.__Hopping[1]*SpinOrbit[1];
+                self.__KineticTerm.Data[:,sub,:,sub,self.__Map.CoordiIndex(e)]+= -Hopping[1]*SpinOrbit[1];
 
         elif LatName=="Honeycomb":
             #NSublat: 2
@@ -160,9 +160,9 @@ class BareFactory:
             for i in range(2):
                 for j in range(2):
                     for e in self.NearestNeighbor[i][j]:
-                        self.__KineticTerm.Data[:,i,:,j,self.__Map.CoordiIndex(e)]+= -self.__Hopping[0]*SpinOrbit[0];
+                        self.__KineticTerm.Data[:,i,:,j,self.__Map.CoordiIndex(e)]+= -Hopping[0]*SpinOrbit[0];
                     for e in self.NextNearestNeighbor[i][j]:
-                        self.__KineticTerm.Data[:,i,:,j,self.__Map.CoordiIndex(e)]+= -self.__Hopping[1]*SpinOrbit[1];
+                        self.__KineticTerm.Data[:,i,:,j,self.__Map.CoordiIndex(e)]+= -Hopping[1]*SpinOrbit[1];
 
         else:
             Assert(False, "Lattice {0} has not been implemented yet!".format(LatName))
-- 
2.43.0


From 9f4fc5009827c4b0a579a91163f5e0db841c5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 43/56] fix: reciprocal lattice vectors in the order of the
 lattice vectors they are dual to

---
 dyson/lattice.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dyson/lattice.py b/dyson/lattice.py
index ae72faf..3be471d 100644
--- a/dyson/lattice.py
+++ b/dyson/lattice.py
@@ -37,8 +37,8 @@ class Lattice:
                               [1.0,-1.0]])
         self.SubLatVec=np.array([[0.0,0.0],
                                  [1.0,0.0]])
-        self.ReciprocalLatVec =np.array([[PI, -PI],
-                                         [PI,  PI]])
+        self.ReciprocalLatVec =np.array([[PI,  PI],
+                                         [PI, -PI]])
         self.Path=[(0,0),(PI,0),(PI,PI),(0,0)]
         self.PathName=["$\Gamma$\n$(0,0)$", "$X$\n$(\pi,0)$", "$M$\n$(\pi,\pi)$","$\Gamma$\n$(0,0)$"]
         self.IndependtBZCenter=[(0,0)]
@@ -133,8 +133,8 @@ class Lattice:
         self.SubLatVec = np.array([[0.5, 0.0],
                                   [1.0/4.0, root3/4],
                                   [3.0/4.0, root3/4]])
-        self.ReciprocalLatVec=np.array([[0.0, PI2*2.0/root3],
-                                        [PI2, -PI2/root3]])
+        self.ReciprocalLatVec=np.array([[PI2, -PI2/root3],
+                                        [0.0, PI2*2.0/root3]])
         #TODO: self.Path is not correct yet
         self.Path=[(0,0),(PI2/root3,0)]
         self.PathName=["\Gamma", "M"]
@@ -188,9 +188,9 @@ class Lattice:
                                  [0.0,0.25,0.25],
                                  [0.25,0.0,0.25],
                                  [0.25,0.25,0.0]])
-        self.ReciprocalLatVec=np.array([[2*PI, -2*PI, 2*PI],
-                                        [2*PI, 2*PI, -2*PI],
-                                        [-2*PI, 2*PI, 2*PI]])
+        self.ReciprocalLatVec=np.array([[-2*PI, 2*PI, 2*PI],
+                                        [2*PI, -2*PI, 2*PI],
+                                        [2*PI, 2*PI, -2*PI]])
         P={"G": (0,0,0), "X":(0,2*PI,0),  "W":(PI,2*PI,0), \
            "K":(1.5*PI,1.5*PI,0),"L": (PI,PI,PI), "U": (PI/2,2*PI,PI/2)}
         L={"G":"$\Gamma$\n$(0,0,0)$", "X":"$X$\n$(0,2\pi,0)$", "W": "$W$\n$(\pi,2\pi,0)$", \
-- 
2.43.0


From cdd21e1435393df5e8e20a00a9bfe7238cc567ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 44/56] fix: the staggered susceptibility is the static one, at
 frequency zero

---
 dyson/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dyson/measure.py b/dyson/measure.py
index 929bd8d..af56a81 100644
--- a/dyson/measure.py
+++ b/dyson/measure.py
@@ -52,6 +52,8 @@ class Observable:
         if self.__Lat.Name in ["Chain", "Assymetric_Triangular", "Square", "Cubic", "Checkerboard", "3DCheckerboard", "ValenceBond"]:
             # Chi.FFT("R", "T")
             # print Chi.Data[0,0,0,0,:,0]
+            Chi.FFT("R", "W")
+            BKChi.FFT("R", "W")
             StagK=(PI,)*self.__Map.Dim
             _, ChiK=self.__Lat.FourierTransformation(Chi.Data[0,:,0,:,:,0]*Factor, [StagK,],"Real")
             _, BKChiK=self.__Lat.FourierTransformation(BKChi.Data[0,:,0,:,:,0]*Factor, [StagK,],"Real")
-- 
2.43.0


From e99622e9fd6cf5e7987d48fa4824321ad627fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 45/56] fix: the propagator of the polarization that runs back
 has the opposite displacement

---
 dyson/calculator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dyson/calculator.py b/dyson/calculator.py
index a8a9c09..9ed41ec 100644
--- a/dyson/calculator.py
+++ b/dyson/calculator.py
@@ -67,6 +67,8 @@ def Polar_FirstOrder(G, map):
     NSpin = G.NSpin
     SubList=[(a,b) for a in range(NSublat) for b in range(NSublat)]
     SpList=[(a,b) for a in range(NSpin) for b in range(NSpin)]
+    #G from B back to A is displaced by -r
+    MinusR=[map.CoordiIndex([-e for e in map.IndexToCoordi(r)]) for r in range(map.Vol)]
     for spin1,spin2 in SpList:
         spinPolar = ((spin1,spin2),(spin2,spin1))
         spinG1 = (spin1, spin1)
@@ -74,7 +76,7 @@ def Polar_FirstOrder(G, map):
         for subA,subB in SubList:
             Polar.Data[map.Spin2Index(*spinPolar[IN]),subA, \
                     map.Spin2Index(*spinPolar[OUT]),subB,:,:]+=OrderSign*FermiLoopSign \
-                    *AntiSymmetricFactor*G.Data[spinG1[IN], subB, spinG1[OUT], subA, :, ::-1]  \
+                    *AntiSymmetricFactor*G.Data[spinG1[IN], subB, spinG1[OUT], subA][MinusR, ::-1]  \
                     *G.Data[spinG2[IN], subA, spinG2[OUT], subB, :, :]
     return Polar
 
-- 
2.43.0


From 6facf8891ff85531423bfe0aea95156da95976d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:01 +0000
Subject: [PATCH 46/56] fix: bare propagator of fermions with degenerate levels

---
 dyson/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyson/model.py b/dyson/model.py
index faa62c0..14895a7 100644
--- a/dyson/model.py
+++ b/dyson/model.py
@@ -188,7 +188,8 @@ class BareFactory:
         self.BareG.FFT("K","T")
 
         for k in range(self.__Map.Vol): 
-            Ek,Uk=np.linalg.eig(self.__KineticTerm.Data[:,:,k])
+            #degenerate levels need orthogonal states
+            Ek,Uk=np.linalg.eigh(self.__KineticTerm.Data[:,:,k])
             # print Ek, self.__KineticTerm.Data[:,:,k]
             Ukdag=Uk.conj().T
             for t in range(self.__MaxTauBin):
-- 
2.43.0


From 0b8f2ff9d9c51fa0575a55dd4e10b70ac7ba237a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:26:03 +0000
Subject: [PATCH 47/56] fix: reading a spin from Python recursed without end

---
 src/utility/pyglue/type_cast.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility/pyglue/type_cast.cpp b/src/utility/pyglue/type_cast.cpp
index 42d72ee..731ce0f 100644
--- a/src/utility/pyglue/type_cast.cpp
+++ b/src/utility/pyglue/type_cast.cpp
@@ -125,7 +125,11 @@ bool Convert(Object obj, ITypeCast& value)
 
 bool Convert(Object obj, spin& val)
 {
-    return Convert(obj, val);
+    int num;
+    if (!Convert(obj, num) || (num != UP && num != DOWN))
+        return false;
+    val = (spin)num;
+    return true;
 }
 bool Convert(Object obj, Momentum& val)
 {
-- 
2.43.0


From 178af6979d6dc8ae31ea5b5a1dd0eb59132f3a97 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:26:03 +0000
Subject: [PATCH 48/56] fix: a number from Python that does not fit is refused,
 not wrapped

---
 src/utility/pyglue/type_cast.cpp | 50 +++++++++++++++++---------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/utility/pyglue/type_cast.cpp b/src/utility/pyglue/type_cast.cpp
index 731ce0f..4588a78 100644
--- a/src/utility/pyglue/type_cast.cpp
+++ b/src/utility/pyglue/type_cast.cpp
@@ -10,6 +10,7 @@
 #include "utility/rng.h"
 #include "utility/momentum.h"
 #include "type_cast.h"
+#include <limits>
 
 namespace Python {
 bool Convert(Object obj, std::string& val)
@@ -41,47 +42,45 @@ bool IsInt(const Object& obj)
     return PyInt_Check(obj.Get()) || PyLong_Check(obj.Get());
 }
 
-bool Convert(Object obj, int& value)
+// numbers that do not fit in the type asked for are refused
+template <typename T, typename N>
+bool ConvertInteger(Object obj, T& value, N (*convert)(PyObject*))
 {
     if (!IsInt(obj))
         return false;
-    value = (int)PyLong_AsLong(obj.Get());
+    N num = convert(obj.Get());
+    if (PyErr_Occurred()) {
+        PyErr_Clear();
+        return false;
+    }
+    if (num < std::numeric_limits<T>::min() || num > std::numeric_limits<T>::max())
+        return false;
+    value = (T)num;
     return true;
 }
+bool Convert(Object obj, int& value)
+{
+    return ConvertInteger(obj, value, PyLong_AsLong);
+}
 bool Convert(Object obj, unsigned int& value)
 {
-    if (!IsInt(obj))
-        return false;
-    value = (unsigned int)PyLong_AsUnsignedLong(obj.Get());
-    return true;
+    return ConvertInteger(obj, value, PyLong_AsUnsignedLong);
 }
 bool Convert(Object obj, long& value)
 {
-    if (!IsInt(obj))
-        return false;
-    value = PyLong_AsLong(obj.Get());
-    return true;
+    return ConvertInteger(obj, value, PyLong_AsLong);
 }
 bool Convert(Object obj, unsigned long& value)
 {
-    if (!IsInt(obj))
-        return false;
-    value = PyLong_AsUnsignedLong(obj.Get());
-    return true;
+    return ConvertInteger(obj, value, PyLong_AsUnsignedLong);
 }
 bool Convert(Object obj, long long& value)
 {
-    if (!IsInt(obj))
-        return false;
-    value = PyLong_AsLongLong(obj.Get());
-    return true;
+    return ConvertInteger(obj, value, PyLong_AsLongLong);
 }
 bool Convert(Object obj, unsigned long long& value)
 {
-    if (!IsInt(obj))
-        return false;
-    value = PyLong_AsUnsignedLongLong(obj.Get());
-    return true;
+    return ConvertInteger(obj, value, PyLong_AsUnsignedLongLong);
 }
 
 template <typename T>
@@ -89,7 +88,12 @@ bool ConvertReal(Object obj, T& val)
 {
     if (!PyFloat_Check(obj.Get()) && !IsInt(obj))
         return false;
-    val = (T)PyFloat_AsDouble(obj.Get());
+    double num = PyFloat_AsDouble(obj.Get());
+    if (PyErr_Occurred()) {
+        PyErr_Clear();
+        return false;
+    }
+    val = (T)num;
     return true;
 }
 bool Convert(Object obj, float& val)
-- 
2.43.0


From b4dedc783871bcc21a9aa3f910f392d10a8a4f3f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:26:03 +0000
Subject: [PATCH 49/56] fix: reading a tuple from Python ignored bad elements
 and dropped a reference

---
 src/utility/pyglue/type_cast.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/pyglue/type_cast.h b/src/utility/pyglue/type_cast.h
index 3745443..8316719 100644
--- a/src/utility/pyglue/type_cast.h
+++ b/src/utility/pyglue/type_cast.h
@@ -75,7 +75,8 @@ template <size_t n, class... Args>
 typename std::enable_if<n != 0, bool>::type
 AddToTuple(Object obj, std::tuple<Args...>& tup)
 {
-    AddToTuple<n - 1, Args...>(obj.Get(), tup);
+    if (!AddToTuple<n - 1, Args...>(obj, tup))
+        return false;
     Object item = Object(PyTuple_GetItem(obj.Get(), n), NoRef);
     return Convert(item, std::get<n>(tup));
 }
-- 
2.43.0


From 526e75c37ebfdd7e84ce53a58aa13a560eeac669 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:26:03 +0000
Subject: [PATCH 50/56] fix: a map or list read from Python kept what the
 target held before

---
 src/utility/pyglue/type_cast.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utility/pyglue/type_cast.h b/src/utility/pyglue/type_cast.h
index 8316719..341b36d 100644
--- a/src/utility/pyglue/type_cast.h
+++ b/src/utility/pyglue/type_cast.h
@@ -95,6 +95,7 @@ bool Convert(Object obj, std::map<K, V>& mp)
     if (!PyDict_Check(obj.Get()))
         return false;
     PyObject* py_key, *py_val;
+    std::map<K, V> result;
     Py_ssize_t pos(0);
     while (PyDict_Next(obj.Get(), &pos, &py_key, &py_val)) {
         //PyDict_Next return borrowed key and val
@@ -104,8 +105,9 @@ bool Convert(Object obj, std::map<K, V>& mp)
         V val;
         if (!Convert(Object(py_val, NoRef), val))
             return false;
-        mp.insert(std::make_pair(key, val));
+        result.insert(std::make_pair(key, val));
     }
+    mp.swap(result);
     return true;
 }
 // Convert a PyObject to a generic container.
@@ -114,13 +116,15 @@ bool ConvertList(Object obj, C& container)
 {
     if (!PyList_Check(obj.Get()))
         return false;
+    C result;
     for (Py_ssize_t i(0); i < PyList_Size(obj.Get()); ++i) {
         T val;
         Object item = Object(PyList_GetItem(obj.Get(), i), NoRef);
         if (!Convert(item, val))
             return false;
-        container.push_back(std::move(val));
+        result.push_back(std::move(val));
     }
+    container.swap(result);
     return true;
 }
 // Convert a PyObject to a std::list.
-- 
2.43.0


From 40e47bbcdc170286d375199051e8c0c4f3c9f58d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:26:03 +0000
Subject: [PATCH 51/56] fix: asking whether a module has an attribute failed
 when it has not

---
 src/utility/pyglue/pywrapper.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/utility/pyglue/pywrapper.cpp b/src/utility/pyglue/pywrapper.cpp
index f53c9e5..a43f76b 100644
--- a/src/utility/pyglue/pywrapper.cpp
+++ b/src/utility/pyglue/pywrapper.cpp
@@ -105,12 +105,6 @@ Object ModuleObject::GetAttr(const std::string& name)
 
 bool ModuleObject::HasAttr(const std::string& name)
 {
-    try {
-        GetAttr(name);
-        return true;
-    }
-    catch (KeyInvalid) {
-        return false;
-    }
+    return PyObject_HasAttrString(_PyPtr, name.c_str());
 }
 }
\ No newline at end of file
-- 
2.43.0


From bb4a26c184f1e8dd77d730ab23ea9a44ca97b95d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:26:11 +0000
Subject: [PATCH 52/56] fix: the elements of an array of another type were read
 as if of the type asked for

---
 src/utility/pyglue/pyarraywrapper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/pyglue/pyarraywrapper.cpp b/src/utility/pyglue/pyarraywrapper.cpp
index 6cd69d2..82d6402 100644
--- a/src/utility/pyglue/pyarraywrapper.cpp
+++ b/src/utility/pyglue/pyarraywrapper.cpp
@@ -104,18 +104,21 @@ template <>
 Complex* ArrayObject::Data<Complex>()
 {
     ASSERT_ALLWAYS(_PyPtr != nullptr, "ArrayObject is still empty!");
+    ASSERT_ALLWAYS(PyArray_TYPE(_PyPtr) == NPY_COMPLEX128, "The array does not hold complex numbers!");
     return reinterpret_cast<Complex*>(PyArray_DATA(_PyPtr));
 }
 template <>
 real* ArrayObject::Data<real>()
 {
     ASSERT_ALLWAYS(_PyPtr != nullptr, "ArrayObject is still empty!");
+    ASSERT_ALLWAYS(PyArray_TYPE(_PyPtr) == NPY_FLOAT64, "The array does not hold real numbers!");
     return reinterpret_cast<real*>(PyArray_DATA(_PyPtr));
 }
 template <>
 int* ArrayObject::Data<int>()
 {
     ASSERT_ALLWAYS(_PyPtr != nullptr, "ArrayObject is still empty!");
+    ASSERT_ALLWAYS(PyArray_TYPE(_PyPtr) == NPY_INT, "The array does not hold integer numbers!");
     return reinterpret_cast<int*>(PyArray_DATA(_PyPtr));
 }
 
-- 
2.43.0


From 8f43cbf4ea02cd1396b84199fbb4e10ff88770c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:27:18 +0000
Subject: [PATCH 53/56] fix: a list with more elements than dimensions was read
 as a vector

---
 src/utility/pyglue/type_cast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/pyglue/type_cast.h b/src/utility/pyglue/type_cast.h
index 341b36d..5c32d9c 100644
--- a/src/utility/pyglue/type_cast.h
+++ b/src/utility/pyglue/type_cast.h
@@ -51,7 +51,7 @@ template <typename T>
 bool Convert(Object obj, Vec<T>& val)
 {
     auto Dim = val.size();
-    if (!PyList_Check(obj.Get()) || PyList_Size(obj.Get()) < Dim)
+    if (!PyList_Check(obj.Get()) || PyList_Size(obj.Get()) != Dim)
         return false;
 
     for (auto i = 0; i < Dim; i++) {
-- 
2.43.0


From 547cfeebd3900e5e1820f4ab5e3a8ffd527f77e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:02 +0000
Subject: [PATCH 54/56] fix: the compiled solver gave a wrong solution for a
 right hand side in Fortran order

---
 dyson/solver/lu_fast.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyson/solver/lu_fast.pyx b/dyson/solver/lu_fast.pyx
index 9d11afc..e8a3305 100644
--- a/dyson/solver/lu_fast.pyx
+++ b/dyson/solver/lu_fast.pyx
@@ -70,7 +70,7 @@ def lu_solve(np.ndarray[cComplex, ndim=3] lu, np.ndarray[int, ndim=2] piv, np.nd
     piv=np.require(piv, requirements=['F'])+1
     bb=np.require(b, requirements=['F'])
     if np.may_share_memory(b,bb):
-        bb=b.copy()
+        bb=b.copy(order="F")
     #for i in prange(size, nogil=True):
     for i in range(size):
         zgetrs_(&trans, &N, &nrhs, &lu[0,0,i], &LDA, &piv[0,i], &bb[0,0,i], &LDB, &info);
-- 
2.43.0


From 6d10ba0a8ad150dd71bda558f56a8a927b606eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:02 +0000
Subject: [PATCH 55/56] fix: a list of time ratios shorter than the order was
 accepted and read beyond its end

---
 src/module/parameter/parameter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/parameter/parameter.cpp b/src/module/parameter/parameter.cpp
index 48f3ab2..70d7701 100644
--- a/src/module/parameter/parameter.cpp
+++ b/src/module/parameter/parameter.cpp
@@ -91,6 +91,7 @@ bool ParaMC::FromDict(const Dictionary& Para)
         RNG.Reset(Seed);
     ASSERT_ALLWAYS(Order < MAX_ORDER, "Order can not be bigger than " << MAX_ORDER);
     ASSERT_ALLWAYS(OrderReWeight.size() >= Order + 1, "OrderReWeight should have Order+1 elementes!");
+    ASSERT_ALLWAYS(OrderTimeRatio.size() >= Order + 1, "OrderTimeRatio should have Order+1 elements!");
 
     auto _timer = _para.Get<Dictionary>("Timer");
     GET(_timer, PrinterTimer);
-- 
2.43.0


From 022f9cb4d6ccea70753f5c41db50a08ca4672dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:27 +0000
Subject: [PATCH 56/56] fix: an order without any data was accepted with the
 error of the order before

---
 dyson/collect.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dyson/collect.py b/dyson/collect.py
index fd5deef..a0bef71 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -63,10 +63,9 @@ class WeightEstimator():
         #Average0 = np.average(abs(np.sum(self.OrderWeight[:,0,0,0,0,0,:], axis=0)))
         Info=[]
         DimList=[]
-        RelativeError=None
         for order in xrange(1,Shape[0]+1):
             # Order Index is equal to real Order-1
-            #RelativeError=0.0
+            RelativeError=None
             Average=0.0
             weight=self.OrderWeight[order-1,...]
             for index, _ in np.ndenumerate(weight[...,0]):
@@ -88,7 +87,13 @@ class WeightEstimator():
                         #if relative>0.05:
                             #weight[index]=smooth  #use smoothed function instead if the noise is larger than 5%
             if RelativeError is None:
-                raise CollectStatisFailure("{0} has no data at order {1}!".format(Name, order))
+                if order==1:
+                    raise CollectStatisFailure("{0} has no data at order {1}!".format(Name, order))
+                if order<=OrderAccepted:
+                    continue
+                log.info("{0} has no data at order {1}, NOT Accepted".format(Name, order))
+                order-=1
+                break
             log.info("RelativeError at Order {0} is {1}".format(order, RelativeError))
             IsAccpted=RelativeError<ErrorThreshold or order<=OrderAccepted
             State="Accepted with relative error {0:.2g}".format(RelativeError, ErrorThreshold)
-- 
2.43.0

