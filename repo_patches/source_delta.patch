From 88f04b6e8e0089544560d6ba1caebd0c9c7d7168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:00 +0000
Subject: [PATCH 01/20] fix: getDDiffTimeVector returns the second derivative
 of the time vector

---
 curves/include/curves/PolynomialSpline.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/PolynomialSpline.hpp b/curves/include/curves/PolynomialSpline.hpp
index 0695acc..deb5b75 100644
--- a/curves/include/curves/PolynomialSpline.hpp
+++ b/curves/include/curves/PolynomialSpline.hpp
@@ -188,7 +188,7 @@ class PolynomialSpline {
            ddtimeVec.cols() == EigenTimeVectorType::ColsAtCompileTime);
     // https://eigen.tuxfamily.org/dox/TopicFunctionTakingEigenTypes.html
     const_cast<Eigen::MatrixBase<Derived>&>(ddtimeVec) =
-        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::dtau(tk)).data());
+        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::ddtau(tk)).data());
   }
 
   //! Get the second derivative of the time vector evaluated at time tk and add it to the input vector.
-- 
2.43.0


From 151f29d03886bfed84f4ca2bc4f78024b80d89ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:00 +0000
Subject: [PATCH 02/20] fix: define the time vectors at zero of orders 1, 2 and
 4

---
 curves/src/polynomial_splines_traits.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/curves/src/polynomial_splines_traits.cpp b/curves/src/polynomial_splines_traits.cpp
index 3c1f093..e63ef00 100644
--- a/curves/src/polynomial_splines_traits.cpp
+++ b/curves/src/polynomial_splines_traits.cpp
@@ -14,11 +14,26 @@ namespace spline_traits {
 template<typename Core_, int SplineOrder_>
 constexpr unsigned int spline_rep<Core_, SplineOrder_>::numCoefficients;
 
+using spline1 = spline_rep<double, 1>;
+constexpr std::array<double, spline1::numCoefficients> spline1::tauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::dtauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::ddtauZero;
+
+using spline2 = spline_rep<double, 2>;
+constexpr std::array<double, spline2::numCoefficients> spline2::tauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::dtauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::ddtauZero;
+
 using spline3 = spline_rep<double, 3>;
 constexpr std::array<double, spline3::numCoefficients> spline3::tauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::dtauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::ddtauZero;
 
+using spline4 = spline_rep<double, 4>;
+constexpr std::array<double, spline4::numCoefficients> spline4::tauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::dtauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::ddtauZero;
+
 using spline5 = spline_rep<double, 5>;
 constexpr std::array<double, spline5::numCoefficients> spline5::tauZero;
 constexpr std::array<double, spline5::numCoefficients> spline5::dtauZero;
-- 
2.43.0


From 4bead8aac38d71d194ee16058106eb7ec286cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:00 +0000
Subject: [PATCH 03/20] fix: reject an empty list of knots in
 PolynomialSplineContainer::setData

---
 curves/include/curves/PolynomialSplineContainer.tpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 99ac23e..c802b01 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -251,6 +251,11 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
 
   bool success = reset();
 
+  if (knotDurations.empty()) {
+    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
+    return false;
+  }
+
   // Set up optimization parameters.
   const unsigned int numSplines = knotDurations.size()-1;
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
@@ -328,6 +333,11 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
 
   bool success = reset();
 
+  if (knotDurations.empty()) {
+    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
+    return false;
+  }
+
   // Set up optimization parameters.
   const unsigned int numSplines = knotDurations.size()-1u;
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
-- 
2.43.0


From 23b9c132447c20c4b582e864287e0489939eddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:00 +0000
Subject: [PATCH 04/20] fix: advance over more than one spline of a container
 in one step

---
 curves/include/curves/PolynomialSplineContainer.tpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index c802b01..f7c0448 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -43,8 +43,9 @@ bool PolynomialSplineContainer<splineOrder_>::advance(double dt)
   // Advance in time.
   containerTime_ += dt;
 
-  // Check if spline index needs to be increased.
-  if ((containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration())) {
+  // Check if spline index needs to be increased (a step may pass several splines).
+  while (activeSplineIdx_ < splines_.size() &&
+         containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration()) {
     if (activeSplineIdx_ < (splines_.size() - 1)) {
       timeOffset_ += splines_[activeSplineIdx_].getSplineDuration();
     }
-- 
2.43.0


From 06e23520ed05e94cc94fcdb232f290892972dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 05/20] fix: keep the active spline consistent when a spline is
 added

---
 curves/include/curves/PolynomialSplineContainer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineContainer.hpp b/curves/include/curves/PolynomialSplineContainer.hpp
index 5cf5db6..ad77c0f 100644
--- a/curves/include/curves/PolynomialSplineContainer.hpp
+++ b/curves/include/curves/PolynomialSplineContainer.hpp
@@ -50,6 +50,8 @@ class PolynomialSplineContainer {
   bool addSpline(SplineType_&& spline) {
     containerDuration_ += spline.getSplineDuration();
     splines_.emplace_back(std::forward<SplineType_>(spline));
+    // The spline active at the current time may have changed.
+    setContainerTime(containerTime_);
     return true;
   }
 
-- 
2.43.0


From b8e5674b86ab35691c15f8e14756d52ecce5ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 06/20] fix: evaluate the vector space curve on absolute time

---
 curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index ea5f9a9..0459ab1 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -50,11 +50,12 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual Time getMaxTime() const
   {
-    return containers_.at(0).getContainerDuration();
+    return containers_.at(0).getContainerDuration() + minTime_;
   }
 
   virtual bool evaluate(ValueType& value, Time time) const
   {
+    time -= minTime_;
     for (size_t i = 0; i < N; ++i) {
       value(i) = containers_.at(i).getPositionAtTime(time);
     }
@@ -63,7 +64,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual bool evaluateDerivative(DerivativeType& value, Time time, unsigned derivativeOrder) const
   {
-
+    time -= minTime_;
     for (size_t i = 0; i < N; ++i) {
       if (derivativeOrder == 1) {
         value(i) = containers_.at(i).getVelocityAtTime(time);
@@ -149,6 +150,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
     for (size_t i = 0; i < N; ++i) {
       containers_.at(i).reset();
     }
+    minTime_ = 0.0;
   }
 
   virtual void transformCurve(const ValueType /*T*/)
-- 
2.43.0


From 5415040fb2f391d8b9dbb010a1f7caaae40e60e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 07/20] fix: replace the old splines when a scalar curve is
 fitted from a list of options

---
 curves/include/curves/PolynomialSplineScalarCurve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index c85933b..b632dcb 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -131,6 +131,7 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
   virtual void fitCurve(const std::vector<SplineOptions>& optionList,
                         std::vector<Key>* outKeys = NULL)
   {
+    container_.reset();
     container_.reserveSplines(optionList.size());
     for (const auto& options : optionList) {
       container_.addSpline(PolynomialSplineQuintic(options));
-- 
2.43.0


From 5bae7a4556121013b501e45f5f6059a56768db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:41 +0000
Subject: [PATCH 08/20] fix: make the comparison of coefficient managers
 compile

---
 .../LocalSupport2CoefficientManager-inl.hpp   | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index ed9f025..b3e5da9 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -32,25 +32,12 @@ bool LocalSupport2CoefficientManager<Coefficient>::equals(const LocalSupport2Coe
   equal &= timeToCoefficient_.size() == other.timeToCoefficient_.size();
   if (equal) {
     CoefficientIter it1, it2;
-    it1 = keyToCoefficient_.begin();
-    it2 = other.keyToCoefficient_.begin();
-    for( ; it1 != keyToCoefficient_.end(); ++it1, ++it2) {
+    it1 = timeToCoefficient_.begin();
+    it2 = other.timeToCoefficient_.begin();
+    for( ; it1 != timeToCoefficient_.end(); ++it1, ++it2) {
       equal &= it1->first == it2->first;
       equal &= it1->second.equals(it2->second);
     }
-
-    CoefficientIter it3, it4;
-    it3 = timeToCoefficient_.begin();
-    it4 = other.timeToCoefficient_.begin();
-    for( ; it3 != timeToCoefficient_.end(); ++it3, ++it4) {
-      equal &= it3->first == it4->first;
-      if (it3->second && it4->second) {
-        equal &= it3->second->equals(*(it4->second));
-      } else {
-        equal &= it3->second == it4->second;
-      }
-    }
-
   }
   return equal;
 }
-- 
2.43.0


From a3b44d60aaeb97934bd3b2614b3261587cb0dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:41 +0000
Subject: [PATCH 09/20] fix: make membership test and removal by key compile
 and find the coefficient

---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index b3e5da9..f6749e5 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -182,7 +182,7 @@ void LocalSupport2CoefficientManager<Coefficient>::removeCoefficientWithKey(Key
   typename TimeToKeyCoefficientMap::iterator it1;
   typename boost::unordered_map<Key, CoefficientIter>::iterator it2;
   it2 = keyToCoefficient_.find(key);
-  it1 = timeToCoefficient_.find(it1->second->first);
+  it1 = timeToCoefficient_.find(it2->second->first);
   timeToCoefficient_.erase(it1);
   keyToCoefficient_.erase(it2);
 }
@@ -208,7 +208,7 @@ bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientAtTime(Time tim
 /// \brief return true if there is a coefficient with this key
 template <class Coefficient>
 bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientWithKey(Key key) const {
-  CoefficientIter it = keyToCoefficient_.find(key);
+  typename boost::unordered_map<Key, CoefficientIter>::const_iterator it = keyToCoefficient_.find(key);
   return it != keyToCoefficient_.end();
 }
 
-- 
2.43.0


From 8bf4cb9e30936a4ec446bf848d478841eeff13ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:41 +0000
Subject: [PATCH 10/20] fix: make the range and all-coefficient queries
 compile, also for an empty manager

---
 .../curves/LocalSupport2CoefficientManager-inl.hpp        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index f6749e5..ab57e80 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -277,7 +277,7 @@ template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     Time startTime, Time endTime, CoefficientMap* outCoefficients) const {
 
-  if (startTime <= endTime && startTime <= this->getMaxTime()
+  if (!timeToCoefficient_.empty() && startTime <= endTime && startTime <= this->getMaxTime()
       && endTime >= this->getMinTime()) {
     // be forgiving if start time is lower than definition of curve
     if (startTime < this->getMinTime()) {
@@ -293,10 +293,10 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     it--;
     // iterate through coefficients
     for (; it != timeToCoefficient_.end() && it->first < endTime; ++it) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
     if (it != timeToCoefficient_.end()) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
   }
 }
@@ -308,7 +308,7 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficients(CoefficientMa
   CoefficientIter it;
   it = timeToCoefficient_.begin();
   for( ; it != timeToCoefficient_.end(); ++it) {
-    (*outCoefficients)[it->second->key] = it->second->coefficient;
+    (*outCoefficients)[it->second.key] = it->second.coefficient;
   }
 }
 
-- 
2.43.0


From 0330d797d08c10d0592355c4d3ab093fac042c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:41 +0000
Subject: [PATCH 11/20] fix: include the first coefficient in the window query

---
 .../curves/LocalSupport2CoefficientManager-inl.hpp  | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index ab57e80..e96cd2b 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -80,16 +80,9 @@ void LocalSupport2CoefficientManager<Coefficient>::getTimesInWindow(std::vector<
   CHECK_NOTNULL(outTimes);
 
   outTimes->clear();
-  CoefficientIter it = --(timeToCoefficient_.end());
-
-  do {
-    if (it->first >= begTime) {
-      outTimes->push_back(it->first);
-    }
-    --it;
-  } while (it->first >= begTime && it != timeToCoefficient_.begin());
-
-  std::reverse(outTimes->begin(),outTimes->end());
+  for (CoefficientIter it = timeToCoefficient_.lower_bound(begTime); it != timeToCoefficient_.end(); ++it) {
+    outTimes->push_back(it->first);
+  }
 }
 
 template <class Coefficient>
-- 
2.43.0


From ccc1485133079ae604b5c4ba95cd4b6eaef626da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:41 +0000
Subject: [PATCH 12/20] fix: allow appending a coefficient to an empty manager

---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index e96cd2b..6bc62b5 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -143,12 +143,12 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficientsValuesInBat
 
 template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::addCoefficientAtEnd(Time time, const Coefficient& coefficient, std::vector<Key>* outKeys) {
-  CHECK(time > getMaxTime()) << "Time to add is not greater than curve max time";
+  CHECK(timeToCoefficient_.empty() || time > getMaxTime()) << "Time to add is not greater than curve max time";
 
   Key key = KeyGenerator::getNextKey();
 
   // Insert the coefficient with a hint that it goes at the end
-  CoefficientIter it = timeToCoefficient_.insert(--(timeToCoefficient_.end()),
+  CoefficientIter it = timeToCoefficient_.insert(timeToCoefficient_.end(),
                                                  std::pair<Time, KeyCoefficient>(time, KeyCoefficient(key, coefficient)));
 
   keyToCoefficient_.insert(keyToCoefficient_.end(), std::pair<Key, CoefficientIter>(key,it));
-- 
2.43.0


From d1ad7fd1d783bdb4e01bcd4e97c5e17896f87911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:41 +0000
Subject: [PATCH 13/20] fix: keep a coefficient that is modified without
 changing its time

---
 .../include/curves/LocalSupport2CoefficientManager-inl.hpp   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 6bc62b5..fbd9b95 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -160,6 +160,11 @@ void LocalSupport2CoefficientManager<Coefficient>::addCoefficientAtEnd(Time time
 template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficient(typename TimeToKeyCoefficientMap::iterator it,
                                                                      Time time, const Coefficient& coefficient) {
+  if (time == it->first) {
+    // Only the value changes.
+    it->second.coefficient = coefficient;
+    return;
+  }
   // This is used by slerp sampling policy.
   // In this case a new coefficient should be placed slightly later than the initial one.
   CoefficientIter newIt = timeToCoefficient_.insert(it,std::pair<Time, KeyCoefficient>(time, KeyCoefficient(it->second.key, coefficient)));
-- 
2.43.0


From ed81edefd4dee498ffeb4aaf70bd354109b7bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:41 +0000
Subject: [PATCH 14/20] fix: read the times of a CSV file from its first
 columns

---
 curves/src/helpers.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 1e8a580..8a6ca44 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -71,7 +71,7 @@ void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes->push_back((curves::Time)atof(it->at(1).c_str()));
+    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
@@ -120,8 +120,8 @@ void loadTimeTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outT
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes0->push_back((curves::Time)atof(it->at(1).c_str()));
-    outTimes1->push_back((curves::Time)atof(it->at(2).c_str()));
+    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
+    outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
-- 
2.43.0


From e356144ee959c34773dbdeee3c1518657f132159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:41 +0000
Subject: [PATCH 15/20] fix: replace the old knots when a cubic Hermite E3
 curve is fitted again

---
 curves/src/CubicHermiteE3Curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 60ad7d3..1a82b39 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -146,6 +146,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
                       const DerivativeType& finalDerivative,
                       std::vector<Key>* outKeys) {
   assert(times.size() == values.size());
+  clear();
 
   // construct the Hemrite coefficients
   std::vector<Coefficient> coefficients;
-- 
2.43.0


From 7d350adad19fa7a5d795a1ba5158c1ab5c08aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:41 +0000
Subject: [PATCH 16/20] fix: refuse to evaluate an empty cubic Hermite curve at
 time zero

---
 curves/src/CubicHermiteE3Curve.cpp  | 4 ++--
 curves/src/CubicHermiteSE3Curve.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 1a82b39..0270c96 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -184,7 +184,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
 /// Evaluate the ambient space of the curve.
 bool CubicHermiteE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-   if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+   if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
      value =  manager_.coefficientBegin()->second.coefficient.getPosition();
      return true;
    }
@@ -237,7 +237,7 @@ bool CubicHermiteE3Curve::evaluateDerivative(DerivativeType& derivative, Time ti
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-      if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+      if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
         derivative = manager_.coefficientBegin()->second.coefficient.getVelocity();
         return true;
       }
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index b1f9c28..ebfd539 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -194,7 +194,7 @@ void CubicHermiteSE3Curve::extend(const std::vector<Time>& /*times*/,
 
 bool CubicHermiteSE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-  if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+  if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
     value =  manager_.coefficientBegin()->second.coefficient.getTransformation();
     return true;
   }
@@ -273,7 +273,7 @@ bool CubicHermiteSE3Curve::evaluateDerivative(DerivativeType& derivative,
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-    if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+    if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
       derivative = manager_.coefficientBegin()->second.coefficient.getTransformationDerivative();
       return true;
     }
-- 
2.43.0


From a5004c942ab9a3b4c48c02691ad08897477d4ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:41 +0000
Subject: [PATCH 17/20] fix: take the slope at the seam of a periodic curve
 over the time across the seam

---
 curves/src/CubicHermiteE3Curve.cpp  | 2 +-
 curves/src/CubicHermiteSE3Curve.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 0270c96..4bde53d 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -136,7 +136,7 @@ void CubicHermiteE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    */
   const size_t nPoints = times.size();
   //TODO Add a check on nPoints which should be >= 2 otherwise that breaks.
-  DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  DerivativeType derivative = calculateSlope(times[nPoints-2] - times[nPoints-1], times[1] - times[0], values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index ebfd539..6c32d7a 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -153,7 +153,7 @@ void CubicHermiteSE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    *
    */
   const size_t nPoints = times.size();
-  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2] - times[nPoints-1], times[1] - times[0], values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
-- 
2.43.0


From 622e683691f0cb78a7f56e57369ed09a55b69956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:41 +0000
Subject: [PATCH 18/20] fix: refuse a trajectory message that lists no joints

---
 curves_ros/src/RosJointTrajectoryInterface.cpp                  | 2 +-
 curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp          | 2 +-
 .../src/RosMultiDOFJointTrajectoryTranslationInterface.cpp      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves_ros/src/RosJointTrajectoryInterface.cpp b/curves_ros/src/RosJointTrajectoryInterface.cpp
index 0998e76..146a1a0 100644
--- a/curves_ros/src/RosJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosJointTrajectoryInterface.cpp
@@ -31,8 +31,8 @@ bool RosJointTrajectoryInterface::fromMessage(const trajectory_msgs::JointTrajec
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticScalarCurve::ValueType> values;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
index dceae8e..e4eff81 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
@@ -34,8 +34,8 @@ bool RosMultiDOFJointTrajectoryInterface::fromMessage(
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<CubicHermiteSE3Curve::ValueType> values;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
index 8961923..00dbe0c 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
@@ -31,8 +31,8 @@ bool RosMultiDOFJointTrajectoryTranslationInterface::fromMessage(
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticVector3Curve::ValueType> values;
-- 
2.43.0


From 21a6a57d9d531a9448ba7f87754f27c62a283999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:40 +0000
Subject: [PATCH 19/20] fix: give a copied coefficient manager keys of its own

The key map holds iterators into the time map; the default copy kept iterators into the map of the source, so looking up or
changing a coefficient of a copy by its key reached into the source, also after it was gone.
---
 .../LocalSupport2CoefficientManager-inl.hpp    | 18 ++++++++++++++++++
 .../curves/LocalSupport2CoefficientManager.hpp |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index fbd9b95..5b0e04d 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -19,6 +19,24 @@ template <class Coefficient>
 LocalSupport2CoefficientManager<Coefficient>::LocalSupport2CoefficientManager() {
 }
 
+template <class Coefficient>
+LocalSupport2CoefficientManager<Coefficient>::LocalSupport2CoefficientManager(const LocalSupport2CoefficientManager& other) {
+  *this = other;
+}
+
+template <class Coefficient>
+LocalSupport2CoefficientManager<Coefficient>& LocalSupport2CoefficientManager<Coefficient>::operator=(
+    const LocalSupport2CoefficientManager& other) {
+  if (this != &other) {
+    timeToCoefficient_ = other.timeToCoefficient_;
+    keyToCoefficient_.clear();
+    for (CoefficientIter it = timeToCoefficient_.begin(); it != timeToCoefficient_.end(); ++it) {
+      keyToCoefficient_[it->second.key] = it;
+    }
+  }
+  return *this;
+}
+
 template <class Coefficient>
 LocalSupport2CoefficientManager<Coefficient>::~LocalSupport2CoefficientManager() {
 }
diff --git a/curves/include/curves/LocalSupport2CoefficientManager.hpp b/curves/include/curves/LocalSupport2CoefficientManager.hpp
index 1e769d4..9ab81bb 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager.hpp
@@ -50,6 +50,9 @@ class LocalSupport2CoefficientManager {
   typedef boost::unordered_map<size_t, Coefficient> CoefficientMap;
 
   LocalSupport2CoefficientManager();
+  /// Copies own their coefficients: the keys of a copy refer to the coefficients of the copy.
+  LocalSupport2CoefficientManager(const LocalSupport2CoefficientManager& other);
+  LocalSupport2CoefficientManager& operator=(const LocalSupport2CoefficientManager& other);
   virtual ~LocalSupport2CoefficientManager();
 
   /// Compare this Coefficient manager with another for equality.
-- 
2.43.0


From 6dec3bee86e458aade0a35ee6d40ac11fdecc1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:09 +0000
Subject: [PATCH 20/20] fix: name only the written columns in the header of an
 evaluated E3 curve

---
 curves/src/CubicHermiteE3Curve.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 4bde53d..da25b54 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -48,9 +48,7 @@ bool CubicHermiteE3Curve::writeEvalToFile(const std::string& filename, int nSamp
   }
   fprintf(fp, "t ");
   fprintf(fp, "px py pz ");
-  fprintf(fp, "rw rx ry rz ");
   fprintf(fp, "vx vy vz ");
-  fprintf(fp, "wx wy wz ");
   fprintf(fp, "\n");
 
   Time dt = (getMaxTime()-getMinTime())/(nSamples-1);
-- 
2.43.0

