From 9983283ddb52efb9f9125388242d9f4e31914e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:29 +0000
Subject: [PATCH 01/18] fix: blas1::fill with ordinals visits exactly the
 listed ordinals

---
 src/BLAS1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BLAS1.hpp b/src/BLAS1.hpp
index b77afa6..327bcdc 100644
--- a/src/BLAS1.hpp
+++ b/src/BLAS1.hpp
@@ -156,7 +156,7 @@ inline void fill(const Plato::Scalar & aMultiplier,
         THROWERR(tMsg.str().c_str())
     }
 
-    const Plato::OrdinalType tNumLocalVals = aOutput.size();
+    const Plato::OrdinalType tNumLocalVals = aOrdinals.size();
     Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumLocalVals), LAMBDA_EXPRESSION(const Plato::OrdinalType & aIndex)
     {
         aOutput(aOrdinals(aIndex)) = aMultiplier * aValues(aIndex);
-- 
2.43.0


From d15284ef98d13134d12061bd61109b1d7b0ac51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:29 +0000
Subject: [PATCH 02/18] fix: getDataAsNonBlock read one entry past the end of
 the row map

---
 src/PlatoMathHelpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PlatoMathHelpers.hpp b/src/PlatoMathHelpers.hpp
index 58d05f5..c424987 100644
--- a/src/PlatoMathHelpers.hpp
+++ b/src/PlatoMathHelpers.hpp
@@ -210,7 +210,7 @@ getDataAsNonBlock( const Teuchos::RCP<Plato::CrsMatrixType>       & aMatrix,
             auto tBlockRowIndex = tMatrixRowIndex / tNumRowsPerBlock;
             auto tLocalRowIndex = tMatrixRowIndex % tNumRowsPerBlock;
             auto tFrom = tRowMap(tBlockRowIndex);
-            auto tTo   = tRowMap(tBlockRowIndex+1);
+            auto tTo   = (tMatrixRowIndex < tNumMatrixRows) ? tRowMap(tBlockRowIndex+1) : tFrom;
             auto tBlockRowSize = tTo - tFrom;
             aMatrixRowMap(tMatrixRowIndex) = tFrom * tBlockSize + tLocalRowIndex * tBlockRowSize * tNumColsPerBlock;
         });
@@ -221,7 +221,7 @@ getDataAsNonBlock( const Teuchos::RCP<Plato::CrsMatrixType>       & aMatrix,
             auto tBlockRowIndex = tMatrixRowIndex / aRowStride;
             auto tLocalRowIndex = tMatrixRowIndex % aRowStride;
             auto tFrom = tRowMap(tBlockRowIndex);
-            auto tTo   = tRowMap(tBlockRowIndex+1);
+            auto tTo   = (tMatrixRowIndex < tNumMatrixRows) ? tRowMap(tBlockRowIndex+1) : tFrom;
             auto tBlockRowSize = tTo - tFrom;
             aMatrixRowMap(tMatrixRowIndex) = tFrom * aRowStride * tNumColsPerBlock + tLocalRowIndex * tBlockRowSize * tNumColsPerBlock;
         });
-- 
2.43.0


From aaf1805b7b7cbefa047fb2c4a0adb565bfe362d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:01 +0000
Subject: [PATCH 03/18] fix: shear strains are computed, not accumulated onto
 stale output

---
 src/ComplexStrain.hpp | 1 +
 src/EMKinematics.hpp  | 1 +
 src/Kinematics.hpp    | 1 +
 src/Strain.hpp        | 1 +
 src/TMKinematics.hpp  | 2 ++
 5 files changed, 6 insertions(+)

diff --git a/src/ComplexStrain.hpp b/src/ComplexStrain.hpp
index d387980..5f6d220 100644
--- a/src/ComplexStrain.hpp
+++ b/src/ComplexStrain.hpp
@@ -58,6 +58,7 @@ public:
             {
                 for (Plato::OrdinalType tIndexI=tIndexJ-1; tIndexI>=0; tIndexI--)
                 {
+                    aStrain(aCellOrdinal, tComplexIndex, tVoigtTerm) = 0.0;
                     for( Plato::OrdinalType tNodeIndex=0; tNodeIndex < tNumNodesPerCell; tNodeIndex++)
                     {
                         Plato::OrdinalType tCellDofI = (tNodeIndex * NumDofsPerNode) + ((SpaceDim * tComplexIndex) + tIndexI);
diff --git a/src/EMKinematics.hpp b/src/EMKinematics.hpp
index 2926a42..711cab6 100644
--- a/src/EMKinematics.hpp
+++ b/src/EMKinematics.hpp
@@ -46,6 +46,7 @@ class EMKinematics : public Plato::SimplexElectromechanics<SpaceDim>
       }
       for (Plato::OrdinalType jDof=SpaceDim-1; jDof>=1; jDof--){
         for (Plato::OrdinalType iDof=jDof-1; iDof>=0; iDof--){
+          strain(cellOrdinal,voigtTerm) = 0.0;
           for( Plato::OrdinalType iNode=0; iNode<mNumNodesPerCell; iNode++){
             Plato::OrdinalType iLocalOrdinal = iNode*mNumDofsPerNode+iDof;
             Plato::OrdinalType jLocalOrdinal = iNode*mNumDofsPerNode+jDof;
diff --git a/src/Kinematics.hpp b/src/Kinematics.hpp
index 1dea873..45562bc 100644
--- a/src/Kinematics.hpp
+++ b/src/Kinematics.hpp
@@ -58,6 +58,7 @@ public:
         {
             for(Plato::OrdinalType tDofI = tDofJ - 1; tDofI >= 0; tDofI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     Plato::OrdinalType tLocalOrdinalI = tNodeIndex * mNumDofsPerNode + tDofI;
diff --git a/src/Strain.hpp b/src/Strain.hpp
index 7956e2f..6f65b2e 100644
--- a/src/Strain.hpp
+++ b/src/Strain.hpp
@@ -82,6 +82,7 @@ public:
         {
             for(Plato::OrdinalType tDofIndexI = tDofIndexJ - 1; tDofIndexI >= 0; tDofIndexI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     auto tLocalOrdinalI = tNodeIndex * NumDofsPerNode + tDofIndexI;
diff --git a/src/TMKinematics.hpp b/src/TMKinematics.hpp
index 7e1f6c6..06b64d2 100644
--- a/src/TMKinematics.hpp
+++ b/src/TMKinematics.hpp
@@ -50,6 +50,7 @@ public:
         {
             for(Plato::OrdinalType tDofIndexI = tDofIndexJ - 1; tDofIndexI >= 0; tDofIndexI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     Plato::OrdinalType tLocalOrdinalI = tNodeIndex * mNumDofsPerNode + tDofIndexI;
@@ -124,6 +125,7 @@ public:
         {
             for(Plato::OrdinalType tDofIndexI = tDofIndexJ - 1; tDofIndexI >= 0; tDofIndexI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     Plato::OrdinalType tLocalOrdinalI = tNodeIndex * mNumDofsPerNode + tDofIndexI;
-- 
2.43.0


From 402764fb6087df74df2c51006d4ae32d8cc52f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:32 +0000
Subject: [PATCH 04/18] fix: penalty models use the default for an input the
 parameter map does not hold

setParameters dereferenced the end iterator when a key was missing, and Heaviside stored the
regularization length as the minimum value.
---
 src/Heaviside.hpp | 22 +++++++++++++++++-----
 src/Ramp.hpp      | 15 ++++++++++++---
 src/Simp.hpp      | 15 ++++++++++++---
 3 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/Heaviside.hpp b/src/Heaviside.hpp
index 4aad7d5..8f69853 100644
--- a/src/Heaviside.hpp
+++ b/src/Heaviside.hpp
@@ -78,28 +78,40 @@ public:
         {
             mPenaltyParam = 1.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Regularization Length");
         if(tParamMapIterator == aInputs.end())
         {
-            mMinValue = 1.0; // default value
+            mRegLength = 1.0; // default value
+        }
+        else
+        {
+            mRegLength = tParamMapIterator->second;
         }
-        mMinValue = tParamMapIterator->second;
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
diff --git a/src/Ramp.hpp b/src/Ramp.hpp
index 6d593b6..1ef9078 100644
--- a/src/Ramp.hpp
+++ b/src/Ramp.hpp
@@ -69,21 +69,30 @@ public:
         {
             mPenaltyParam = 3.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
diff --git a/src/Simp.hpp b/src/Simp.hpp
index afdd661..23d46c9 100644
--- a/src/Simp.hpp
+++ b/src/Simp.hpp
@@ -77,21 +77,30 @@ public:
         {
             mPenaltyParam = 3.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
-- 
2.43.0


From d0a084cd3da34a77ece65a81f5f093e82fb7e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:32 +0000
Subject: [PATCH 05/18] fix: tensor norms keep a fractional exponent

The functors took the exponent as an integer while postEvaluate applied the root with the real one, and an
integer 'Barlat Exponent' was read with the wrong type.
---
 src/TensorPNorm.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index 5b8b7e7..4f12d27 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -29,7 +29,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
 
@@ -81,7 +81,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
 
@@ -128,7 +128,7 @@ public:
         auto p = params.sublist("Normalize").sublist("Barlat");
         if(p.isType < Plato::OrdinalType > ("Barlat Exponent"))
         {
-            mBarlatExponent = p.get<Plato::Scalar>("Barlat Exponent");
+            mBarlatExponent = p.get<Plato::OrdinalType>("Barlat Exponent");
         }
         if(p.isType<Plato::Scalar>("Reference Weight"))
         {
@@ -182,7 +182,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
         TensorScalarType s[barlatLength] = {0.0};
-- 
2.43.0


From dd1250703d82ca0a1c308a5a443158b59221c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:32 +0000
Subject: [PATCH 06/18] fix: one-dimensional temperature dependent isotropic
 stiffness divides by (1+v)(1-2v)

---
 src/IsotropicStiffness.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/IsotropicStiffness.cpp b/src/IsotropicStiffness.cpp
index 6bdad7d..aaaf5b7 100644
--- a/src/IsotropicStiffness.cpp
+++ b/src/IsotropicStiffness.cpp
@@ -14,9 +14,9 @@ namespace Plato {
       T E1 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c1", 0.0);
       T E2 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c2", 0.0);
 
-      c0[0][0] = E0*((1.0+v)*(1.0-2.0*v))*(1.0-v);
-      c1[0][0] = E1*((1.0+v)*(1.0-2.0*v))*(1.0-v);
-      c2[0][0] = E2*((1.0+v)*(1.0-2.0*v))*(1.0-v);
+      c0[0][0] = E0/((1.0+v)*(1.0-2.0*v))*(1.0-v);
+      c1[0][0] = E1/((1.0+v)*(1.0-2.0*v))*(1.0-v);
+      c2[0][0] = E2/((1.0+v)*(1.0-2.0*v))*(1.0-v);
   }
 
   template<>
-- 
2.43.0


From 75b0d637f663044b394ad3c063a37f92066974f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:32 +0000
Subject: [PATCH 07/18] fix: two-dimensional eigenvalues with a negative
 off-diagonal entry

---
 src/Eigenvalues.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Eigenvalues.hpp b/src/Eigenvalues.hpp
index 62a23e4..bc591be 100644
--- a/src/Eigenvalues.hpp
+++ b/src/Eigenvalues.hpp
@@ -194,7 +194,7 @@ Eigenvalues<2>::operator()(const Plato::OrdinalType & aCellOrdinal,
     ResultType tTensor11 = aVoigtTensor(aCellOrdinal, 0);
     ResultType tTensor22 = aVoigtTensor(aCellOrdinal, 1);
     ResultType tTau = tZero;
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tTau = (tTensor22 - tTensor11) / (tTwo * tTensor12);
 
     ResultType tTangent = tMinusOne / (sqrt(tOne + tTau*tTau) - tTau);
@@ -203,9 +203,9 @@ Eigenvalues<2>::operator()(const Plato::OrdinalType & aCellOrdinal,
 
     ResultType tCosine = tOne;
     ResultType tSine   = tZero;
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tCosine = tOne / sqrt(tOne + tTangent*tTangent);
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tSine   = tTangent * tCosine;
 
     aEigenvalues(aCellOrdinal, 0) = tCosine * (tTensor11*tCosine - tTensor12*tSine) -
-- 
2.43.0


From 1b868eacf4cb85fc8c517c9678e3843e5217bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:32 +0000
Subject: [PATCH 08/18] fix: one-dimensional Voigt map points at the only
 tensor entry

---
 src/VoigtMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VoigtMap.hpp b/src/VoigtMap.hpp
index 0fd3aa0..de52cf9 100644
--- a/src/VoigtMap.hpp
+++ b/src/VoigtMap.hpp
@@ -10,7 +10,7 @@ namespace Plato {
   struct VoigtMap<1> {
     Plato::OrdinalType I[1];
     Plato::OrdinalType J[1];
-    VoigtMap() : I{1}, J{1} {}
+    VoigtMap() : I{0}, J{0} {}
   };
   template<>
   struct VoigtMap<2> {
-- 
2.43.0


From ca667458348d1527c445e218ef5ab5cc7cd32a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:44 +0000
Subject: [PATCH 09/18] fix: each argument of pow(a,b) is a full expression

---
 src/ExpressionEvaluator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 983b20b..7571218 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -717,7 +717,9 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     else if( c == ',' ) {
       if( twoParamFunctionIDs.size() )
       {
-        node.ID = twoParamFunctionIDs.back();  node.precedence = 5;  info = LeftAssociative;
+        // Lower precedence than every operator so that each argument is
+        // a full expression, e.g. pow(a+b,c+d).
+        node.ID = twoParamFunctionIDs.back();  node.precedence = 1;  info = LeftAssociative;
         twoParamFunctionIDs.pop_back();
         twoParamFunctionLocations.pop_back();
       }
-- 
2.43.0


From 1fee9d88413e8de4e83c87909c142f83a4b0175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:57 +0000
Subject: [PATCH 10/18] fix: a variable may start with the name of a function
 or constant

---
 src/ExpressionEvaluator.cpp | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 7571218..7b7caad 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -362,6 +362,24 @@ double ExpressionEvaluator::evaluate_expression() const
   return evaluateNode( mTree );
 }
 
+// ************************************************************************* //
+// Helper: the text starts with the name of a function or a constant, and
+// not with a longer variable name such as 'expo' or 'cost'.
+static bool isKeyword( const char* text, const char* name )
+{
+  const size_t len = strlen( name );
+
+  if( strncmp( text, name, len ) != 0 )
+    return false;
+
+  const char c = text[len];
+
+  return !( ('a' <= c && c <= 'z') ||
+            ('A' <= c && c <= 'Z') ||
+            ('0' <= c && c <= '9') ||
+            c == '_' );
+}
+
 // ************************************************************************* //
 // Insert the node into the tree.
 ExpressionEvaluator::Node*
@@ -672,32 +690,32 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     }
 
     // Functions
-    else if( 0 == memcmp(expPtr-1, "sin" , 3) ) {
+    else if( isKeyword(expPtr-1, "sin") ) {
       expPtr += 3-1;
       node.ID = SIN;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "cos" , 3) ) {
+    else if( isKeyword(expPtr-1, "cos") ) {
       expPtr += 3-1;
       node.ID = COS;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "tan" , 3) ) {
+    else if( isKeyword(expPtr-1, "tan") ) {
       expPtr += 3-1;
       node.ID = TAN;  node.precedence = 7;  info = LeftAssociative;
     }
 
-    else if( 0 == memcmp(expPtr-1, "exp" , 3) ) {
+    else if( isKeyword(expPtr-1, "exp") ) {
       expPtr += 3-1;
       node.ID = EXPONENTIAL;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "log" , 3) ) {
+    else if( isKeyword(expPtr-1, "log") ) {
       expPtr += 3-1;
       node.ID = LOG;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "sqrt", 3) ) {
+    else if( isKeyword(expPtr-1, "sqrt") ) {
       expPtr += 4-1;
       node.ID = SQRT;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "abs" , 3) ) {
+    else if( isKeyword(expPtr-1, "abs") ) {
       expPtr += 3-1;
       node.ID = ABS;  node.precedence = 7;  info = LeftAssociative;
     }
@@ -705,7 +723,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     // For two argument functions push the function on to the next ID
     // stack. But do not create a node. The node will be created when
     // the corresponding comma is found.
-    else if( 0 == memcmp(expPtr-1, "pow" , 3) ) {
+    else if( isKeyword(expPtr-1, "pow") ) {
       expPtr += 3-1; twoParamFunctionIDs.push_back( POWER );
       twoParamFunctionLocations.push_back( strlen(expression) - strlen(expPtr) - 1 );
 
@@ -731,7 +749,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
       }
     }
     // Fixed constant
-    else if( 0 == memcmp(expPtr-1, "PI"  , 2) ) {
+    else if( isKeyword(expPtr-1, "PI") ) {
       expPtr += 2-1;
       node.ID = NUMBER;  node.precedence = 7;  info = LeftAssociative;
       node.number = M_PI;
-- 
2.43.0


From ffae787e7785026c6b2ec355599f2d25896c39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:57 +0000
Subject: [PATCH 11/18] fix: MSIMP evaluates its result before the operands go
 out of scope

---
 src/Simp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simp.hpp b/src/Simp.hpp
index 23d46c9..75054ea 100644
--- a/src/Simp.hpp
+++ b/src/Simp.hpp
@@ -138,7 +138,7 @@ public:
     template<typename ScalarType>
     DEVICE_TYPE inline ScalarType operator()( const ScalarType & aInput ) const
     {
-        auto tOutput = mMinValue + ( (static_cast<ScalarType>(1.0) - mMinValue) * pow(aInput, mPenaltyParam) );
+        ScalarType tOutput = mMinValue + ( (static_cast<ScalarType>(1.0) - mMinValue) * pow(aInput, mPenaltyParam) );
         return tOutput;
     }
 };
-- 
2.43.0


From 0a8164ce24025fce2c55cf6b3fc479195bebf15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:33 +0000
Subject: [PATCH 12/18] fix: a component natural load is checked against the
 number of loaded unknowns

setUniformComponentNaturalBC tested DofsPerNode before writing component y or
z of a flux vector that has NumDofs entries, so a load on fewer unknowns than
the node has (e.g. <2,2,3,0> 'z', <3,1,4,3> 'y') wrote past its end.
---
 src/NaturalBCs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NaturalBCs.hpp b/src/NaturalBCs.hpp
index 43a3665..1ab2059 100644
--- a/src/NaturalBCs.hpp
+++ b/src/NaturalBCs.hpp
@@ -279,12 +279,12 @@ NaturalBCs<SpatialDim, NumDofs, DofsPerNode, DofOffset>::setUniformComponentNatu
         tFluxVector[0] = tValue;
     }
     else
-    if( (tFluxComponent == "y" || tFluxComponent == "Y") && DofsPerNode > 1 )
+    if( (tFluxComponent == "y" || tFluxComponent == "Y") && NumDofs > 1 )
     {
         tFluxVector[1] = tValue;
     }
     else
-    if( (tFluxComponent == "z" || tFluxComponent == "Z") && DofsPerNode > 2 )
+    if( (tFluxComponent == "z" || tFluxComponent == "Z") && NumDofs > 2 )
     {
         tFluxVector[2] = tValue;
     }
-- 
2.43.0


From fc6135d1aad274305fafff27ca53b1a7f67c6295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:57 +0000
Subject: [PATCH 13/18] fix: use the given Alpha of a 1D or 2D electroelastic
 material

The constructors stored the result of isType() (true, i.e. 1.0) instead of the value, so any Alpha from the input was ignored; the 3D constructor was right.
---
 src/LinearElectroelasticMaterial.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinearElectroelasticMaterial.cpp b/src/LinearElectroelasticMaterial.cpp
index 0a69c58..ccabbd7 100644
--- a/src/LinearElectroelasticMaterial.cpp
+++ b/src/LinearElectroelasticMaterial.cpp
@@ -10,7 +10,7 @@ LinearElectroelasticMaterial<1>()
 /******************************************************************************/
 {
     if (paramList.isType<Plato::Scalar>("Alpha")){
-      mAlpha = paramList.isType<Plato::Scalar>("Alpha");
+      mAlpha = paramList.get<Plato::Scalar>("Alpha");
     }
 
     Plato::Scalar v = paramList.get<Plato::Scalar>("Poissons Ratio");
@@ -30,7 +30,7 @@ LinearElectroelasticMaterial<2>()
 /******************************************************************************/
 {
     if (paramList.isType<Plato::Scalar>("Alpha")){
-      mAlpha = paramList.isType<Plato::Scalar>("Alpha");
+      mAlpha = paramList.get<Plato::Scalar>("Alpha");
     }
 
     Plato::Scalar v = paramList.get<Plato::Scalar>("Poissons Ratio");
-- 
2.43.0


From bf77a5a81cdcebd52ed1b04bb02e3596f9a5d3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:57 +0000
Subject: [PATCH 14/18] fix: read an anisotropic thermoelastic stiffness from
 its own list

parseRank4Voigt() looks up the named sublist itself; it was handed the sublist, so a stiffness given by its coefficients was always reported as missing.
---
 src/ThermoelasticMaterial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermoelasticMaterial.hpp b/src/ThermoelasticMaterial.hpp
index e797a1d..ce259b0 100644
--- a/src/ThermoelasticMaterial.hpp
+++ b/src/ThermoelasticMaterial.hpp
@@ -54,7 +54,7 @@ namespace Plato {
       }
       else
       {
-          this->parseRank4Voigt("Elastic Stiffness", tParams);
+          this->parseRank4Voigt("Elastic Stiffness", paramList);
       }
   }
 
-- 
2.43.0


From adf78f1c87483641a1eb2531586fb0a3dddc4ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:57 +0000
Subject: [PATCH 15/18] fix: keep a fractional exponent of the flux p-norm

The exponent is read as a real number but was stored and passed on as an ordinal, so that 2.5 acted as 2.
---
 src/VectorPNorm.hpp        | 2 +-
 src/elliptic/FluxPNorm.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/VectorPNorm.hpp b/src/VectorPNorm.hpp
index 9966e6e..315af0f 100644
--- a/src/VectorPNorm.hpp
+++ b/src/VectorPNorm.hpp
@@ -22,7 +22,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType aCellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> aPnorm,
                                        Plato::ScalarMultiVectorT<VectorScalarType> aArgVector,
-                                       Plato::OrdinalType aPvalue,
+                                       Plato::Scalar aPvalue,
                                        Plato::ScalarVectorT<VolumeScalarType> aCellVolume) const
     {
 
diff --git a/src/elliptic/FluxPNorm.hpp b/src/elliptic/FluxPNorm.hpp
index 7ad4c0a..124556a 100644
--- a/src/elliptic/FluxPNorm.hpp
+++ b/src/elliptic/FluxPNorm.hpp
@@ -52,7 +52,7 @@ class FluxPNorm :
     std::shared_ptr<Plato::LinearTetCubRuleDegreeOne<SpaceDim>> mCubatureRule;
     Teuchos::RCP<Plato::MaterialModel<SpaceDim>> mMaterialModel;
 
-    Plato::OrdinalType mExponent;
+    Plato::Scalar mExponent;
 
   public:
     /**************************************************************************/
-- 
2.43.0


From c63966b010c7e57974e3a05a48cfef19bb3040a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:54 +0000
Subject: [PATCH 16/18] fix: use the temperature in the conductivity of the
 heat equation

---
 src/parabolic/HeatEquationResidual.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parabolic/HeatEquationResidual.hpp b/src/parabolic/HeatEquationResidual.hpp
index bf3e0bc..f0f2bd2 100644
--- a/src/parabolic/HeatEquationResidual.hpp
+++ b/src/parabolic/HeatEquationResidual.hpp
@@ -157,7 +157,8 @@ class HeatEquationResidual :
     
         // compute flux
         //
-        tThermalFlux(tCellOrdinal, tFlux, tGrad);
+        tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aState, tTemperature);
+        tThermalFlux(tCellOrdinal, tFlux, tGrad, tTemperature);
     
         // apply weighting
         //
@@ -169,10 +170,9 @@ class HeatEquationResidual :
 
         // add capacitance terms
         
-        // compute temperature at gausspoints
+        // compute temperature rate at gausspoints
         //
         tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aStateDot, tTemperatureRate);
-        tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aState,    tTemperature    );
 
         // compute the time rate of internal thermal energy
         //
-- 
2.43.0


From 3ea3c98ad8e8046972fadccf2f97a422913f7afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:54 +0000
Subject: [PATCH 17/18] fix: use the temperature in the conductivity of the
 thermal criteria

---
 src/elliptic/FluxPNorm.hpp              | 10 +++++++++-
 src/elliptic/InternalThermalEnergy.hpp  | 12 +++++++++++-
 src/parabolic/InternalThermalEnergy.hpp | 10 +++++++++-
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/elliptic/FluxPNorm.hpp b/src/elliptic/FluxPNorm.hpp
index 124556a..dc7b2b8 100644
--- a/src/elliptic/FluxPNorm.hpp
+++ b/src/elliptic/FluxPNorm.hpp
@@ -11,6 +11,7 @@
 #include "SimplexFadTypes.hpp"
 #include "ThermalConductivityMaterial.hpp"
 #include "ImplicitFunctors.hpp"
+#include "InterpolateFromNodal.hpp"
 #include "Simp.hpp"
 #include "Ramp.hpp"
 #include "Heaviside.hpp"
@@ -94,6 +95,8 @@ class FluxPNorm :
       Plato::ThermalFlux<SpaceDim>            thermalFlux(mMaterialModel);
       Plato::VectorPNorm<SpaceDim>            vectorPNorm;
 
+      Plato::InterpolateFromNodal<SpaceDim, Plato::SimplexThermal<SpaceDim>::mNumDofsPerNode> interpolateFromNodal;
+
       using GradScalarType =
         typename Plato::fad_type_t<Plato::SimplexThermal<EvaluationType::SpatialDim>,StateScalarType, ConfigScalarType>;
 
@@ -109,7 +112,11 @@ class FluxPNorm :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tflux("thermal flux",numCells,SpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        temperature("Gauss point temperature",numCells);
+
       auto tQuadratureWeight = mCubatureRule->getCubWeight();
+      auto basisFunctions    = mCubatureRule->getBasisFunctions();
       auto& applyWeighting  = mApplyWeighting;
       auto exponent         = mExponent;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0,numCells), LAMBDA_EXPRESSION(const int & aCellOrdinal)
@@ -123,7 +130,8 @@ class FluxPNorm :
 
         // compute flux
         //
-        thermalFlux(aCellOrdinal, tflux, tgrad);
+        interpolateFromNodal(aCellOrdinal, basisFunctions, aState, temperature);
+        thermalFlux(aCellOrdinal, tflux, tgrad, temperature);
 
         // apply weighting
         //
diff --git a/src/elliptic/InternalThermalEnergy.hpp b/src/elliptic/InternalThermalEnergy.hpp
index 66990cc..6b5e7f5 100644
--- a/src/elliptic/InternalThermalEnergy.hpp
+++ b/src/elliptic/InternalThermalEnergy.hpp
@@ -10,6 +10,8 @@
 #include "SimplexThermal.hpp"
 #include "SimplexFadTypes.hpp"
 #include "ImplicitFunctors.hpp"
+#include "InterpolateFromNodal.hpp"
+#include "LinearTetCubRuleDegreeOne.hpp"
 #include "ThermalConductivityMaterial.hpp"
 #include "Simp.hpp"
 #include "Ramp.hpp"
@@ -108,6 +110,10 @@ class InternalThermalEnergy :
       Plato::ScalarProduct<mSpaceDim>          tComputeScalarProduct;
       Plato::ThermalFlux<mSpaceDim>            tComputeThermalFlux(mMaterialModel);
 
+      Plato::InterpolateFromNodal<mSpaceDim, Plato::SimplexThermal<mSpaceDim>::mNumDofsPerNode> tInterpolateFromNodal;
+      Plato::LinearTetCubRuleDegreeOne<mSpaceDim> tCubatureRule;
+      auto tBasisFunctions = tCubatureRule.getBasisFunctions();
+
       using GradScalarType =
         typename Plato::fad_type_t<Plato::SimplexThermal<EvaluationType::SpatialDim>, StateScalarType, ConfigScalarType>;
 
@@ -123,6 +129,9 @@ class InternalThermalEnergy :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tThermalFlux("thermal flux", tNumCells, mSpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        tTemperature("Gauss point temperature", tNumCells);
+
       auto tQuadratureWeight = mQuadratureWeight;
       auto tApplyWeighting  = mApplyWeighting;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0, tNumCells), LAMBDA_EXPRESSION(const Plato::OrdinalType & aCellOrdinal)
@@ -136,7 +145,8 @@ class InternalThermalEnergy :
 
         // compute flux
         //
-        tComputeThermalFlux(aCellOrdinal, tThermalFlux, tThermalGrad);
+        tInterpolateFromNodal(aCellOrdinal, tBasisFunctions, aState, tTemperature);
+        tComputeThermalFlux(aCellOrdinal, tThermalFlux, tThermalGrad, tTemperature);
 
         // apply weighting
         //
diff --git a/src/parabolic/InternalThermalEnergy.hpp b/src/parabolic/InternalThermalEnergy.hpp
index e38d4eb..9f6dc16 100644
--- a/src/parabolic/InternalThermalEnergy.hpp
+++ b/src/parabolic/InternalThermalEnergy.hpp
@@ -7,6 +7,7 @@
 #include "ApplyWeighting.hpp"
 #include "SimplexThermal.hpp"
 #include "ImplicitFunctors.hpp"
+#include "InterpolateFromNodal.hpp"
 #include "ThermalConductivityMaterial.hpp"
 #include "parabolic/ParabolicSimplexFadTypes.hpp"
 #include "parabolic/AbstractScalarFunction.hpp"
@@ -98,6 +99,8 @@ class InternalThermalEnergy :
       Plato::ThermalFlux<mSpaceDim>            thermalFlux(mThermalConductivityMaterialModel);
       Plato::ScalarProduct<mSpaceDim>          scalarProduct;
 
+      Plato::InterpolateFromNodal<mSpaceDim, Plato::SimplexThermal<mSpaceDim>::mNumDofsPerNode> interpolateFromNodal;
+
       using GradScalarType =
         typename Plato::fad_type_t<Plato::SimplexThermal<EvaluationType::SpatialDim>, StateScalarType, ConfigScalarType>;
 
@@ -113,7 +116,11 @@ class InternalThermalEnergy :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tflux("thermal flux", tNumCells,mSpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        temperature("Gauss point temperature", tNumCells);
+
       auto tQuadratureWeight = mCubatureRule->getCubWeight();
+      auto basisFunctions    = mCubatureRule->getBasisFunctions();
       auto applyWeighting  = mApplyWeighting;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0, tNumCells), LAMBDA_EXPRESSION(const int & aCellOrdinal)
       {
@@ -126,7 +133,8 @@ class InternalThermalEnergy :
 
         // compute flux
         //
-        thermalFlux(aCellOrdinal, tflux, tgrad);
+        interpolateFromNodal(aCellOrdinal, basisFunctions, aState, temperature);
+        thermalFlux(aCellOrdinal, tflux, tgrad, temperature);
 
         // apply weighting
         //
-- 
2.43.0


From f967136a77dd1844904f2927361f379101465add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:54 +0000
Subject: [PATCH 18/18] fix: weight the temperature criterion by the cell
 volume

---
 src/parabolic/TemperatureAverage.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parabolic/TemperatureAverage.hpp b/src/parabolic/TemperatureAverage.hpp
index 8b72789..b5a9eb1 100644
--- a/src/parabolic/TemperatureAverage.hpp
+++ b/src/parabolic/TemperatureAverage.hpp
@@ -98,6 +98,7 @@ class TemperatureAverage :
       {
         ConfigScalarType tCellVolume(0.0);
         tComputeCellVolume(aCellOrdinal, aConfig, tCellVolume);
+        tCellVolume *= quadratureWeight;
 
         // compute temperature at Gauss points
         //
-- 
2.43.0

