From 27280830e6b7343f9b481787705863d55bd74a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 01/14] fix: remove the steps that are no longer previewed from
 the QP variable

When move is set to false during a double support, or when the step period
grows, updateTimeline previews less steps than the variable holds. The
variable was kept too large (an empty preview kept one step), so that its size
did not match the matrices of the constraints.
---
 src/humanoid_feet_supervisor.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 53324bf..20e93c4 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -526,18 +526,24 @@ namespace MPCWalkgen
       {
         enlargeStepVec(variable);
       }
-      // When the user set move_ to false this checks if the QP variable size must be reduce.
-      if(!move_ && (variable.rows() > 2*nbSamples_ + 2))
-      {
-        variable(2*nbSamples_ + 1) = variable(variable.rows()/2 + nbSamples_);
-        variable.conservativeResize(2*nbSamples_ + 2);
-      }
 
       // Decrementing timers
       phaseTimer_ -= samplingPeriod_;
       horizonTimer_ -= samplingPeriod_;
     }
 
+    // When less steps are previewed than before (because move_ was set to false, the step period
+    // was increased or the number of samples was decreased), the QP variable size must be reduced.
+    const int oldNbOfSteps = variable.rows()/2 - nbSamples_;
+    if(oldNbOfSteps > nbPreviewedSteps_)
+    {
+      for(int i=0; i<nbPreviewedSteps_; ++i)
+      {
+        variable(2*nbSamples_ + nbPreviewedSteps_ + i) = variable(2*nbSamples_ + oldNbOfSteps + i);
+      }
+      variable.conservativeResize(2*nbSamples_ + 2*nbPreviewedSteps_);
+    }
+
     //Removing useless phases
     timeline_.set_capacity(phaseIndex + 1);
 
-- 
2.43.0


From 2b4dafc2628f220d7f6197335a17d691cbc93457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 02/14] fix: place the first previewed step relative to the
 support foot

When the first previewed step appears during a single support (horizon as long
as the step period) there is no previous step in the QP variable: the new step
was placed relative to a CoP entry of the variable.
---
 src/humanoid_feet_supervisor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 20e93c4..46867a8 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -762,13 +762,13 @@ namespace MPCWalkgen
     }
 
     // Adding x and y coordinates of the new footstep position
-    if(isInDS() && (nbPreviewedSteps_==1))
+    if(newNbOfSteps==1)
     {
-      variable(2*nbSamples_ + newNbOfSteps - 1) =
-          getLeftFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
+      variable(2*nbSamples_) =
+          getSupportFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
 
       variable(newSize - 1) =
-          getLeftFootStateY()(0) + (lowestPointY + highestPointY)/2;
+          getSupportFootStateY()(0) + (lowestPointY + highestPointY)/2;
     }
     else
     {
-- 
2.43.0


From 36453f60a47804e1e3fba781b3977e85a7ae6f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 03/14] fix: do not extrapolate the rising part of the flying
 foot trajectory

When the middle of the flight is not a multiple of the feedback period, the
last rising interpolation was evaluated after its end: the foot could go far
above its maximum height and below the ground.
---
 src/humanoid_feet_supervisor.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 46867a8..1957fa0 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -601,9 +601,17 @@ namespace MPCWalkgen
       }
       else
       {
+        // The apex may be reached before the end of this feedback period
+        const Scalar timeToApex = timeToNextPhase_ - flyingTime*0.5f;
         flyingFoot->updateStateZ(Vector3(flyingFoot->getMaxHeight(), 0, 0),
-                                 timeToNextPhase_ - flyingTime*0.5f,
-                                 feedBackPeriod);
+                                 timeToApex,
+                                 std::min(feedBackPeriod, timeToApex));
+        if(feedBackPeriod > timeToApex + Constant<Scalar>::EPSILON)
+        {
+          flyingFoot->updateStateZ(Vector3::Zero(),
+                                   flyingTime*0.5f,
+                                   feedBackPeriod - timeToApex);
+        }
       }
     }
 
-- 
2.43.0


From dc270ba869f64330de2e2a6c12bfa7a97266a8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 04/14] fix: extract the vertices of a convex polygon with a
 robust algorithm

Gift wrapping compared angles computed with acos: points aligned up to the
rounding errors (both soles in double support, for instance) could be visited
endlessly (assertion failure). A single point or copies of the first point
gave out of range accesses and duplicated vertices.
---
 mpc-walkgen/convexpolygon.h |  4 +-
 src/convexpolygon.cpp       | 89 +++++++++++++++++++++++++++----------
 2 files changed, 67 insertions(+), 26 deletions(-)

diff --git a/mpc-walkgen/convexpolygon.h b/mpc-walkgen/convexpolygon.h
index f22f3dd..67be08c 100644
--- a/mpc-walkgen/convexpolygon.h
+++ b/mpc-walkgen/convexpolygon.h
@@ -68,8 +68,8 @@ namespace MPCWalkgen
 
 
       /// \brief Return the set of vertices of the convex polygon of all vectors from Vec
-      ///        The algorithm is similar to the gift-wrapping or Jarvis
-      ///        march algorithm. The convex polygon vertices are counter-clockwise ordered
+      ///        The algorithm is the monotone chain algorithm. The convex polygon vertices are
+      ///        counter-clockwise ordered, starting with the lowest and leftmost one
       static vectorOfVector2 extractVertices(const vectorOfVector2 &points);
       /// \brief Measure the angle between vec1 and vec2.
       ///        Returns -pi if vec1 = -vec2 and 0 if vec1=0 or vec2=0
diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index f561d3b..6ec8eef 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -8,10 +8,41 @@
 #include <mpc-walkgen/convexpolygon.h>
 #include <mpc-walkgen/constant.h>
 #include <boost/math/constants/constants.hpp>
+#include <algorithm>
 #include "macro.h"
 
 namespace MPCWalkgen
 {
+  namespace
+  {
+    template <typename Vector2>
+    bool isLowerOrLeftmost(const Vector2& p1, const Vector2& p2)
+    {
+      return p1(1) < p2(1) || (p1(1) == p2(1) && p1(0) < p2(0));
+    }
+
+    // Add a point to the counter-clockwise chain p, after having removed the last points of the
+    // chain which do not make it turn left. The first nbKept points are never removed.
+    template <typename Scalar>
+    void addVertex(const typename Type<Scalar>::Vector2& point,
+                   size_t nbKept,
+                   typename Type<Scalar>::vectorOfVector2& p)
+    {
+      while(p.size() > nbKept)
+      {
+        const typename Type<Scalar>::Vector2 vec1 = p[p.size() - 1] - p[p.size() - 2];
+        const typename Type<Scalar>::Vector2 vec2 = point - p[p.size() - 1];
+
+        if(vec1(0)*vec2(1) - vec1(1)*vec2(0) > 0)
+        {
+          break;
+        }
+        p.pop_back();
+      }
+      p.push_back(point);
+    }
+  }
+
   ///Convex Polygon
   template <typename Scalar>
   ConvexPolygon<Scalar>::ConvexPolygon()
@@ -48,37 +79,47 @@ namespace MPCWalkgen
   typename Type<Scalar>::vectorOfVector2 ConvexPolygon<Scalar>::extractVertices(
       const vectorOfVector2& points)
   {
-    vectorOfVector2 p;
+    // Monotone chain algorithm. It relies on the orientation of triplets of points only:
+    // comparing angles is not accurate enough to handle points which are aligned up to the
+    // rounding errors (e.g. the feet in double support).
+    vectorOfVector2 sorted(points);
+    std::sort(sorted.begin(), sorted.end(), isLowerOrLeftmost<Vector2>);
 
-    // Here we handle the degenerate case for which vector vertices is empty
-    if(points.empty())
+    // Points that are closer than EPSILON are considered as one
+    vectorOfVector2 distinct;
+    distinct.reserve(points.size());
+    for(size_t i=0; i<sorted.size(); ++i)
     {
-      return p;
+      bool isDistinct = true;
+      for(size_t j=0; j<distinct.size() && isDistinct; ++j)
+      {
+        isDistinct = (sorted[i] - distinct[j]).norm() > Constant<Scalar>::EPSILON;
+      }
+      if(isDistinct)
+      {
+        distinct.push_back(sorted[i]);
+      }
     }
 
-    p.reserve(points.size());
-
-    // Adding the first vertex
-    int index = getIndexOfLowestAndLeftmostVertice(points);
-
-    // Adding the first point
-    p.push_back(points[index]);
-
-    // Finding the index of the second vertex
-    index = getIndexOfSmallestAngleVertice(index,
-                                           Vector2(points[index](0) - 1,
-                                                   points[index](1)),
-                                           points);
-
-    // Adding the other vertices until we reach the first index, which
-    // means the convex polygon has been completed
-    while(index != getIndexOfLowestAndLeftmostVertice(points))
+    if(distinct.size() < 3)
     {
-      assert(p.size() <= points.size());
+      return distinct;
+    }
 
-      p.push_back(points[index]);
-      index = getIndexOfSmallestAngleVertice(index, *(p.end()-2), points);
+    // Right side of the convex polygon, from the lowest to the highest vertex, then left side
+    vectorOfVector2 p;
+    p.reserve(distinct.size() + 1);
+    for(size_t i=0; i<distinct.size(); ++i)
+    {
+      addVertex<Scalar>(distinct[i], 1, p);
+    }
+    const size_t nbRightVertices = p.size();
+    for(size_t i=distinct.size() - 1; i>0; --i)
+    {
+      addVertex<Scalar>(distinct[i - 1], nbRightVertices, p);
     }
+    // The first vertex has been added twice
+    p.pop_back();
 
     return p;
   }
-- 
2.43.0


From e0a788fcbef15e7f903ce943f91b63c6c01ce3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 05/14] fix: correct the inverse of the acceleration dynamic
 when the first interval is shorter

The second row of the inverse divides by the sampling period, not by the time left
to the first sample.
---
 src/tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 42e96dd..39e8bc9 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -176,7 +176,7 @@ void Tools::ConstantJerkDynamic<Scalar>::computeAccDynamic(Scalar S, Scalar T,
 
   if(dyn.Uinv.rows()>1)
   {
-    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/S;
+    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/T;
   }
 
   for (int i=0; i<N; ++i)
@@ -215,7 +215,7 @@ void Tools::ConstantJerkDynamic<Scalar>::computeOrder2VelDynamic(Scalar S, Scala
 
   if(dyn.Uinv.rows()>1)
   {
-    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/S;
+    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/T;
   }
 
   for (int i=0; i<N; ++i)
-- 
2.43.0


From a2b7e5a074904af5f65f39b7f839d84596a1ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 06/14] fix: report a failed solve when no diagnostics stream
 is given

---
 qpsolver/src/qpsolver_qpoases.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qpsolver/src/qpsolver_qpoases.hxx b/qpsolver/src/qpsolver_qpoases.hxx
index 241ded1..6ead07b 100644
--- a/qpsolver/src/qpsolver_qpoases.hxx
+++ b/qpsolver/src/qpsolver_qpoases.hxx
@@ -76,11 +76,14 @@ bool QPOasesSolver<Scalar>::solve(const QPMatrices<Scalar>& m,
   // the "non-solution" might be useful: it is optimal but unfeasible with
   // respect to some constraints.
   qp_.getPrimalSolution(sol.data());
-  if ((ret != ::qpOASES::SUCCESSFUL_RETURN) && (os != nullptr))
+  if (ret != ::qpOASES::SUCCESSFUL_RETURN)
   {
-    *os << "QP unfeasible. QPOases error code: " << ret
-        << ". Number of working set recalculations: " << maxNbIterations
-        << ". Was warm start: " << doWarmStart << ".\n";
+    if (os != nullptr)
+    {
+      *os << "QP unfeasible. QPOases error code: " << ret
+          << ". Number of working set recalculations: " << maxNbIterations
+          << ". Was warm start: " << doWarmStart << ".\n";
+    }
     return false;
   }
 
-- 
2.43.0


From 2b11be093af311d6c6ac401f4af0fb4aa55be5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 07/14] fix: do not hot start a qpOASES problem whose
 initialisation failed

---
 qpsolver/src/qpsolver_qpoases.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qpsolver/src/qpsolver_qpoases.hxx b/qpsolver/src/qpsolver_qpoases.hxx
index 6ead07b..ae588da 100644
--- a/qpsolver/src/qpsolver_qpoases.hxx
+++ b/qpsolver/src/qpsolver_qpoases.hxx
@@ -70,7 +70,7 @@ bool QPOasesSolver<Scalar>::solve(const QPMatrices<Scalar>& m,
     ret = qp_.init(m.Q.data(), m.p.data(), m.A.data(),
                    m.xl.data(), m.xu.data(), m.bl.data(), m.bu.data(),
                    maxNbIterations, 0);
-    qpIsInitialized_ = true;
+    qpIsInitialized_ = (ret == ::qpOASES::SUCCESSFUL_RETURN);
   }
   // we write the result even if qpOASES did report an error:
   // the "non-solution" might be useful: it is optimal but unfeasible with
-- 
2.43.0


From 10df5a4e0f11155c0dd55422bec86749e4ec5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 08/14] fix: rebuild the QP solvers of the humanoid walkgen
 when the polygons change

The solvers made for former dimensions stayed in front of the vector, so
that a program was handed to a solver of another size, and changing the
polygons left too few of them.
---
 src/humanoid_walkgen.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 57cc3cb..bb0442d 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -94,6 +94,7 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootKinematicConvexPolygon(convexPolygon);
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -101,6 +102,7 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar> &convexPolygon)
   {
     feetSupervisor_.setRightFootKinematicConvexPolygon(convexPolygon);
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -108,6 +110,7 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootCopConvexPolygon(convexPolygon);
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -115,6 +118,7 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setRightFootCopConvexPolygon(convexPolygon);
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -458,6 +462,7 @@ namespace MPCWalkgen
   {
     // Updating qpoasesSolverVec_ and qpMatrixVec_
     maximumNbOfSteps_ = feetSupervisor_.getNbSamples();
+    maximumNbOfConstraints_ = 0;
     if(config_.withCopConstraints)
     {
       maximumNbOfConstraints_ = feetSupervisor_.getMaximumNbOfCopConstraints()
@@ -469,6 +474,8 @@ namespace MPCWalkgen
           *maximumNbOfSteps_;
     }
 
+    // Solvers created for former dimensions must not remain in front of the new ones
+    qpoasesSolverVec_.clear();
     qpoasesSolverVec_.reserve((maximumNbOfSteps_ + 1)*(maximumNbOfConstraints_ + 1));
     qpMatrixVec_.resize((maximumNbOfSteps_ + 1)*(maximumNbOfConstraints_ + 1));
 
-- 
2.43.0


From 9c4062900e39fbd757f0fc23dfa70e15f0999f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 09/14] fix: let the masses of the zebulon walkgen decrease

---
 src/zebulon_walkgen.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 5b588a5..92bbe75 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -188,6 +188,12 @@ void ZebulonWalkgen<Scalar>::setBodyMass(Scalar mass)
   assert(mass==mass);
 
 
+  //The mass of the body never exceeds the total mass, even between two calls
+  if (mass<lipModel_.getMass())
+  {
+    lipModel_.setMass(mass);
+  }
+
   Scalar totalMass = mass + baseModel_.getMass();
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
@@ -208,6 +214,12 @@ void ZebulonWalkgen<Scalar>::setBaseMass(Scalar mass)
 {
   assert(mass==mass);
 
+  //The mass of the base never exceeds the total mass, even between two calls
+  if (mass<baseModel_.getMass())
+  {
+    baseModel_.setMass(mass);
+  }
+
   Scalar totalMass = lipModel_.getMass() + mass;
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
-- 
2.43.0


From cfe9eccc94f67cdcf03731a7e6f3774324407c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 10/14] fix: recompute the tilt objectives of the zebulon
 walkgen when the base CoM height changes

---
 src/zebulon_walkgen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 92bbe75..7817346 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -178,6 +178,8 @@ void ZebulonWalkgen<Scalar>::setComBaseHeight(Scalar comHeight)
   copConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
   comCenteringObj_.updateGravityShift();
+  tiltMinObj_.computeConstantPart();
+  tiltVelMinObj_.computeConstantPart();
 
   computeConstantPart();
 }
-- 
2.43.0


From 39f65e1bdc3ff889c12d6325b6e91fbf1cb13a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 11/14] fix: keep the gravity shift of the zebulon CoM
 centering when the number of samples changes

---
 src/zebulon_walkgen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 7817346..7b41f18 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -48,6 +48,7 @@ void ZebulonWalkgen<Scalar>::setNbSamples(int nbSamples)
   lipModel_.setNbSamples(nbSamples);
   baseModel_.setNbSamples(nbSamples);
   comCenteringObj_.setNbSamples(nbSamples);
+  comCenteringObj_.updateGravityShift();
 
   dX_.setZero(4*nbSamples);
   X_.setZero(4*nbSamples);
-- 
2.43.0


From 1aee1f0fec494e2bc5af4039eaf5b156b2f08856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 12/14] fix: initialise the tilt contact point of the default
 base model

---
 src/model/zebulon_base_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model/zebulon_base_model.cpp b/src/model/zebulon_base_model.cpp
index 39155f1..88b6b93 100644
--- a/src/model/zebulon_base_model.cpp
+++ b/src/model/zebulon_base_model.cpp
@@ -58,6 +58,8 @@ BaseModel<Scalar>::BaseModel()
   ,velocityLimit_(1.0)
   ,accelerationLimit_(1.0)
   ,jerkLimit_(1.0)
+  ,tiltContactPointX_(0.0)
+  ,tiltContactPointY_(0.0)
   ,copSupportConvexPolygon_()
   ,comSupportConvexPolygon_()
 {
-- 
2.43.0


From 1fc000c999fa1631d4ff23d4d6513928fe922f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 13/14] fix: use the sign of the CoP dynamic for the gravity
 term of the CoP reference

---
 src/function/zebulon_cop_centering_objective.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/zebulon_cop_centering_objective.cpp b/src/function/zebulon_cop_centering_objective.cpp
index b869632..794f819 100644
--- a/src/function/zebulon_cop_centering_objective.cpp
+++ b/src/function/zebulon_cop_centering_objective.cpp
@@ -175,7 +175,7 @@ void CopCenteringObjective<Scalar>::setCopRefInWorldFrame(
 
   copRefInLocalFrame_ = ( mb*g[2]*basePosRefInWorldFrame - mb*hb*baseAccRefInWorldFrame
                         + mc*g[2]*comPosRefInWorldFrame - mc*hc*comAccRefInWorldFrame
-                        + (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
+                        - (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
 
                         - basePosRefInWorldFrame; //In local Frame
 }
-- 
2.43.0


From 992a2766cd657758bf37e18d49422f34a87e9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 14/14] fix: weigh the CoM and base accelerations of the tilt
 dynamics with their own moments

---
 src/function/zebulon_tilt_minimization_objective.cpp      | 8 ++++----
 .../zebulon_tilt_velocity_minimization_objective.cpp      | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/function/zebulon_tilt_minimization_objective.cpp b/src/function/zebulon_tilt_minimization_objective.cpp
index 4fb6ebf..9ac55a5 100644
--- a/src/function/zebulon_tilt_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_minimization_objective.cpp
@@ -153,13 +153,13 @@ void TiltMinimizationObjective<Scalar>::computeConstantPart()
   dynPsiY_.K = -uInv_*tmp;
   dynPsiY_.S = uInv_*A6*angularAccRelativeToAngleDyn.S;
 
-  dynC_.U = uInv_*(-A5*dynComAcc.U + A2*dynComPos.U);
+  dynC_.U = uInv_*(-A4*dynComAcc.U + A2*dynComPos.U);
   dynC_.UT = dynC_.U.transpose();
-  dynC_.S = uInv_*(-A5*dynComAcc.S + A2*dynComPos.S);
+  dynC_.S = uInv_*(-A4*dynComAcc.S + A2*dynComPos.S);
 
-  dynB_.U = uInv_*(-A4*dynBaseAcc.U - A2*dynBasePos.U);
+  dynB_.U = uInv_*(-A5*dynBaseAcc.U - A2*dynBasePos.U);
   dynB_.UT = dynB_.U.transpose();
-  dynB_.S = uInv_*(-A4*dynBaseAcc.S - A2*dynBasePos.S);
+  dynB_.S = uInv_*(-A5*dynBaseAcc.S - A2*dynBasePos.S);
 
   //Compute the hessian
   hessian_.setZero(4*N, 4*N);
diff --git a/src/function/zebulon_tilt_velocity_minimization_objective.cpp b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
index c3af044..53d739b 100644
--- a/src/function/zebulon_tilt_velocity_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
@@ -158,13 +158,13 @@ void TiltVelMinimizationObjective<Scalar>::computeConstantPart()
   dynPsiY_.S = uInv_*A6*angularAccRelativeToAngleDyn.S
              - tiltVelAngleDyn.U*tiltAngleDyn.Uinv*tiltAngleDyn.S+tiltVelAngleDyn.S;
 
-  dynC_.U = uInv_*(-A5*dynComAcc.U + A2*dynComPos.U);
+  dynC_.U = uInv_*(-A4*dynComAcc.U + A2*dynComPos.U);
   dynC_.UT = dynC_.U.transpose();
-  dynC_.S = uInv_*(-A5*dynComAcc.S + A2*dynComPos.S);
+  dynC_.S = uInv_*(-A4*dynComAcc.S + A2*dynComPos.S);
 
-  dynB_.U = uInv_*(-A4*dynBaseAcc.U - A2*dynBasePos.U);
+  dynB_.U = uInv_*(-A5*dynBaseAcc.U - A2*dynBasePos.U);
   dynB_.UT = dynB_.U.transpose();
-  dynB_.S = uInv_*(-A4*dynBaseAcc.S - A2*dynBasePos.S);
+  dynB_.S = uInv_*(-A5*dynBaseAcc.S - A2*dynBasePos.S);
 
   //Compute the hessian
   hessian_.setZero(4*N, 4*N);
-- 
2.43.0

