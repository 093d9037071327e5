From 00ebc0dbc9301b15bf184b0dae37bf297d38231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:12 +0000
Subject: [PATCH 01/38] fix: swap the upper-limit Jacobian of joint limits from
 its own column

---
 src/components/HingeJointComponents.cpp  | 2 +-
 src/components/SliderJointComponents.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/HingeJointComponents.cpp b/src/components/HingeJointComponents.cpp
index 2bd3247..5a65994 100644
--- a/src/components/HingeJointComponents.cpp
+++ b/src/components/HingeJointComponents.cpp
@@ -354,7 +354,7 @@ void HingeJointComponents::swapComponents(uint32 index1, uint32 index2) {
     decimal inverseMassMatrixLimitMotor(mInverseMassMatrixLimitMotor[index1]);
     decimal inverseMassMatrixMotor(mInverseMassMatrixMotor[index1]);
     decimal bLowerLimit(mBLowerLimit[index1]);
-    decimal bUpperLimit(mUpperLimit[index1]);
+    decimal bUpperLimit(mBUpperLimit[index1]);
     bool isLimitEnabled(mIsLimitEnabled[index1]);
     bool isMotorEnabled(mIsMotorEnabled[index1]);
     decimal lowerLimit(mLowerLimit[index1]);
diff --git a/src/components/SliderJointComponents.cpp b/src/components/SliderJointComponents.cpp
index 9f8787f..019da78 100644
--- a/src/components/SliderJointComponents.cpp
+++ b/src/components/SliderJointComponents.cpp
@@ -385,7 +385,7 @@ void SliderJointComponents::swapComponents(uint32 index1, uint32 index2) {
     decimal inverseMassMatrixLimit(mInverseMassMatrixLimit[index1]);
     decimal inverseMassMatrixMotor(mInverseMassMatrixMotor[index1]);
     decimal bLowerLimit(mBLowerLimit[index1]);
-    decimal bUpperLimit(mUpperLimit[index1]);
+    decimal bUpperLimit(mBUpperLimit[index1]);
     bool isLimitEnabled(mIsLimitEnabled[index1]);
     bool isMotorEnabled(mIsMotorEnabled[index1]);
     decimal lowerLimit(mLowerLimit[index1]);
-- 
2.43.0


From 149cb4c6989374f5fd58683d14bbcce5515cbf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:12 +0000
Subject: [PATCH 02/38] fix: copy whole vectors when the slider joint table
 grows

---
 src/components/SliderJointComponents.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/components/SliderJointComponents.cpp b/src/components/SliderJointComponents.cpp
index 019da78..128da58 100644
--- a/src/components/SliderJointComponents.cpp
+++ b/src/components/SliderJointComponents.cpp
@@ -185,12 +185,12 @@ void SliderJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newIsUpperLimitViolated, mIsUpperLimitViolated, mNbComponents * sizeof(bool));
         memcpy(newMotorSpeed, mMotorSpeed, mNbComponents * sizeof(decimal));
         memcpy(newMaxMotorForce, mMaxMotorForce, mNbComponents * sizeof(decimal));
-        memcpy(newR2CrossN1, mR2CrossN1, mNbComponents * sizeof(decimal));
-        memcpy(newR2CrossN2, mR2CrossN2, mNbComponents * sizeof(decimal));
-        memcpy(newR2CrossSliderAxis, mR2CrossSliderAxis, mNbComponents * sizeof(decimal));
-        memcpy(newR1PlusUCrossN1, mR1PlusUCrossN1, mNbComponents * sizeof(decimal));
-        memcpy(newR1PlusUCrossN2, mR1PlusUCrossN2, mNbComponents * sizeof(decimal));
-        memcpy(newR1PlusUCrossSliderAxis, mR1PlusUCrossSliderAxis, mNbComponents * sizeof(decimal));
+        memcpy(newR2CrossN1, mR2CrossN1, mNbComponents * sizeof(Vector3));
+        memcpy(newR2CrossN2, mR2CrossN2, mNbComponents * sizeof(Vector3));
+        memcpy(newR2CrossSliderAxis, mR2CrossSliderAxis, mNbComponents * sizeof(Vector3));
+        memcpy(newR1PlusUCrossN1, mR1PlusUCrossN1, mNbComponents * sizeof(Vector3));
+        memcpy(newR1PlusUCrossN2, mR1PlusUCrossN2, mNbComponents * sizeof(Vector3));
+        memcpy(newR1PlusUCrossSliderAxis, mR1PlusUCrossSliderAxis, mNbComponents * sizeof(Vector3));
 
         // Deallocate previous memory
         mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
-- 
2.43.0


From 5d8fe37332b405c3ccd91bb2a7141eb0a774929c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 03/38] fix: drive the hinge motor towards its target speed
 instead of away from it

---
 src/systems/SolveHingeJointSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index f96e28a..8204713 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -394,7 +394,7 @@ void SolveHingeJointSystem::solveVelocityConstraint() {
 
             // Compute the Lagrange multiplier lambda for the motor
             const decimal maxMotorImpulse = mHingeJointComponents.mMaxMotorTorque[i] * mTimeStep;
-            decimal deltaLambdaMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i] * (-JvMotor - mHingeJointComponents.mMotorSpeed[i]);
+            decimal deltaLambdaMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i] * (JvMotor + mHingeJointComponents.mMotorSpeed[i]);
             decimal lambdaTemp = mHingeJointComponents.mImpulseMotor[i];
             mHingeJointComponents.mImpulseMotor[i] = clamp(mHingeJointComponents.mImpulseMotor[i] + deltaLambdaMotor, -maxMotorImpulse, maxMotorImpulse);
             deltaLambdaMotor = mHingeJointComponents.mImpulseMotor[i] - lambdaTemp;
-- 
2.43.0


From ef55b742c9cc2f1aa32b001e9274fc286ae5662e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 04/38] fix: warm start the twist friction of a contact
 manifold once instead of twice

---
 src/systems/ContactSolverSystem.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/systems/ContactSolverSystem.cpp b/src/systems/ContactSolverSystem.cpp
index a7ab187..797a984 100644
--- a/src/systems/ContactSolverSystem.cpp
+++ b/src/systems/ContactSolverSystem.cpp
@@ -458,12 +458,6 @@ void ContactSolverSystem::warmStart() {
 
             // Update the velocities of the body 2 by applying the impulse P
             mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody2Index] += mContactConstraints[c].angularLockAxisFactorBody2 * (mContactConstraints[c].inverseInertiaTensorBody2 * angularImpulseBody2);
-
-            // Update the velocities of the body 1 by applying the impulse P
-            mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody1Index] -= mContactConstraints[c].angularLockAxisFactorBody1 * (mContactConstraints[c].inverseInertiaTensorBody1 * angularImpulseBody2);
-
-            // Update the velocities of the body 1 by applying the impulse P
-            mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody2Index] += mContactConstraints[c].angularLockAxisFactorBody2 * (mContactConstraints[c].inverseInertiaTensorBody2 * angularImpulseBody2);
         }
         else {  // If it is a new contact manifold
 
-- 
2.43.0


From 33f3c46f733c14dc9a1299a74610e3e5c27016fb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 05/38] fix: keep the penetration bias in decimal precision

---
 src/systems/ContactSolverSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/ContactSolverSystem.cpp b/src/systems/ContactSolverSystem.cpp
index 797a984..1f2e6f1 100644
--- a/src/systems/ContactSolverSystem.cpp
+++ b/src/systems/ContactSolverSystem.cpp
@@ -513,7 +513,7 @@ void ContactSolverSystem::solve() {
             // Compute the bias "b" of the constraint
             decimal biasPenetrationDepth = 0.0;
             if (mContactPoints[contactPointIndex].penetrationDepth > SLOP) {
-                biasPenetrationDepth = -(beta/mTimeStep) * std::max(0.0f, float(mContactPoints[contactPointIndex].penetrationDepth - SLOP));
+                biasPenetrationDepth = -(beta/mTimeStep) * std::max(decimal(0.0), mContactPoints[contactPointIndex].penetrationDepth - SLOP);
             }
             decimal b = biasPenetrationDepth + mContactPoints[contactPointIndex].restitutionBias;
 
-- 
2.43.0


From 73ca00b0c7d644b65aeda34f889c339badac25ae Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:45:04 +0000
Subject: [PATCH 06/38] fix: correct the position of every slider joint
 whatever the technique of the previous ones

---
 src/systems/SolveSliderJointSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 3f8a721..599acb4 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -524,7 +524,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
 
         // If the error position correction technique is not the non-linear-gauss-seidel, we do
         // do not execute this method
-        if (mJointComponents.mPositionCorrectionTechniques[jointIndex] != JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL) return;
+        if (mJointComponents.mPositionCorrectionTechniques[jointIndex] != JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL) continue;
 
         // Get the bodies entities
         const Entity body1Entity = mJointComponents.mBody1Entities[jointIndex];
-- 
2.43.0


From 5cb6249e75e98fdd9528489e86c341601c460dc3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:45:15 +0000
Subject: [PATCH 07/38] fix: compute the slider limit mass from the lever arm
 of the current step

---
 src/systems/SolveSliderJointSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 599acb4..ffb82a3 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -97,6 +97,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         mSliderJointComponents.mR1PlusUCrossN1[i] = r1PlusU.cross(mSliderJointComponents.mN1[i]);
         mSliderJointComponents.mR1PlusUCrossN2[i] = r1PlusU.cross(mSliderJointComponents.mN2[i]);
         mSliderJointComponents.mR1PlusUCrossSliderAxis[i] = r1PlusU.cross(mSliderJointComponents.mSliderAxisWorld[i]);
+        mSliderJointComponents.mR2CrossSliderAxis[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mSliderAxisWorld[i]);
 
         // Check if the limit constraints are violated or not
         decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
@@ -155,7 +156,6 @@ void SolveSliderJointSystem::initBeforeSolve() {
         // Compute the cross products used in the Jacobians
         mSliderJointComponents.mR2CrossN1[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mN1[i]);
         mSliderJointComponents.mR2CrossN2[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mN2[i]);
-        mSliderJointComponents.mR2CrossSliderAxis[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mSliderAxisWorld[i]);
 
         const Vector3& r2CrossN1 = mSliderJointComponents.mR2CrossN1[i];
         const Vector3& r2CrossN2 = mSliderJointComponents.mR2CrossN2[i];
-- 
2.43.0


From 3574b52cc0e46a89bb8920aa4ea7189fa0a67890 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:45:15 +0000
Subject: [PATCH 08/38] fix: reset the cone limit impulse when warm starting is
 inactive

---
 src/systems/SolveBallAndSocketJointSystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index 70c851d..20b191f 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -154,6 +154,7 @@ void SolveBallAndSocketJointSystem::initBeforeSolve() {
 
             // Reset the accumulated impulse
             mBallAndSocketJointComponents.mImpulse[i].setToZero();
+            mBallAndSocketJointComponents.mConeLimitImpulse[i] = decimal(0.0);
         }
     }
 }
-- 
2.43.0


From d54c019d4dea6de2255ccd3f240e7d3da0e8a1d2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:45:15 +0000
Subject: [PATCH 09/38] fix: allocate a height field with its own size

---
 src/engine/PhysicsCommon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/PhysicsCommon.cpp b/src/engine/PhysicsCommon.cpp
index fa536d6..b030554 100644
--- a/src/engine/PhysicsCommon.cpp
+++ b/src/engine/PhysicsCommon.cpp
@@ -484,7 +484,7 @@ HeightField* PhysicsCommon::createHeightField(int nbGridColumns, int nbGridRows,
                                               decimal integerHeightScale) {
 
     // Create the height-field
-    HeightField* heightField = new (mMemoryManager.allocate(MemoryManager::AllocationType::Pool, sizeof(TriangleMesh))) HeightField(mMemoryManager.getHeapAllocator(), mTriangleShapeHalfEdgeStructure);
+    HeightField* heightField = new (mMemoryManager.allocate(MemoryManager::AllocationType::Pool, sizeof(HeightField))) HeightField(mMemoryManager.getHeapAllocator(), mTriangleShapeHalfEdgeStructure);
 
     // Initialize the height-field
     bool isValid = heightField->init(nbGridColumns, nbGridRows, heightFieldData, dataType, messages,
-- 
2.43.0


From cf58a645499ee288b770108c637ec6c116df7cc1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 10/38] fix: wake up a rigid body when it is activated again

---
 src/body/RigidBody.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 7018701..65212fd 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1187,7 +1187,13 @@ void RigidBody::setIsActive(bool isActive) {
     // If the state does not change
     if (mWorld.mBodyComponents.getIsActive(mEntity) == isActive) return;
 
-    setIsSleeping(!isActive);
-
-    Body::setIsActive(isActive);
+    // An inactive body cannot be awakened, therefore the body needs to be activated first
+    if (isActive) {
+        Body::setIsActive(isActive);
+        setIsSleeping(false);
+    }
+    else {
+        setIsSleeping(true);
+        Body::setIsActive(isActive);
+    }
 }
-- 
2.43.0


From 54c222636ea805fc2ee805b4808ce6457332cb6f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:47:41 +0000
Subject: [PATCH 11/38] fix: keep a body inactive and a static body awake when
 the body type changes

---
 src/body/RigidBody.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 65212fd..06fd0a3 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -67,6 +67,9 @@ void RigidBody::setType(BodyType type) {
 
     if (mWorld.mRigidBodyComponents.getBodyType(mEntity) == type) return;
 
+    // Awake the body (before its type changes because a static body cannot be awakened)
+    setIsSleeping(false);
+
     mWorld.mRigidBodyComponents.setBodyType(mEntity, type);
 
     // If it is a static body
@@ -108,11 +111,12 @@ void RigidBody::setType(BodyType type) {
         mWorld.mRigidBodyComponents.setInverseInertiaTensorLocal(mEntity, inverseInertiaTensorLocal);
     }
 
-    // Disable/Enable the body if necessary (components of static bodies are disabled)
-    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC);
+    // Disable/Enable the body if necessary (components of static and inactive bodies are disabled)
+    const bool isActive = mWorld.mBodyComponents.getIsActive(mEntity);
+    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC || !isActive);
 
-    // Awake the body
-    setIsSleeping(false);
+    // An inactive body that is not static is sleeping
+    mWorld.mRigidBodyComponents.setIsSleeping(mEntity, type != BodyType::STATIC && !isActive);
 
     if (type == BodyType::STATIC) {
 
-- 
2.43.0


From fac59fa27eb060d5a57dbdcacfd60262e1ad6833 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:47:41 +0000
Subject: [PATCH 12/38] fix: enable the overlapping pairs of a body that is not
 static anymore

---
 src/body/RigidBody.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 06fd0a3..7f2e898 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -123,6 +123,11 @@ void RigidBody::setType(BodyType type) {
         // Disable overlapping pairs if both bodies are disabled (sleeping or static)
         checkForDisabledOverlappingPairs();
     }
+    else if (isActive) {
+
+        // Enable the overlapping pairs that were disabled because the body was static
+        enableOverlappingPairs();
+    }
 
     // Reset the force and torque on the body
     mWorld.mRigidBodyComponents.setExternalForce(mEntity, Vector3::zero());
-- 
2.43.0


From 81bbd78d9adc43f35f4191063caec51ad7105112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:34 +0000
Subject: [PATCH 13/38] fix: RigidBody::setTransform must not change the linear
 velocity

Moving a rotating body with setTransform added angularVelocity x displacement
to its linear velocity (teleporting a spinning body by 100 m gave it hundreds
of m/s). The centre of mass moves with the body here; only a change of the
local centre of mass changes the velocity of that point.
---
 src/body/RigidBody.cpp | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 7f2e898..560e281 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -845,19 +845,10 @@ void RigidBody::setAngularVelocity(const Vector3& angularVelocity) {
  */
 void RigidBody::setTransform(const Transform& transform) {
 
-    const Vector3 oldCenterOfMass = mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity);
-
     // Compute the new center of mass in world-space coordinates
     const Vector3& centerOfMassLocal = mWorld.mRigidBodyComponents.getCenterOfMassLocal(mEntity);
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, transform * centerOfMassLocal);
 
-    // Update the linear velocity of the center of mass
-    Vector3 linearVelocity = mWorld.mRigidBodyComponents.getLinearVelocity(mEntity);
-    const Vector3& angularVelocity = mWorld.mRigidBodyComponents.getAngularVelocity(mEntity);
-    const Vector3& centerOfMassWorld = mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity);
-    linearVelocity += angularVelocity.cross(centerOfMassWorld - oldCenterOfMass);
-    mWorld.mRigidBodyComponents.setLinearVelocity(mEntity, linearVelocity);
-
     if (getType() == BodyType::STATIC) {
 
         mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
-- 
2.43.0


From 7f82368eadaac18c177ab89979c602eb476755e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 14/38] fix: disable the joints of an inactive body

---
 src/engine/PhysicsWorld.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 80a425c..5508dfb 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -379,8 +379,9 @@ void PhysicsWorld::enableDisableJoints() {
         Entity body1 = mJointsComponents.mBody1Entities[jointEntityIndex];
         Entity body2 = mJointsComponents.mBody2Entities[jointEntityIndex];
 
-        // If both bodies of the joint are disabled
-        if (mBodyComponents.getIsEntityDisabled(body1) && mBodyComponents.getIsEntityDisabled(body2)) {
+        // If both bodies of the joint are disabled or if one of them is not active
+        if ((mBodyComponents.getIsEntityDisabled(body1) && mBodyComponents.getIsEntityDisabled(body2)) ||
+            !mBodyComponents.getIsActive(body1) || !mBodyComponents.getIsActive(body2)) {
 
             // Disable the joint
             setJointDisabled(jointsEntites[i], true);
-- 
2.43.0


From 5136fc2603551d5a1be36193637d1535543eb5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 15/38] fix: keep the vertices of a computed convex hull in
 decimal precision

---
 include/reactphysics3d/utils/quickhull/QuickHull.h |  4 ++--
 src/engine/PhysicsCommon.cpp                       |  2 +-
 src/utils/quickhull/QuickHull.cpp                  | 13 ++++++++-----
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/reactphysics3d/utils/quickhull/QuickHull.h b/include/reactphysics3d/utils/quickhull/QuickHull.h
index d393cba..691f1d5 100644
--- a/include/reactphysics3d/utils/quickhull/QuickHull.h
+++ b/include/reactphysics3d/utils/quickhull/QuickHull.h
@@ -161,7 +161,7 @@ class QuickHull {
         static void computeFinalPolygonVertexArray(const QHHalfEdgeStructure& convexHull,
                                                    const Array<Vector3>& points,
                                                    PolygonVertexArray& outPolygonVertexArray,
-                                                   Array<float>& outVertices, Array<unsigned int>& outIndices,
+                                                   Array<decimal>& outVertices, Array<unsigned int>& outIndices,
                                                    Array<PolygonVertexArray::PolygonFace>& outFaces,
                                                    MemoryAllocator& allocator);
 
@@ -171,7 +171,7 @@ class QuickHull {
 
         /// Compute the convex hull of a set of points and returns true if there are no errors
         static bool computeConvexHull(const VertexArray& vertexArray, PolygonVertexArray& outPolygonVertexArray,
-                                      Array<float>& outVertices, Array<unsigned int>& outIndices,
+                                      Array<decimal>& outVertices, Array<unsigned int>& outIndices,
                                       Array<PolygonVertexArray::PolygonFace>& outFaces,
                                       MemoryAllocator& allocator, std::vector<Message>& errors);
 
diff --git a/src/engine/PhysicsCommon.cpp b/src/engine/PhysicsCommon.cpp
index b030554..683dcae 100644
--- a/src/engine/PhysicsCommon.cpp
+++ b/src/engine/PhysicsCommon.cpp
@@ -640,7 +640,7 @@ ConvexMesh* PhysicsCommon::createConvexMesh(const VertexArray& vertexArray, std:
     MemoryAllocator& allocator = mMemoryManager.getHeapAllocator();
 
     PolygonVertexArray outPolygonVertexArray;
-    Array<float> vertices(allocator);
+    Array<decimal> vertices(allocator);
     Array<unsigned int> indices(allocator);
     Array<PolygonVertexArray::PolygonFace> faces(allocator);
 
diff --git a/src/utils/quickhull/QuickHull.cpp b/src/utils/quickhull/QuickHull.cpp
index f45a55f..73e2b2e 100644
--- a/src/utils/quickhull/QuickHull.cpp
+++ b/src/utils/quickhull/QuickHull.cpp
@@ -42,7 +42,7 @@ using namespace reactphysics3d;
 
 // Compute the convex hull of a set of points and return the resulting convex mesh
 bool QuickHull::computeConvexHull(const VertexArray& vertexArray, PolygonVertexArray& outPolygonVertexArray,
-                                  Array<float>& outVertices, Array<unsigned int>& outIndices,
+                                  Array<decimal>& outVertices, Array<unsigned int>& outIndices,
                                   Array<PolygonVertexArray::PolygonFace>& outFaces, MemoryAllocator& allocator,
                                   std::vector<Message>& errors) {
 
@@ -135,7 +135,7 @@ bool QuickHull::computeConvexHull(const VertexArray& vertexArray, PolygonVertexA
 void QuickHull::computeFinalPolygonVertexArray(const QHHalfEdgeStructure& convexHull,
                                                const Array<Vector3>& points,
                                                PolygonVertexArray& outPolygonVertexArray,
-                                               Array<float>& outVertices, Array<unsigned int>& outIndices,
+                                               Array<decimal>& outVertices, Array<unsigned int>& outIndices,
                                                Array<PolygonVertexArray::PolygonFace>& outFaces,
                                                MemoryAllocator& allocator) {
 
@@ -194,10 +194,13 @@ void QuickHull::computeFinalPolygonVertexArray(const QHHalfEdgeStructure& convex
     assert(convexHull.getNbVertices() == outVertices.size() / 3);
     assert(convexHull.getNbFaces() == outFaces.size());
 
-    outPolygonVertexArray.init(outVertices.size() / 3, &(outVertices[0]), 3 * sizeof(float),
+    const PolygonVertexArray::VertexDataType vertexDataType = sizeof(decimal) == sizeof(float) ?
+                                                              PolygonVertexArray::VertexDataType::VERTEX_FLOAT_TYPE :
+                                                              PolygonVertexArray::VertexDataType::VERTEX_DOUBLE_TYPE;
+
+    outPolygonVertexArray.init(outVertices.size() / 3, &(outVertices[0]), 3 * sizeof(decimal),
                                &(outIndices[0]), sizeof(unsigned int),
-                               outFaces.size(), &(outFaces[0]),
-                               PolygonVertexArray::VertexDataType::VERTEX_FLOAT_TYPE,
+                               outFaces.size(), &(outFaces[0]), vertexDataType,
                                PolygonVertexArray::IndexDataType::INDEX_INTEGER_TYPE);
 }
 
-- 
2.43.0


From 31cadddb54d84840eb0c3db7b7e1857ebf710626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 16/38] fix: compute the closest point on a GJK segment in
 decimal precision

---
 .../reactphysics3d/collision/narrowphase/GJK/VoronoiSimplex.h | 2 +-
 src/collision/narrowphase/GJK/VoronoiSimplex.cpp              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/reactphysics3d/collision/narrowphase/GJK/VoronoiSimplex.h b/include/reactphysics3d/collision/narrowphase/GJK/VoronoiSimplex.h
index b3c21f9..51a6cbd 100644
--- a/include/reactphysics3d/collision/narrowphase/GJK/VoronoiSimplex.h
+++ b/include/reactphysics3d/collision/narrowphase/GJK/VoronoiSimplex.h
@@ -106,7 +106,7 @@ class VoronoiSimplex {
 
         /// Compute point of a line segment that is closest to the origin
         void computeClosestPointOnSegment(const Vector3& a, const Vector3& b, int& bitUsedVertices,
-                                          float& t) const;
+                                          decimal& t) const;
 
         /// Compute point of a triangle that is closest to the origin
         void computeClosestPointOnTriangle(const Vector3& a, const Vector3& b,
diff --git a/src/collision/narrowphase/GJK/VoronoiSimplex.cpp b/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
index a8ec4ee..fd0b310 100644
--- a/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
+++ b/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
@@ -193,7 +193,7 @@ bool VoronoiSimplex::recomputeClosestPoint() {
 
                 {
                     int bitsUsedPoints = 0;
-                    float t;
+                    decimal t;
 
                     // The simplex is a line AB (where A=mPoints[0] and B=mPoints[1].
                     // We need to find the point of that line closest to the origin
@@ -301,7 +301,7 @@ bool VoronoiSimplex::recomputeClosestPoint() {
 
 // Compute point of a line segment that is closest to the origin
 void VoronoiSimplex::computeClosestPointOnSegment(const Vector3& a, const Vector3& b, int& bitUsedVertices,
-                                                  float& t) const {
+                                                  decimal& t) const {
 
     Vector3 AP = -a;
     Vector3 AB = b - a;
-- 
2.43.0


From 472e2572285f7ad50c7ba704a93799ebb27bb864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 17/38] fix: store the default time before sleep in decimal
 precision

---
 include/reactphysics3d/engine/PhysicsWorld.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reactphysics3d/engine/PhysicsWorld.h b/include/reactphysics3d/engine/PhysicsWorld.h
index b1a3bae..e5ec748 100644
--- a/include/reactphysics3d/engine/PhysicsWorld.h
+++ b/include/reactphysics3d/engine/PhysicsWorld.h
@@ -104,7 +104,7 @@ class PhysicsWorld {
             uint16 defaultPositionSolverNbIterations;
 
             /// Time (in seconds) that a body must stay still to be considered sleeping
-            float defaultTimeBeforeSleep;
+            decimal defaultTimeBeforeSleep;
 
             /// A body with a linear velocity smaller than the sleep linear velocity (in m/s)
             /// might enter sleeping mode.
-- 
2.43.0


From 0dc5664a046fb89084c22c7194a4dc496d0ab654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 18/38] fix: write decimal constants without rounding them to
 single precision

---
 include/reactphysics3d/mathematics/Quaternion.h | 2 +-
 src/utils/quickhull/QuickHull.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/reactphysics3d/mathematics/Quaternion.h b/include/reactphysics3d/mathematics/Quaternion.h
index 0a6d178..ceb02fc 100644
--- a/include/reactphysics3d/mathematics/Quaternion.h
+++ b/include/reactphysics3d/mathematics/Quaternion.h
@@ -299,7 +299,7 @@ RP3D_FORCE_INLINE bool Quaternion::isFinite() const {
 // Return true if it is a unit quaternion
 RP3D_FORCE_INLINE bool Quaternion::isUnit() const {
     const decimal length = std::sqrt(x*x + y*y + z*z + w*w);
-    const decimal tolerance = 1e-5f;
+    const decimal tolerance = decimal(1e-5);
     return std::abs(length - decimal(1.0)) < tolerance;
 }
 
diff --git a/src/utils/quickhull/QuickHull.cpp b/src/utils/quickhull/QuickHull.cpp
index 73e2b2e..6dcd82a 100644
--- a/src/utils/quickhull/QuickHull.cpp
+++ b/src/utils/quickhull/QuickHull.cpp
@@ -760,7 +760,7 @@ void QuickHull::fixTopologicalIssueAtEdge(QHHalfEdgeStructure& convexHull, QHHal
 // Remove duplicated vertices in the input array of points
 void QuickHull::removeDuplicatedVertices(Array<Vector3>& points, MemoryAllocator& allocator) {
 
-    const decimal distanceEpsilon = 0.00001f;
+    const decimal distanceEpsilon = decimal(0.00001);
     Array<Vector3> pointsToKeep(allocator, points.size());
 
     // Compute the points cloud center
-- 
2.43.0


From 2e57bc6b2a15bdc47e2b8bf7a59c9c6edc351adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 19/38] fix: round capacities to the alignment with integer
 arithmetic

---
 include/reactphysics3d/containers/Array.h       | 2 +-
 include/reactphysics3d/containers/Deque.h       | 2 +-
 include/reactphysics3d/containers/Map.h         | 2 +-
 include/reactphysics3d/containers/Set.h         | 2 +-
 include/reactphysics3d/containers/Stack.h       | 2 +-
 src/components/BallAndSocketJointComponents.cpp | 2 +-
 src/components/BodyComponents.cpp               | 2 +-
 src/components/ColliderComponents.cpp           | 2 +-
 src/components/FixedJointComponents.cpp         | 2 +-
 src/components/HingeJointComponents.cpp         | 2 +-
 src/components/JointComponents.cpp              | 2 +-
 src/components/RigidBodyComponents.cpp          | 2 +-
 src/components/SliderJointComponents.cpp        | 2 +-
 src/components/TransformComponents.cpp          | 2 +-
 14 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/reactphysics3d/containers/Array.h b/include/reactphysics3d/containers/Array.h
index b7f0645..ee4c74a 100755
--- a/include/reactphysics3d/containers/Array.h
+++ b/include/reactphysics3d/containers/Array.h
@@ -252,7 +252,7 @@ class Array {
             if (capacity <= mCapacity) return;
 
             // Make sure capacity is an integral multiple of alignment
-            capacity = std::ceil(capacity / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+            capacity = ((capacity + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
             // Allocate memory for the new array
             void* newMemory = mAllocator.allocate(capacity * sizeof(T));
diff --git a/include/reactphysics3d/containers/Deque.h b/include/reactphysics3d/containers/Deque.h
index 2a7977b..27da70a 100644
--- a/include/reactphysics3d/containers/Deque.h
+++ b/include/reactphysics3d/containers/Deque.h
@@ -86,7 +86,7 @@ class Deque {
             if (capacity <= mCapacity) return;
 
             // Make sure capacity is an integral multiple of alignment
-            capacity = std::ceil(capacity / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+            capacity = ((capacity + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
             // Allocate memory for the new array
             void* newMemory = mAllocator.allocate(capacity * sizeof(T));
diff --git a/include/reactphysics3d/containers/Map.h b/include/reactphysics3d/containers/Map.h
index 4aaee4b..f91f986 100755
--- a/include/reactphysics3d/containers/Map.h
+++ b/include/reactphysics3d/containers/Map.h
@@ -280,7 +280,7 @@ class Map {
             assert(nbAllocatedEntries > 0);
 
             // Make sure capacity is an integral multiple of alignment
-            nbAllocatedEntries = std::ceil(nbAllocatedEntries / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+            nbAllocatedEntries = ((nbAllocatedEntries + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
             Pair<K, V>* newEntries = static_cast<Pair<K, V>*>(mAllocator.allocate(nbAllocatedEntries * sizeof(Pair<K, V>)));
             uint64* newNextEntries = static_cast<uint64*>(mAllocator.allocate(nbAllocatedEntries * sizeof(uint64)));
diff --git a/include/reactphysics3d/containers/Set.h b/include/reactphysics3d/containers/Set.h
index ea894ab..b7d9c4f 100755
--- a/include/reactphysics3d/containers/Set.h
+++ b/include/reactphysics3d/containers/Set.h
@@ -279,7 +279,7 @@ class Set {
             assert(nbAllocatedEntries > 0);
 
             // Make sure capacity is an integral multiple of alignment
-            nbAllocatedEntries = std::ceil(nbAllocatedEntries / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+            nbAllocatedEntries = ((nbAllocatedEntries + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
             V* newEntries = static_cast<V*>(mAllocator.allocate(nbAllocatedEntries * sizeof(V)));
             uint64* newNextEntries = static_cast<uint64*>(mAllocator.allocate(nbAllocatedEntries * sizeof(uint64)));
diff --git a/include/reactphysics3d/containers/Stack.h b/include/reactphysics3d/containers/Stack.h
index cdbe26f..4fe93b2 100644
--- a/include/reactphysics3d/containers/Stack.h
+++ b/include/reactphysics3d/containers/Stack.h
@@ -62,7 +62,7 @@ class Stack {
         void allocate(uint64 capacity) {
 
             // Make sure capacity is an integral multiple of alignment
-            capacity = std::ceil(capacity / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+            capacity = ((capacity + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
             T* newArray = static_cast<T*>(mAllocator.allocate(capacity * sizeof(T)));
             assert(newArray != nullptr);
diff --git a/src/components/BallAndSocketJointComponents.cpp b/src/components/BallAndSocketJointComponents.cpp
index 0850edb..d51603a 100644
--- a/src/components/BallAndSocketJointComponents.cpp
+++ b/src/components/BallAndSocketJointComponents.cpp
@@ -49,7 +49,7 @@ void BallAndSocketJointComponents::allocate(uint32 nbComponentsToAllocate) {
     assert(nbComponentsToAllocate > mNbAllocatedComponents);
 
     // Make sure capacity is an integral multiple of alignment
-    nbComponentsToAllocate = std::ceil(nbComponentsToAllocate / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+    nbComponentsToAllocate = ((nbComponentsToAllocate + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
     // Size for the data of a single component (in bytes)
     size_t totalSizeBytes = nbComponentsToAllocate * mComponentDataSize + mAlignmentMarginSize;
diff --git a/src/components/BodyComponents.cpp b/src/components/BodyComponents.cpp
index 8aae023..2c4b3db 100644
--- a/src/components/BodyComponents.cpp
+++ b/src/components/BodyComponents.cpp
@@ -45,7 +45,7 @@ void BodyComponents::allocate(uint32 nbComponentsToAllocate) {
     assert(nbComponentsToAllocate > mNbAllocatedComponents);
 
     // Make sure capacity is an integral multiple of alignment
-    nbComponentsToAllocate = std::ceil(nbComponentsToAllocate / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+    nbComponentsToAllocate = ((nbComponentsToAllocate + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
     // Size for the data of a single component (in bytes)
     const size_t totalSizeBytes = nbComponentsToAllocate * mComponentDataSize + mAlignmentMarginSize;
diff --git a/src/components/ColliderComponents.cpp b/src/components/ColliderComponents.cpp
index 7b0fefe..608017e 100644
--- a/src/components/ColliderComponents.cpp
+++ b/src/components/ColliderComponents.cpp
@@ -48,7 +48,7 @@ void ColliderComponents::allocate(uint32 nbComponentsToAllocate) {
     assert(nbComponentsToAllocate > mNbAllocatedComponents);
 
     // Make sure capacity is an integral multiple of alignment
-    nbComponentsToAllocate = std::ceil(nbComponentsToAllocate / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+    nbComponentsToAllocate = ((nbComponentsToAllocate + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
     // Size for the data of a single component (in bytes)
     const size_t totalSizeBytes = nbComponentsToAllocate * mComponentDataSize + mAlignmentMarginSize;
diff --git a/src/components/FixedJointComponents.cpp b/src/components/FixedJointComponents.cpp
index 18ddf65..0eef687 100644
--- a/src/components/FixedJointComponents.cpp
+++ b/src/components/FixedJointComponents.cpp
@@ -48,7 +48,7 @@ void FixedJointComponents::allocate(uint32 nbComponentsToAllocate) {
     assert(nbComponentsToAllocate > mNbAllocatedComponents);
 
     // Make sure capacity is an integral multiple of alignment
-    nbComponentsToAllocate = std::ceil(nbComponentsToAllocate / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+    nbComponentsToAllocate = ((nbComponentsToAllocate + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
     // Size for the data of a single component (in bytes)
     const size_t totalSizeBytes = nbComponentsToAllocate * mComponentDataSize + mAlignmentMarginSize;
diff --git a/src/components/HingeJointComponents.cpp b/src/components/HingeJointComponents.cpp
index 5a65994..9997ea5 100644
--- a/src/components/HingeJointComponents.cpp
+++ b/src/components/HingeJointComponents.cpp
@@ -53,7 +53,7 @@ void HingeJointComponents::allocate(uint32 nbComponentsToAllocate) {
     assert(nbComponentsToAllocate > mNbAllocatedComponents);
 
     // Make sure capacity is an integral multiple of alignment
-    nbComponentsToAllocate = std::ceil(nbComponentsToAllocate / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+    nbComponentsToAllocate = ((nbComponentsToAllocate + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
     // Size for the data of a single component (in bytes)
     const size_t totalSizeBytes = nbComponentsToAllocate * mComponentDataSize + mAlignmentMarginSize;
diff --git a/src/components/JointComponents.cpp b/src/components/JointComponents.cpp
index 571d567..ce4266a 100644
--- a/src/components/JointComponents.cpp
+++ b/src/components/JointComponents.cpp
@@ -45,7 +45,7 @@ void JointComponents::allocate(uint32 nbComponentsToAllocate) {
     assert(nbComponentsToAllocate > mNbAllocatedComponents);
 
     // Make sure capacity is an integral multiple of alignment
-    nbComponentsToAllocate = std::ceil(nbComponentsToAllocate / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+    nbComponentsToAllocate = ((nbComponentsToAllocate + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
     // Size for the data of a single component (in bytes)
     const size_t totalSizeBytes = nbComponentsToAllocate * mComponentDataSize + mAlignmentMarginSize;
diff --git a/src/components/RigidBodyComponents.cpp b/src/components/RigidBodyComponents.cpp
index 6b5a065..897af47 100644
--- a/src/components/RigidBodyComponents.cpp
+++ b/src/components/RigidBodyComponents.cpp
@@ -54,7 +54,7 @@ void RigidBodyComponents::allocate(uint32 nbComponentsToAllocate) {
     assert(nbComponentsToAllocate > mNbAllocatedComponents);
 
     // Make sure capacity is an integral multiple of alignment
-    nbComponentsToAllocate = std::ceil(nbComponentsToAllocate / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+    nbComponentsToAllocate = ((nbComponentsToAllocate + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
     // Size for the data of a single component (in bytes)
     const size_t totalSizeBytes = nbComponentsToAllocate * mComponentDataSize + mAlignmentMarginSize;
diff --git a/src/components/SliderJointComponents.cpp b/src/components/SliderJointComponents.cpp
index 128da58..3cd7747 100644
--- a/src/components/SliderJointComponents.cpp
+++ b/src/components/SliderJointComponents.cpp
@@ -55,7 +55,7 @@ void SliderJointComponents::allocate(uint32 nbComponentsToAllocate) {
     assert(nbComponentsToAllocate > mNbAllocatedComponents);
 
     // Make sure capacity is an integral multiple of alignment
-    nbComponentsToAllocate = std::ceil(nbComponentsToAllocate / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+    nbComponentsToAllocate = ((nbComponentsToAllocate + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
     // Size for the data of a single component (in bytes)
     const size_t totalSizeBytes = nbComponentsToAllocate * mComponentDataSize + mAlignmentMarginSize;
diff --git a/src/components/TransformComponents.cpp b/src/components/TransformComponents.cpp
index eb59fa2..36ee2e7 100644
--- a/src/components/TransformComponents.cpp
+++ b/src/components/TransformComponents.cpp
@@ -45,7 +45,7 @@ void TransformComponents::allocate(uint32 nbComponentsToAllocate) {
     assert(nbComponentsToAllocate > mNbAllocatedComponents);
 
     // Make sure capacity is an integral multiple of alignment
-    nbComponentsToAllocate = std::ceil(nbComponentsToAllocate / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+    nbComponentsToAllocate = ((nbComponentsToAllocate + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
     // Size for the data of a single component (in bytes)
     const size_t totalSizeBytes = nbComponentsToAllocate * mComponentDataSize + mAlignmentMarginSize;
-- 
2.43.0


From c97323ed79875f4ceb0f6766e60810f8c0e80ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 20/38] fix: keep the SAT face and edge indices of the last
 frame whole

---
 include/reactphysics3d/engine/OverlappingPairs.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/reactphysics3d/engine/OverlappingPairs.h b/include/reactphysics3d/engine/OverlappingPairs.h
index b1c0ed3..809dedd 100644
--- a/include/reactphysics3d/engine/OverlappingPairs.h
+++ b/include/reactphysics3d/engine/OverlappingPairs.h
@@ -79,9 +79,9 @@ struct LastFrameCollisionInfo {
     // SAT Algorithm
     bool satIsAxisFacePolyhedron1;
     bool satIsAxisFacePolyhedron2;
-    uint8 satMinAxisFaceIndex;
-    uint8 satMinEdge1Index;
-    uint8 satMinEdge2Index;
+    uint32 satMinAxisFaceIndex;
+    uint32 satMinEdge1Index;
+    uint32 satMinEdge2Index;
 
     /// Constructor
     LastFrameCollisionInfo()
-- 
2.43.0


From 3c6f9747222a38ba03a66bc5fd5f9a2b1ccabc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 21/38] fix: take the number of position iterations in the type
 that stores it

---
 include/reactphysics3d/engine/PhysicsWorld.h | 2 +-
 src/engine/PhysicsWorld.cpp                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/reactphysics3d/engine/PhysicsWorld.h b/include/reactphysics3d/engine/PhysicsWorld.h
index e5ec748..c265aaf 100644
--- a/include/reactphysics3d/engine/PhysicsWorld.h
+++ b/include/reactphysics3d/engine/PhysicsWorld.h
@@ -361,7 +361,7 @@ class PhysicsWorld {
         uint16 getNbIterationsPositionSolver() const;
 
         /// Set the number of iterations for the position constraint solver
-        void setNbIterationsPositionSolver(uint32 nbIterations);
+        void setNbIterationsPositionSolver(uint16 nbIterations);
 
         /// Set the position correction technique used for contacts
         void setContactsPositionCorrectionTechnique(ContactsPositionCorrectionTechnique technique);
diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 5508dfb..efad002 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -955,7 +955,7 @@ void PhysicsWorld::enableSleeping(bool isSleepingEnabled) {
 /**
  * @param nbIterations Number of iterations for the position solver
  */
-void PhysicsWorld::setNbIterationsPositionSolver(uint32 nbIterations) {
+void PhysicsWorld::setNbIterationsPositionSolver(uint16 nbIterations) {
 
     mNbPositionSolverIterations = nbIterations;
 
-- 
2.43.0


From c9f39c721f7196ab890b3f516e1169b7dbf54bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 22/38] fix: keep the lost contact pairs between steps out of
 the single frame memory

---
 src/systems/CollisionDetectionSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index d2a3b83..ec5dca1 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -66,7 +66,7 @@ CollisionDetectionSystem::CollisionDetectionSystem(PhysicsWorld* world, Collider
                      mNarrowPhaseInput(mMemoryManager.getSingleFrameAllocator(), mOverlappingPairs), mPotentialContactPoints(mMemoryManager.getSingleFrameAllocator()),
                      mPotentialContactManifolds(mMemoryManager.getSingleFrameAllocator()), mContactPairs1(mMemoryManager.getPoolAllocator()),
                      mContactPairs2(mMemoryManager.getPoolAllocator()), mPreviousContactPairs(&mContactPairs1), mCurrentContactPairs(&mContactPairs2),
-                     mLostContactPairs(mMemoryManager.getSingleFrameAllocator()), mPreviousMapPairIdToContactPairIndex(mMemoryManager.getHeapAllocator()),
+                     mLostContactPairs(mMemoryManager.getHeapAllocator()), mPreviousMapPairIdToContactPairIndex(mMemoryManager.getHeapAllocator()),
                      mContactManifolds1(mMemoryManager.getPoolAllocator()), mContactManifolds2(mMemoryManager.getPoolAllocator()),
                      mPreviousContactManifolds(&mContactManifolds1), mCurrentContactManifolds(&mContactManifolds2),
                      mContactPoints1(mMemoryManager.getPoolAllocator()), mContactPoints2(mMemoryManager.getPoolAllocator()),
-- 
2.43.0


From 0d6f8940ed612a6957396170e2bcdbe14a97e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 23/38] fix: count the worlds atomically

---
 include/reactphysics3d/engine/PhysicsWorld.h | 3 ++-
 src/engine/PhysicsWorld.cpp                  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/reactphysics3d/engine/PhysicsWorld.h b/include/reactphysics3d/engine/PhysicsWorld.h
index c265aaf..f96bb9d 100644
--- a/include/reactphysics3d/engine/PhysicsWorld.h
+++ b/include/reactphysics3d/engine/PhysicsWorld.h
@@ -52,6 +52,7 @@
 #include <reactphysics3d/engine/Islands.h>
 #include <reactphysics3d/utils/DebugRenderer.h>
 #include <sstream>
+#include <atomic>
 
 /// Namespace ReactPhysics3D
 namespace reactphysics3d {
@@ -229,7 +230,7 @@ class PhysicsWorld {
 #endif
 
         /// Total number of worlds
-        static uint32 mNbWorlds;
+        static std::atomic<uint32> mNbWorlds;
 
         /// All the islands of bodies of the current frame
         Islands mIslands;
diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index efad002..764bfea 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -43,7 +43,7 @@ using namespace std;
 
 // Static initializations
 
-uint32 PhysicsWorld::mNbWorlds = 0;
+std::atomic<uint32> PhysicsWorld::mNbWorlds(0);
 
 // Constructor
 /**
-- 
2.43.0


From b44b3d20b0e0b8c4da53eea731c6ec67e48fd603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 24/38] fix: initialize the tables of the pool allocators only
 once across threads

---
 include/reactphysics3d/memory/PoolAllocator.h |  5 +-
 src/memory/PoolAllocator.cpp                  | 47 ++++++++++---------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/include/reactphysics3d/memory/PoolAllocator.h b/include/reactphysics3d/memory/PoolAllocator.h
index 7898545..590575d 100644
--- a/include/reactphysics3d/memory/PoolAllocator.h
+++ b/include/reactphysics3d/memory/PoolAllocator.h
@@ -102,8 +102,6 @@ class PoolAllocator : public MemoryAllocator {
         /// corresponding heap we will use for the allocation.
         static int mMapSizeToHeapIndex[MAX_UNIT_SIZE + 1];
 
-        /// True if the mMapSizeToHeapIndex array has already been initialized
-        static bool isMapSizeToHeadIndexInitialized;
 
         /// Mutex
         std::mutex mMutex;
@@ -135,6 +133,9 @@ class PoolAllocator : public MemoryAllocator {
 
         // -------------------- Methods -------------------- //
 
+        /// Compute the sizes of the memory units and the lookup table (once for all the allocators)
+        static bool initializeUnitSizes();
+
         /// Constructor
         PoolAllocator(MemoryAllocator& baseAllocator);
 
diff --git a/src/memory/PoolAllocator.cpp b/src/memory/PoolAllocator.cpp
index df04b8e..651bb9d 100644
--- a/src/memory/PoolAllocator.cpp
+++ b/src/memory/PoolAllocator.cpp
@@ -32,7 +32,6 @@
 using namespace reactphysics3d;
 
 // Initialization of static variables
-bool PoolAllocator::isMapSizeToHeadIndexInitialized = false;
 size_t PoolAllocator::mUnitSizes[NB_HEAPS];
 int PoolAllocator::mMapSizeToHeapIndex[MAX_UNIT_SIZE + 1];
 
@@ -51,31 +50,35 @@ PoolAllocator::PoolAllocator(MemoryAllocator& baseAllocator) : mBaseAllocator(ba
         mNbTimesAllocateMethodCalled = 0;
 #endif
 
-    // If the mMapSizeToHeapIndex has not been initialized yet
-    if (!isMapSizeToHeadIndexInitialized) {
+    // Initialize the tables shared by all the allocators (only once, even if several threads create allocators)
+    static const bool areTablesInitialized = initializeUnitSizes();
+    (void)areTablesInitialized;
+}
 
-        // Initialize the array that contains the sizes of the memory units that will
-        // be allocated in each different heap
-        for (uint i=0; i < NB_HEAPS; i++) {
-            mUnitSizes[i] = (i+1) * MIN_UNIT_SIZE;
-        }
+// Compute the sizes of the memory units and the lookup table (once for all the allocators)
+bool PoolAllocator::initializeUnitSizes() {
 
-        // Initialize the lookup table that maps the size to allocated to the
-        // corresponding heap we will use for the allocation
-        uint j = 0;
-        mMapSizeToHeapIndex[0] = -1;    // This element should not be used
-        for (uint i=1; i <= MAX_UNIT_SIZE; i++) {
-            if (i <= mUnitSizes[j]) {
-                mMapSizeToHeapIndex[i] = j;
-            }
-            else {
-                j++;
-                mMapSizeToHeapIndex[i] = j;
-            }
-        }
+    // Initialize the array that contains the sizes of the memory units that will
+    // be allocated in each different heap
+    for (uint i=0; i < NB_HEAPS; i++) {
+        mUnitSizes[i] = (i+1) * MIN_UNIT_SIZE;
+    }
 
-        isMapSizeToHeadIndexInitialized = true;
+    // Initialize the lookup table that maps the size to allocated to the
+    // corresponding heap we will use for the allocation
+    uint j = 0;
+    mMapSizeToHeapIndex[0] = -1;    // This element should not be used
+    for (uint i=1; i <= MAX_UNIT_SIZE; i++) {
+        if (i <= mUnitSizes[j]) {
+            mMapSizeToHeapIndex[i] = j;
+        }
+        else {
+            j++;
+            mMapSizeToHeapIndex[i] = j;
+        }
     }
+
+    return true;
 }
 
 // Destructor
-- 
2.43.0


From 88331930a6e74e35796d49c3e2b79414bd24c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 25/38] fix: forget the lost contact pairs of a removed
 collider

---
 src/systems/CollisionDetectionSystem.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index ec5dca1..7c09b52 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -1176,6 +1176,13 @@ void CollisionDetectionSystem::removeCollider(Collider* collider) {
         removeOverlappingPair(overlappingPairs[0], false);
     }
 
+    // Forget the lost contact pairs of this collider that have not been reported yet
+    for (uint32 i = static_cast<uint32>(mLostContactPairs.size()); i > 0; i--) {
+        if (mLostContactPairs[i-1].collider1Entity == collider->getEntity() || mLostContactPairs[i-1].collider2Entity == collider->getEntity()) {
+            mLostContactPairs.removeAt(i-1);
+        }
+    }
+
     mMapBroadPhaseIdToColliderEntity.remove(colliderBroadPhaseId);
 
     // Remove the body from the broad-phase
-- 
2.43.0


From bdd6cb27de03859eded22e769b37051c5afd15a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 26/38] fix: flag disabled overlapping pairs to be tested for
 overlap

---
 include/reactphysics3d/engine/OverlappingPairs.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/reactphysics3d/engine/OverlappingPairs.h b/include/reactphysics3d/engine/OverlappingPairs.h
index 809dedd..b08bd60 100644
--- a/include/reactphysics3d/engine/OverlappingPairs.h
+++ b/include/reactphysics3d/engine/OverlappingPairs.h
@@ -458,15 +458,10 @@ RP3D_FORCE_INLINE bodypair OverlappingPairs::computeBodiesIndexPair(Entity body1
 // Set if we need to test a given pair for overlap
 RP3D_FORCE_INLINE void OverlappingPairs::setNeedToTestOverlap(uint64 pairId, bool needToTestOverlap) {
 
-    assert(mMapConvexPairIdToPairIndex.containsKey(pairId) || mMapConcavePairIdToPairIndex.containsKey(pairId));
-
-    auto it = mMapConvexPairIdToPairIndex.find(pairId);
-    if (it != mMapConvexPairIdToPairIndex.end()) {
-        mConvexPairs[static_cast<uint32>(it->second)].needToTestOverlap = needToTestOverlap;
-    }
-    else {
-        mConcavePairs[static_cast<uint32>(mMapConcavePairIdToPairIndex[pairId])].needToTestOverlap = needToTestOverlap;
-    }
+    // The pair might be disabled (for instance if the awake body of the pair is static)
+    OverlappingPair* pair = getOverlappingPair(pairId);
+    assert(pair != nullptr);
+    pair->needToTestOverlap = needToTestOverlap;
 }
 
 // Return a reference to an overlapping pair
-- 
2.43.0


From 51d91d10685b51ee031d14809c246fa71394d6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 27/38] fix: body queries only report world query colliders

---
 src/systems/CollisionDetectionSystem.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 7c09b52..309f422 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -489,6 +489,9 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         assert(mCollidersComponents.getBroadPhaseId(collider2Entity) != -1);
         assert(mCollidersComponents.getBroadPhaseId(collider1Entity) != mCollidersComponents.getBroadPhaseId(collider2Entity));
 
+        // Only the world query colliders are tested by the queries
+        if (!mCollidersComponents.mIsWorldQueryCollider[collider1Index] || !mCollidersComponents.mIsWorldQueryCollider[collider2Index]) continue;
+
         CollisionShape* collisionShape1 = mCollidersComponents.mCollisionShapes[collider1Index];
         CollisionShape* collisionShape2 = mCollidersComponents.mCollisionShapes[collider2Index];
 
@@ -514,6 +517,10 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2) != -1);
         assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider1) != mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2));
 
+        // Only the world query colliders are tested by the queries
+        if (!mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[pairIndex].collider1) ||
+            !mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[pairIndex].collider2)) continue;
+
         computeConvexVsConcaveMiddlePhase(mOverlappingPairs.mConcavePairs[pairIndex], mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
     }
 }
-- 
2.43.0


From cdb6a15f9b97740d36ea282d4101238199ea03eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 28/38] fix: apply a changed collision filter to the existing
 overlapping pairs

---
 src/systems/CollisionDetectionSystem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 309f422..c9178be 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -331,6 +331,12 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
                             }
                         }
                     }
+                    else if ((mCollidersComponents.mCollideWithMaskBits[collider1Index] & mCollidersComponents.mCollisionCategoryBits[collider2Index]) == 0 ||
+                             (mCollidersComponents.mCollisionCategoryBits[collider1Index] & mCollidersComponents.mCollideWithMaskBits[collider2Index]) == 0) {
+
+                        // The collision filtering has changed and does not allow the collision between the two shapes anymore
+                        removeOverlappingPair(pairId, true);
+                    }
                     else {
 
                         // We do not need to test the pair for overlap because it has just been reported that they still overlap
-- 
2.43.0


From 4aac690a1b695db9621f969ccb9f74628c192906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 29/38] fix: collision between two bodies stays disabled while
 one of their joints disables it, and is tested again when none does

---
 include/reactphysics3d/engine/PhysicsWorld.h |  3 ++
 src/engine/PhysicsWorld.cpp                  | 31 +++++++++++++++-----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/reactphysics3d/engine/PhysicsWorld.h b/include/reactphysics3d/engine/PhysicsWorld.h
index f96bb9d..40784a7 100644
--- a/include/reactphysics3d/engine/PhysicsWorld.h
+++ b/include/reactphysics3d/engine/PhysicsWorld.h
@@ -297,6 +297,9 @@ class PhysicsWorld {
         /// Put bodies to sleep if needed.
         void updateSleepingBodies(decimal timeStep);
 
+        /// Return true if a joint between the two bodies disables the collision between them
+        bool isCollisionDisabledByJoint(Entity body1, Entity body2) const;
+
         /// Add the joint to the array of joints of the two bodies involved in the joint
         void addJointToBodies(Entity body1, Entity body2, Entity joint);
 
diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 764bfea..4720c20 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -611,13 +611,6 @@ void PhysicsWorld::destroyJoint(Joint* joint) {
     RP3D_LOG(mConfig.worldName, Logger::Level::Information, Logger::Category::Joint,
              "Joint " + std::to_string(joint->getEntity().id) + ": joint destroyed",  __FILE__, __LINE__);
 
-    // If the collision between the two bodies of the constraint was disabled
-    if (!joint->isCollisionEnabled()) {
-
-        // Remove the pair of bodies from the set of body pairs that cannot collide with each other
-        mCollisionDetection.removeNoCollisionPair(joint->getBody1()->getEntity(), joint->getBody2()->getEntity());
-    }
-
     RigidBody* body1 = joint->getBody1();
     RigidBody* body2 = joint->getBody2();
 
@@ -629,6 +622,16 @@ void PhysicsWorld::destroyJoint(Joint* joint) {
     mRigidBodyComponents.removeJointFromBody(body1->getEntity(), joint->getEntity());
     mRigidBodyComponents.removeJointFromBody(body2->getEntity(), joint->getEntity());
 
+    // If the collision between the two bodies of the constraint was disabled and no other joint between them disables it
+    if (!joint->isCollisionEnabled() && !isCollisionDisabledByJoint(body1->getEntity(), body2->getEntity())) {
+
+        // Remove the pair of bodies from the set of body pairs that cannot collide with each other
+        mCollisionDetection.removeNoCollisionPair(body1->getEntity(), body2->getEntity());
+
+        // The two bodies might already be overlapping
+        body1->askForBroadPhaseCollisionCheck();
+    }
+
     size_t nbBytes = joint->getSizeInBytes();
 
     Entity jointEntity = joint->getEntity();
@@ -656,6 +659,20 @@ void PhysicsWorld::destroyJoint(Joint* joint) {
     mMemoryManager.release(MemoryManager::AllocationType::Pool, joint, nbBytes);
 }
 
+// Return true if a joint between the two bodies disables the collision between them
+bool PhysicsWorld::isCollisionDisabledByJoint(Entity body1, Entity body2) const {
+
+    const Array<Entity>& joints = mRigidBodyComponents.getJoints(body1);
+    for (uint32 i = 0; i < joints.size(); i++) {
+
+        if (!mJointsComponents.getIsCollisionEnabled(joints[i]) &&
+            (mJointsComponents.getBody1Entity(joints[i]) == body2 || mJointsComponents.getBody2Entity(joints[i]) == body2)) {
+            return true;
+        }
+    }
+
+    return false;
+}
 
 // Set the number of iterations for the velocity constraint solver
 /**
-- 
2.43.0


From ae957dbaa152d3bfb1e2961b17e505b1f9eb55d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 30/38] fix: world collision queries compute no contact points
 for trigger colliders and do not abort on them

---
 src/systems/CollisionDetectionSystem.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index c9178be..0e54676 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -503,12 +503,15 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
 
         NarrowPhaseAlgorithmType algorithmType = mOverlappingPairs.mConvexPairs[pairIndex].narrowPhaseAlgorithmType;
 
+        // There are no contact points with a trigger
+        const bool isTrigger = mCollidersComponents.mIsTrigger[collider1Index] || mCollidersComponents.mIsTrigger[collider2Index];
+
         // No middle-phase is necessary, simply create a narrow phase info
         // for the narrow-phase collision detection
         narrowPhaseInput.addNarrowPhaseTest(pairId, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                   mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                   mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                  algorithmType, reportContacts, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
+                                                  algorithmType, reportContacts && !isTrigger, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
 
     }
 
@@ -1040,7 +1043,7 @@ void CollisionDetectionSystem::createSnapshotContacts(Array<ContactPair>& contac
     for (uint32 p=0; p < nbContactPairs; p++) {
 
         ContactPair& contactPair = contactPairs[p];
-        assert(contactPair.nbPotentialContactManifolds > 0);
+        assert(contactPair.isTrigger || contactPair.nbPotentialContactManifolds > 0);
 
         contactPair.contactManifoldsIndex = static_cast<uint32>(contactManifolds.size());
         contactPair.nbContactManifolds = contactPair.nbPotentialContactManifolds;
-- 
2.43.0


From 1d797676a5efc3d1382e32392984e4f16f69530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 31/38] fix: normal of a capsule-sphere contact when the sphere
 centre is on the capsule segment

---
 src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp b/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
index 5f90af9..5106cc7 100755
--- a/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
+++ b/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
@@ -100,10 +100,6 @@ bool SphereVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseIn
                     normalWorld = capsuleToWorldTransform.getOrientation() * sphereCenterToSegment;
 
                     penetrationDepth = sumRadius - sphereSegmentDistance;
-
-                    if (!isSphereShape1) {
-                        normalWorld = -normalWorld;
-                    }
                 }
                 else {  // If the sphere center is on the capsule inner segment (degenerate case)
 
@@ -130,6 +126,11 @@ bool SphereVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseIn
                     contactPointCapsuleLocal = sphereCenter - normalCapsuleSpace * capsuleRadius;
                 }
 
+                // The normal must go from the first shape to the second one
+                if (!isSphereShape1) {
+                    normalWorld = -normalWorld;
+                }
+
                 if (penetrationDepth <= decimal(0.0)) {
 
                     // No collision
-- 
2.43.0


From bc9d2297d4b6f3e40bf4031be977e75cf2c8f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 32/38] fix: component tables release their buffer with the
 size it was allocated with

The buffers are allocated with mAlignmentMarginSize extra bytes but were
released without them, when the table grows and in the destructor.
---
 src/components/BallAndSocketJointComponents.cpp | 2 +-
 src/components/BodyComponents.cpp               | 2 +-
 src/components/ColliderComponents.cpp           | 2 +-
 src/components/Components.cpp                   | 2 +-
 src/components/FixedJointComponents.cpp         | 2 +-
 src/components/HingeJointComponents.cpp         | 2 +-
 src/components/JointComponents.cpp              | 2 +-
 src/components/RigidBodyComponents.cpp          | 2 +-
 src/components/SliderJointComponents.cpp        | 2 +-
 src/components/TransformComponents.cpp          | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/components/BallAndSocketJointComponents.cpp b/src/components/BallAndSocketJointComponents.cpp
index d51603a..0bd28f6 100644
--- a/src/components/BallAndSocketJointComponents.cpp
+++ b/src/components/BallAndSocketJointComponents.cpp
@@ -122,7 +122,7 @@ void BallAndSocketJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newConeLimitACrossB, mConeLimitACrossB, mNbComponents * sizeof(Vector3));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/BodyComponents.cpp b/src/components/BodyComponents.cpp
index 2c4b3db..c5f627e 100644
--- a/src/components/BodyComponents.cpp
+++ b/src/components/BodyComponents.cpp
@@ -82,7 +82,7 @@ void BodyComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newHasSimulationCollider, mHasSimulationCollider, mNbComponents * sizeof(bool));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/ColliderComponents.cpp b/src/components/ColliderComponents.cpp
index 608017e..a853c28 100644
--- a/src/components/ColliderComponents.cpp
+++ b/src/components/ColliderComponents.cpp
@@ -111,7 +111,7 @@ void ColliderComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(materials, mMaterials, mNbComponents * sizeof(Material));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/Components.cpp b/src/components/Components.cpp
index a920a78..691a324 100644
--- a/src/components/Components.cpp
+++ b/src/components/Components.cpp
@@ -50,7 +50,7 @@ Components::~Components() {
         }
 
         // Size for the data of a single component (in bytes)
-        const size_t totalSizeBytes = mNbAllocatedComponents * mComponentDataSize;
+        const size_t totalSizeBytes = mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize;
 
         // Release the allocated memory
         mMemoryAllocator.release(mBuffer, totalSizeBytes);
diff --git a/src/components/FixedJointComponents.cpp b/src/components/FixedJointComponents.cpp
index 0eef687..bb884e6 100644
--- a/src/components/FixedJointComponents.cpp
+++ b/src/components/FixedJointComponents.cpp
@@ -111,7 +111,7 @@ void FixedJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newInitOrientationDifferenceInv, mInitOrientationDifferenceInv, mNbComponents * sizeof(Quaternion));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/HingeJointComponents.cpp b/src/components/HingeJointComponents.cpp
index 9997ea5..a3b5fb4 100644
--- a/src/components/HingeJointComponents.cpp
+++ b/src/components/HingeJointComponents.cpp
@@ -176,7 +176,7 @@ void HingeJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newMaxMotorTorque, mMaxMotorTorque, mNbComponents * sizeof(decimal));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/JointComponents.cpp b/src/components/JointComponents.cpp
index ce4266a..9ee0f77 100644
--- a/src/components/JointComponents.cpp
+++ b/src/components/JointComponents.cpp
@@ -87,7 +87,7 @@ void JointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newIsAlreadyInIsland, mIsAlreadyInIsland, mNbComponents * sizeof(bool));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/RigidBodyComponents.cpp b/src/components/RigidBodyComponents.cpp
index 897af47..62e5596 100644
--- a/src/components/RigidBodyComponents.cpp
+++ b/src/components/RigidBodyComponents.cpp
@@ -165,7 +165,7 @@ void RigidBodyComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newAngularLockAxisFactors, mAngularLockAxisFactors, mNbComponents * sizeof(Vector3));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/SliderJointComponents.cpp b/src/components/SliderJointComponents.cpp
index 3cd7747..d3a3067 100644
--- a/src/components/SliderJointComponents.cpp
+++ b/src/components/SliderJointComponents.cpp
@@ -193,7 +193,7 @@ void SliderJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newR1PlusUCrossSliderAxis, mR1PlusUCrossSliderAxis, mNbComponents * sizeof(Vector3));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/TransformComponents.cpp b/src/components/TransformComponents.cpp
index 36ee2e7..bfac6e6 100644
--- a/src/components/TransformComponents.cpp
+++ b/src/components/TransformComponents.cpp
@@ -70,7 +70,7 @@ void TransformComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newEntities, mBodies, mNbComponents * sizeof(Entity));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
-- 
2.43.0


From a4e543b8407b704fdea7b0cf22d016d4ecf32c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 33/38] fix: CollisionDispatch releases a replaced default
 algorithm with its allocated size

The default algorithms are allocated with the size rounded up to the
alignment; the destructor uses it, the setters used sizeof.
---
 src/collision/narrowphase/CollisionDispatch.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collision/narrowphase/CollisionDispatch.cpp b/src/collision/narrowphase/CollisionDispatch.cpp
index 57f4eb3..be6e7ba 100644
--- a/src/collision/narrowphase/CollisionDispatch.cpp
+++ b/src/collision/narrowphase/CollisionDispatch.cpp
@@ -118,7 +118,7 @@ NarrowPhaseAlgorithmType CollisionDispatch::selectAlgorithm(int type1, int type2
 void CollisionDispatch::setSphereVsSphereAlgorithm(SphereVsSphereAlgorithm* algorithm) {
 
     if (mIsSphereVsSphereDefault) {
-        mAllocator.release(mSphereVsSphereAlgorithm, sizeof(SphereVsSphereAlgorithm));
+        mAllocator.release(mSphereVsSphereAlgorithm, mSphereVsSphereAllocatedSize);
         mIsSphereVsSphereDefault = false;
     }
 
@@ -131,7 +131,7 @@ void CollisionDispatch::setSphereVsSphereAlgorithm(SphereVsSphereAlgorithm* algo
 void CollisionDispatch::setSphereVsCapsuleAlgorithm(SphereVsCapsuleAlgorithm* algorithm) {
 
     if (mIsSphereVsCapsuleDefault) {
-        mAllocator.release(mSphereVsCapsuleAlgorithm, sizeof(SphereVsCapsuleAlgorithm));
+        mAllocator.release(mSphereVsCapsuleAlgorithm, mSphereVsCapsuleAllocatedSize);
         mIsSphereVsCapsuleDefault = false;
     }
 
@@ -144,7 +144,7 @@ void CollisionDispatch::setSphereVsCapsuleAlgorithm(SphereVsCapsuleAlgorithm* al
 void CollisionDispatch::setCapsuleVsCapsuleAlgorithm(CapsuleVsCapsuleAlgorithm* algorithm) {
 
     if (mIsCapsuleVsCapsuleDefault) {
-        mAllocator.release(mCapsuleVsCapsuleAlgorithm, sizeof(CapsuleVsCapsuleAlgorithm));
+        mAllocator.release(mCapsuleVsCapsuleAlgorithm, mCapsuleVsCapsuleAllocatedSize);
         mIsCapsuleVsCapsuleDefault = false;
     }
 
@@ -157,7 +157,7 @@ void CollisionDispatch::setCapsuleVsCapsuleAlgorithm(CapsuleVsCapsuleAlgorithm*
 void CollisionDispatch::setSphereVsConvexPolyhedronAlgorithm(SphereVsConvexPolyhedronAlgorithm* algorithm) {
 
     if (mIsSphereVsConvexPolyhedronDefault) {
-        mAllocator.release(mSphereVsConvexPolyhedronAlgorithm, sizeof(SphereVsConvexPolyhedronAlgorithm));
+        mAllocator.release(mSphereVsConvexPolyhedronAlgorithm, mSphereVsConvexPolyAllocatedSize);
         mIsSphereVsConvexPolyhedronDefault = false;
     }
 
@@ -170,7 +170,7 @@ void CollisionDispatch::setSphereVsConvexPolyhedronAlgorithm(SphereVsConvexPolyh
 void CollisionDispatch::setCapsuleVsConvexPolyhedronAlgorithm(CapsuleVsConvexPolyhedronAlgorithm* algorithm) {
 
     if (mIsCapsuleVsConvexPolyhedronDefault) {
-        mAllocator.release(mCapsuleVsConvexPolyhedronAlgorithm, sizeof(CapsuleVsConvexPolyhedronAlgorithm));
+        mAllocator.release(mCapsuleVsConvexPolyhedronAlgorithm, mCapsuleVsConvexPolyAllocatedSize);
         mIsCapsuleVsConvexPolyhedronDefault = false;
     }
 
@@ -183,7 +183,7 @@ void CollisionDispatch::setCapsuleVsConvexPolyhedronAlgorithm(CapsuleVsConvexPol
 void CollisionDispatch::setConvexPolyhedronVsConvexPolyhedronAlgorithm(ConvexPolyhedronVsConvexPolyhedronAlgorithm* algorithm) {
 
     if (mIsConvexPolyhedronVsConvexPolyhedronDefault) {
-        mAllocator.release(mConvexPolyhedronVsConvexPolyhedronAlgorithm, sizeof(ConvexPolyhedronVsConvexPolyhedronAlgorithm));
+        mAllocator.release(mConvexPolyhedronVsConvexPolyhedronAlgorithm, mConvexPolyVsConvexPolyAllocatedSize);
         mIsConvexPolyhedronVsConvexPolyhedronDefault = false;
     }
 
-- 
2.43.0


From 79c7131bba652d5546bdf0a8748c2a81c87dd459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 34/38] fix: last frame collision infos are released with the
 size they were allocated with

addLastFrameInfoIfNecessary() allocates the size rounded up to the
alignment and clearObsoleteLastFrameInfos() releases that size, but
destroyLastFrameCollisionInfos() released sizeof.
---
 include/reactphysics3d/engine/OverlappingPairs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/reactphysics3d/engine/OverlappingPairs.h b/include/reactphysics3d/engine/OverlappingPairs.h
index b08bd60..d73dff4 100644
--- a/include/reactphysics3d/engine/OverlappingPairs.h
+++ b/include/reactphysics3d/engine/OverlappingPairs.h
@@ -221,7 +221,8 @@ class OverlappingPairs {
                         it->second->LastFrameCollisionInfo::~LastFrameCollisionInfo();
 
                         // Release memory
-                        mPoolAllocator->release(it->second, sizeof(LastFrameCollisionInfo));
+                        const size_t allocatedMemory = std::ceil(sizeof(LastFrameCollisionInfo) / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+                        mPoolAllocator->release(it->second, allocatedMemory);
                     }
 
                     lastFrameCollisionInfos.clear();
-- 
2.43.0


From 2524883584bdc579e599b7fc97bcbc8225218a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:54 +0000
Subject: [PATCH 35/38] fix: an invalid convex mesh is refused before its edges
 are computed

ConvexMesh::init() went on with the half-edges, normals and volume of a
mesh it had already found invalid (open mesh, no face, face with less than
three vertices) and read map entries and faces that do not exist.
---
 src/collision/ConvexMesh.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/collision/ConvexMesh.cpp b/src/collision/ConvexMesh.cpp
index e301ea6..d8ec97d 100644
--- a/src/collision/ConvexMesh.cpp
+++ b/src/collision/ConvexMesh.cpp
@@ -64,6 +64,9 @@ bool ConvexMesh::init(const PolygonVertexArray& polygonVertexArray, std::vector<
     // Create the half-edge structure of the mesh
     isValid &= createHalfEdgeStructure(polygonVertexArray, errors);
 
+    // The faces and edges of an invalid mesh must not be used
+    if (!isValid) return false;
+
     // Compute the faces normals
     isValid &= computeFacesNormals(errors);
 
@@ -172,11 +175,11 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
         isValid = false;
     }
 
-    //if (isValid) {
+    if (isValid) {
 
         // Initialize the half-edge structure
         mHalfEdgeStructure.computeHalfEdges();
-    //}
+    }
 
     return isValid;
 }
-- 
2.43.0


From 958ecd0f96fa806443e8243d1c266a39c81ef017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 36/38] fix: a convex mesh with missing vertices or
 inconsistent edges is refused

A face index out of range, an edge used twice in the same direction and an
edge with a single face passed the Euler formula test (or crashed) and the
half-edge structure was then built from keys that do not exist.
---
 src/collision/ConvexMesh.cpp | 40 ++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/collision/ConvexMesh.cpp b/src/collision/ConvexMesh.cpp
index d8ec97d..0e2d44d 100644
--- a/src/collision/ConvexMesh.cpp
+++ b/src/collision/ConvexMesh.cpp
@@ -27,6 +27,8 @@
 #include <reactphysics3d/collision/ConvexMesh.h>
 #include <reactphysics3d/memory/MemoryManager.h>
 #include <reactphysics3d/collision/PolygonVertexArray.h>
+#include <reactphysics3d/containers/Set.h>
+#include <reactphysics3d/containers/Pair.h>
 #include <reactphysics3d/utils/DefaultLogger.h>
 #include <reactphysics3d/engine/PhysicsCommon.h>
 #include <reactphysics3d/utils/Message.h>
@@ -128,6 +130,7 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
     }
 
     uint32 nbEdges = 0;
+    Set<HalfEdgeStructure::VerticesPair> halfEdges(mMemoryAllocator);
 
     // For each polygon face of the mesh
     const uint32 nbFaces = polygonVertexArray.getNbFaces();
@@ -141,6 +144,30 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
         // For each vertex of the face
         for (uint32 v=0; v < face->nbVertices; v++) {
             faceVertices.add(polygonVertexArray.getVertexIndexInFace(f, v));
+
+            // If the face refers to a vertex that does not exist
+            if (faceVertices[v] >= nbVertices) {
+
+                // Create a new error
+                errors.push_back(Message(std::string("The face with index " + std::to_string(f) + " has a vertex with index " +
+                                                     std::to_string(faceVertices[v]) + " but the PolygonVertexArray only has " +
+                                                     std::to_string(nbVertices) + " vertices")));
+
+                isValid = false;
+            }
+        }
+
+        // Each half-edge must belong to a single face
+        for (uint32 v=0; v < face->nbVertices; v++) {
+
+            const HalfEdgeStructure::VerticesPair halfEdge(faceVertices[v], faceVertices[v + 1 == face->nbVertices ? 0 : v + 1]);
+            if (!halfEdges.add(halfEdge)) {
+
+                // Create a new error
+                errors.push_back(Message(std::string("The face with index " + std::to_string(f) + " has an edge in common with another face that has not the opposite direction")));
+
+                isValid = false;
+            }
         }
 
         nbEdges += face->nbVertices;
@@ -175,6 +202,19 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
         isValid = false;
     }
 
+    // Each half-edge must have a twin (closed mesh)
+    for (auto it = halfEdges.begin(); it != halfEdges.end(); ++it) {
+
+        if (!halfEdges.contains(HalfEdgeStructure::VerticesPair(it->second, it->first))) {
+
+            // Create a new error
+            errors.push_back(Message(std::string("Convex Mesh is not closed (there is an edge with a single face)")));
+
+            isValid = false;
+            break;
+        }
+    }
+
     if (isValid) {
 
         // Initialize the half-edge structure
-- 
2.43.0


From c61a6a0afdc9e9a4856521fc4a4450c0b0df9816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 37/38] fix: triangle meshes without extent or without
 triangles are refused

With an epsilon of zero (all vertices at the origin, or none) the assertion
failed, and in release builds triangles without area were accepted because
0 is not less than 0.
---
 src/collision/TriangleMesh.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index 7c3029d..350383d 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -92,7 +92,7 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
 
     bool isValid = true;
 
-    assert(mEpsilon > 0);
+    assert(mEpsilon >= 0);
 
     const decimal epsilonSquare = mEpsilon * mEpsilon;
 
@@ -135,7 +135,7 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
             const Vector3 v2 = triangleVertexArray.getVertex(vertexIndices[1]);
             const Vector3 v3 = triangleVertexArray.getVertex(vertexIndices[2]);
             const Vector3 faceNormal = (v3 - v1).cross(v2 - v1);
-            const bool isFaceZeroArea = faceNormal.lengthSquare() < epsilonSquare;
+            const bool isFaceZeroArea = faceNormal.lengthSquare() <= epsilonSquare;
             if (isFaceZeroArea) {
 
                 // Add a warning message for the user
@@ -148,8 +148,8 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
             edgesLengthsSquare[0] = (v2 - v1).lengthSquare();
             edgesLengthsSquare[1] = (v3 - v2).lengthSquare();
             edgesLengthsSquare[2] = (v1 - v3).lengthSquare();
-            bool hasFaceZeroLengthEdge = edgesLengthsSquare[0] < epsilonSquare || edgesLengthsSquare[1] < epsilonSquare ||
-                                         edgesLengthsSquare[2] < epsilonSquare;
+            bool hasFaceZeroLengthEdge = edgesLengthsSquare[0] <= epsilonSquare || edgesLengthsSquare[1] <= epsilonSquare ||
+                                         edgesLengthsSquare[2] <= epsilonSquare;
             if (hasFaceZeroLengthEdge) {
 
                 // Add a warning message for the user
@@ -168,7 +168,7 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
                         vertexNormal[v] = triangleVertexArray.getVertexNormal(vertexIndices[v]);
 
                         // Check that the normal is not too small
-                        if (vertexNormal[v].lengthSquare() < epsilonSquare) {
+                        if (vertexNormal[v].lengthSquare() <= epsilonSquare) {
 
                             messages.push_back(Message("The length of the provided normal for vertex with index " + std::to_string(vertexIndices[v]) + " is too small"))  ;
                             isValid = false;
-- 
2.43.0


From 543b52c3164d4503ef50d156bd8f5a5873fbeba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:39 +0000
Subject: [PATCH 38/38] fix: removing the unused vertices of a triangle mesh
 includes the first one

The loop started below zero for a mesh without vertices and never looked at
vertex 0, whose normal (zero) then could not be normalized.
---
 src/collision/TriangleMesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index 350383d..f7638db 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -217,7 +217,9 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
 void TriangleMesh::removeUnusedVertices(Array<bool>& areUsedVertices) {
 
     // For each vertex of the user mesh
-    for (uint32 i=mVertices.size() - 1; i > 0; i--) {
+    for (uint32 nb=mVertices.size(); nb > 0; nb--) {
+
+        const uint32 i = nb - 1;
 
         // If the vertex is not used
         if (!areUsedVertices[i]) {
-- 
2.43.0

