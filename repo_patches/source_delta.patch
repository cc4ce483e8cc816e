From cd82d5b09e8a65ffe1d4999c35ed976a1500ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 01/30] fix: keep the last accepted time stamps per data
 loader, and only for accepted messages

They were function-local statics: shared by every loader in the process, kept
across Clear(), and moved back by rejected messages, so that 5, 3, 4 let 4 in
after 5.
---
 .../include/data_manager/data_loader.hpp             |  3 +++
 eskf_vio_backend/src/data_manager/data_loader.cpp    | 12 ++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/eskf_vio_backend/include/data_manager/data_loader.hpp b/eskf_vio_backend/include/data_manager/data_loader.hpp
index d4b5622..91917e8 100644
--- a/eskf_vio_backend/include/data_manager/data_loader.hpp
+++ b/eskf_vio_backend/include/data_manager/data_loader.hpp
@@ -13,6 +13,9 @@ namespace ESKF_VIO_BACKEND {
         std::deque<std::shared_ptr<IMUMessage>> imuMeas;
         // 时间戳起点
         fp64 timeStampOffset = NAN;
+        // 最近一次被接受的特征点追踪数据和 IMU 量测数据的时间戳
+        fp64 lastFeatTimeStamp = -INFINITY;
+        fp64 lastImuTimeStamp = -INFINITY;
     public:
         // IMU 数据周期
         fp64 imuPeriod = 0.005;
diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index ccc8391..b87d1b3 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -8,6 +8,8 @@ namespace ESKF_VIO_BACKEND {
     void DataLoader::Clear(void) {
         this->featMeas.clear();
         this->imuMeas.clear();
+        this->lastFeatTimeStamp = -INFINITY;
+        this->lastImuTimeStamp = -INFINITY;
         this->timeStampOffset = static_cast<fp64>(-1);
     }
 
@@ -24,11 +26,10 @@ namespace ESKF_VIO_BACKEND {
         }
         newFeatMeas->timeStamp -= this->timeStampOffset;
         // 仅接受时间戳递增的输入
-        static fp64 lastTimeStamp = newFeatMeas->timeStamp - 1;
-        if (newFeatMeas->timeStamp > lastTimeStamp) {
+        if (newFeatMeas->timeStamp > this->lastFeatTimeStamp) {
             this->featMeas.emplace_back(newFeatMeas);
+            this->lastFeatTimeStamp = newFeatMeas->timeStamp;
         }
-        lastTimeStamp = newFeatMeas->timeStamp;
         return true;
     }
 
@@ -40,11 +41,10 @@ namespace ESKF_VIO_BACKEND {
             this->timeStampOffset = newImuMeas->timeStamp;
         }
         newImuMeas->timeStamp -= this->timeStampOffset;
-        static fp64 lastTimeStamp = newImuMeas->timeStamp - 1;
-        if (newImuMeas->timeStamp > lastTimeStamp) {
+        if (newImuMeas->timeStamp > this->lastImuTimeStamp) {
             this->imuMeas.emplace_back(newImuMeas);
+            this->lastImuTimeStamp = newImuMeas->timeStamp;
         }
-        lastTimeStamp = newImuMeas->timeStamp;
         return true;
     }
 
-- 
2.43.0


From c6d0a5113f716d2998331d8a684b6d9909b11134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 02/30] fix: start the clock at the first message after
 DataLoader::Clear

Clear(), which the constructor calls, set the offset to -1, so the calibration
on the first message was never reached and every stamp came out 1 s late.
---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index b87d1b3..f334622 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -10,7 +10,7 @@ namespace ESKF_VIO_BACKEND {
         this->imuMeas.clear();
         this->lastFeatTimeStamp = -INFINITY;
         this->lastImuTimeStamp = -INFINITY;
-        this->timeStampOffset = static_cast<fp64>(-1);
+        this->timeStampOffset = NAN;
     }
 
 
-- 
2.43.0


From 2edd6a35814f45d4149f35d93f3e169ed7124de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 03/30] fix: stop trimming attitude items when none is left

CleanOldItems read the front of an empty deque when every item was older than
the threshold, for example after a gap in the IMU stream.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index bfdad83..501c9d2 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -121,7 +121,7 @@ namespace ESKF_VIO_BACKEND {
         if (this->items.empty()) {
             return true;
         }
-        while (Scalar(timeStamp - this->items.front()->timeStamp) > threshold) {
+        while (!this->items.empty() && Scalar(timeStamp - this->items.front()->timeStamp) > threshold) {
             this->items.pop_front();
         }
         LogInfo(">> Attitude estimator reset at " << timeStamp << "s, " << this->items.size() <<
-- 
2.43.0


From 22d73fa8d57d9a06734384139c723eedd43e56e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 04/30] fix: align the first attitude with gravity for every
 tilt

The axis was 0/0 when the accelerometer was exactly parallel to gravity, which
made the attitude NaN for good, and the small-angle quaternion left an error
that grows with the tilt (5 degrees at 45).
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 501c9d2..3a57581 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -19,12 +19,7 @@ namespace ESKF_VIO_BACKEND {
                 return false;
             }
             // 将重力加速度向量转化为旋转矩阵
-            Vector3 g_cross = g_imu.cross(g_word);
-            Scalar norm = g_cross.norm();
-            Vector3 u = g_cross / norm;
-            Scalar theta = std::atan2(norm, g_imu.transpose() * g_word);
-            Vector3 dq_v = u * theta;
-            Quaternion q_wb = Utility::DeltaQ(dq_v).normalized();
+            Quaternion q_wb = Quaternion::FromTwoVectors(g_imu, g_word);
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-- 
2.43.0


From df7611f10546c3125b4e50f308328daf537635fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 05/30] fix: integrate the gyroscope in its own direction in
 the attitude estimate

q_wb * DeltaQ(-w dt) turned the attitude the opposite way, and the accelerometer
correction with it; the propagator uses q_wb * DeltaQ(+w dt) for the same data.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 3a57581..2002483 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -49,7 +49,7 @@ namespace ESKF_VIO_BACKEND {
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
 
             // 更新姿态
-            Quaternion dq = Utility::DeltaQ(- gyrCorrect * static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp));
+            Quaternion dq = Utility::DeltaQ(gyrCorrect * static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp));
             item_1->q_wb = item_0->q_wb * dq;
             item_1->q_wb.normalize();
         }
-- 
2.43.0


From 3b6fba738fd52280909687b667a40f8a2069fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 06/30] fix: keep the attitude finite through a zero
 accelerometer sample

It was divided by its norm unchecked, and one zero sample made the integral
term, and so every later attitude, NaN. The direction is now also taken from the
bias-corrected sample, as at the start.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 2002483..5383db9 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -41,9 +41,14 @@ namespace ESKF_VIO_BACKEND {
             item_1->timeStamp = timeStamp;
             
             // 利用加速度观测，修正角速度中值
-            Vector3 acc_b_measure = accel / accel.norm();
-            Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
-            Vector3 err = acc_b_measure.cross(acc_b_target);
+            Vector3 acc_b = accel - this->bias_a;
+            Vector3 err = Vector3::Zero();
+            // 加速度为零时没有方向信息，不进行修正
+            if (acc_b.norm() > ZERO) {
+                Vector3 acc_b_measure = acc_b / acc_b.norm();
+                Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
+                err = acc_b_measure.cross(acc_b_target);
+            }
             Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro);
             this->errInt += err * this->Ki;
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
-- 
2.43.0


From dcfbc6df6d4a7f274f36d395b00fef23947cb6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 07/30] fix: answer an attitude query that lies just before the
 only item

A lone item newer than the query was skipped by both ends of the search, so the
query failed although the item was within the threshold.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 5383db9..859476f 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -78,7 +78,7 @@ namespace ESKF_VIO_BACKEND {
         }
 
         // 最小的时间戳也大于目标时间戳
-        if (this->items.size() > 1 && this->items.front()->timeStamp >= timeStamp) {
+        if (this->items.front()->timeStamp >= timeStamp) {
             if (this->items.front()->timeStamp - timeStamp < threshold) {
                 atti = this->items.front()->q_wb;
                 return true;
-- 
2.43.0


From be50681e1153a45d147adcdaf41ca417783aaa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 08/30] fix: hand raw IMU samples to the propagator when it is
 re-initialised

The attitude items held bias-corrected samples, and the propagator, which is
started from them, subtracts the same biases again.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 859476f..a174b35 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -23,8 +23,8 @@ namespace ESKF_VIO_BACKEND {
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-            newItem->accel = accel - this->bias_a;
-            newItem->gyro = gyro - this->bias_g;
+            newItem->accel = accel;
+            newItem->gyro = gyro;
             newItem->q_wb = q_wb.normalized();
             newItem->timeStamp = timeStamp;
             LogInfo(">> Attitude estimator init successfully.");
@@ -36,8 +36,8 @@ namespace ESKF_VIO_BACKEND {
             }
             std::shared_ptr<AttitudeEstimateItem> item_1(new AttitudeEstimateItem());
             this->items.emplace_back(item_1);
-            item_1->accel = accel - this->bias_a;
-            item_1->gyro = gyro - this->bias_g;
+            item_1->accel = accel;
+            item_1->gyro = gyro;
             item_1->timeStamp = timeStamp;
             
             // 利用加速度观测，修正角速度中值
@@ -49,7 +49,7 @@ namespace ESKF_VIO_BACKEND {
                 Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
                 err = acc_b_measure.cross(acc_b_target);
             }
-            Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro);
+            Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro) - this->bias_g;
             this->errInt += err * this->Ki;
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
 
-- 
2.43.0


From a742fcc21df09793950dd4481090bb2ab1d5ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 09/30] fix: start the attitude estimate from the configured
 IMU biases

Only the propagator received them, so the first attitude, and with it the
gravity direction of the whole run, was off by bias / g until the first update.
---
 eskf_vio_backend/src/backend/backend_config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eskf_vio_backend/src/backend/backend_config.cpp b/eskf_vio_backend/src/backend/backend_config.cpp
index eff0d7e..ad6d4d8 100644
--- a/eskf_vio_backend/src/backend/backend_config.cpp
+++ b/eskf_vio_backend/src/backend/backend_config.cpp
@@ -19,6 +19,7 @@ namespace ESKF_VIO_BACKEND {
                                                       this->config->imu.sigmaBiasGyroRandomWalk);
         this->propagator.bias_a = this->config->imu.defaultBiasAccel;
         this->propagator.bias_g = this->config->imu.defaultBiasGyro;
+        this->attitudeEstimator.SetBias(this->config->imu.defaultBiasAccel, this->config->imu.defaultBiasGyro);
         IMUFullState::gravity_w << 0.0, 0.0, this->config->imu.gravityNorm;
 
         this->frameManager.extrinsics.clear();
-- 
2.43.0


From 96a3a3a43b6f051603560b0777acab8c49f0c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 10/30] fix: start the propagator afresh when the backend is
 re-initialised

The queue kept the items, covariance size and pose of the previous run, so the
first update after a re-initialisation failed the covariance size check and the
backend never recovered.
---
 eskf_vio_backend/src/backend/backend_initialize.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eskf_vio_backend/src/backend/backend_initialize.cpp b/eskf_vio_backend/src/backend/backend_initialize.cpp
index 6254046..2de9a48 100644
--- a/eskf_vio_backend/src/backend/backend_initialize.cpp
+++ b/eskf_vio_backend/src/backend/backend_initialize.cpp
@@ -129,6 +129,8 @@ namespace ESKF_VIO_BACKEND {
     /* 初始化序列化 propagator */
     bool Backend::InitializePropagator(const IMUMotionState &initState,
                                        const fp64 startTime) {
+        // 清空上一次初始化遗留的序列，其协方差矩阵维度与时间戳都已经失效
+        this->propagator.items.clear();
         // 首帧位置设置为原点，将首帧位姿和速度赋值给 propagator 的 initState
         this->propagator.initState.p_wb = initState.p_wb;
         this->propagator.initState.v_wb = initState.v_wb;
-- 
2.43.0


From 9627b44f39236023eb564889914c360e4f81ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 11/30] fix: publish no state while the backend waits for
 initialisation

After Reset() or a failed update the last state of the abandoned run was still
returned as current, with its old time stamp, until the next initialisation.
---
 eskf_vio_backend/src/backend/backend.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/backend/backend.cpp b/eskf_vio_backend/src/backend/backend.cpp
index 389b05c..2456fbe 100644
--- a/eskf_vio_backend/src/backend/backend.cpp
+++ b/eskf_vio_backend/src/backend/backend.cpp
@@ -115,7 +115,7 @@ namespace ESKF_VIO_BACKEND {
 
     /* 输出最新 Propagate 点估计 */
     bool Backend::PublishPropagateState(IMUFullState &state, fp64 &timeStamp) {
-        if (this->propagator.items.empty()) {
+        if (this->status == NEED_INIT || this->propagator.items.empty()) {
             return false;
         }
         state.p_wb = this->propagator.items.back()->nominalState.p_wb;
@@ -130,7 +130,7 @@ namespace ESKF_VIO_BACKEND {
 
     /* 输出最新 Update 点估计 */
     bool Backend::PublishUpdateState(IMUFullState &state, fp64 &timeStamp) {
-        if (this->propagator.items.empty()) {
+        if (this->status == NEED_INIT || this->propagator.items.empty()) {
             return false;
         }
         state.p_wb = this->propagator.items.front()->nominalState.p_wb;
-- 
2.43.0


From 7fbe87e34ec751e909dac6438a19ea23d32de269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 12/30] fix: attribute every feature observation to the frame
 it was made in

An id that was lost and seen again was appended to the frame after its last
observation; an id listed twice in one message ran past the newest frame and was
dereferenced as a null frame; a null or empty observation was linked to the new
frame although nothing was stored for it, and read out of range at
initialisation.
---
 .../vision_data/feature_manager.cpp           | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp b/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
index ea81d8b..376b335 100644
--- a/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
+++ b/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
@@ -56,8 +56,20 @@ namespace ESKF_VIO_BACKEND {
         }
         changedFeatures.reserve(ids.size());
         for (uint32_t i = 0; i < ids.size(); ++i) {
+            // 没有有效观测的特征点，不与新帧进行关联
+            if (newObserves[i] == nullptr || newObserves[i]->norms.empty()) {
+                continue;
+            }
             auto it = this->features.find(ids[i]);
             if (it != this->features.end()) {
+                // 同一帧内重复的特征点 ID，仅保留首个观测
+                if (it->second->FinalFrameID() >= frameID) {
+                    continue;
+                }
+                // 追踪曾经中断时，中断的几帧用空的观测填补，使得观测与帧 ID 保持对应
+                while (it->second->FinalFrameID() + 1 < frameID) {
+                    it->second->observes.emplace_back(new FeatureObserve());
+                }
                 // 对应特征点已经存在时，直接添加观测
                 it->second->AddNewObserve(newObserves[i]);
                 changedFeatures.emplace_back(it->second);
@@ -101,6 +113,10 @@ namespace ESKF_VIO_BACKEND {
                         feature->observes[i] = feature->observes[i + 1];
                     }
                     feature->observes.resize(feature->observes.size() - 1);
+                    if (feature->observeNum == 0) {
+                        needDelete.emplace_back(feature->id);
+                        continue;
+                    }
                 } else if (frameID < feature->firstFrameID) {
                     // 如果需要删除的观测，在这个特征点的所有观测之前，需要调整其首次观测
                     --feature->firstFrameID;
@@ -124,6 +140,10 @@ namespace ESKF_VIO_BACKEND {
                         feature->observes[i] = feature->observes[i + 1];
                     }
                     feature->observes.resize(feature->observes.size() - 1);
+                    if (feature->observeNum == 0) {
+                        needDelete.emplace_back(feature->id);
+                        continue;
+                    }
                     // 调整首帧观测的 ID
                     ++feature->firstFrameID;
                 }
-- 
2.43.0


From de7fa696e4f2e8de725cc57d84a8410dd7038de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 13/30] fix: ignore observations of cameras without extrinsics

A camera id beyond the configured T_bc files indexed the extrinsics out of
range in the triangulation and in the measurement function.
---
 eskf_vio_backend/src/backend/backend.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/backend/backend.cpp b/eskf_vio_backend/src/backend/backend.cpp
index 2456fbe..f9ddc90 100644
--- a/eskf_vio_backend/src/backend/backend.cpp
+++ b/eskf_vio_backend/src/backend/backend.cpp
@@ -158,9 +158,24 @@ namespace ESKF_VIO_BACKEND {
         std::shared_ptr<Frame> newFrame(new Frame(featMeas->timeStamp));
         this->frameManager.AddNewFrame(newFrame);
 
+        // 仅保留已知外参的相机的观测
+        std::vector<std::shared_ptr<FeatureObserve>> observes;
+        observes.reserve(featMeas->observes.size());
+        for (const auto &observe : featMeas->observes) {
+            std::shared_ptr<FeatureObserve> validObserve(new FeatureObserve());
+            if (observe != nullptr) {
+                for (const auto &item : observe->norms) {
+                    if (item.first < this->frameManager.extrinsics.size()) {
+                        validObserve->norms.insert(item);
+                    }
+                }
+            }
+            observes.emplace_back(validObserve);
+        }
+
         // 特征点追踪结果添加到 feature manager
         std::vector<std::shared_ptr<Feature>> newObserveFeatures;
-        this->featureManager.AddNewFeatures(featMeas->ids, featMeas->observes,
+        this->featureManager.AddNewFeatures(featMeas->ids, observes,
             newFrame->id, newObserveFeatures);
 
         // 新帧关联特征点追踪结果
-- 
2.43.0


From d419a520a63dd3207e78bb0f456bb73620d0eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 14/30] fix: refuse null messages, and allocate the packed
 output as PopOneMessage does

Both dereferenced the null pointer.
---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index f334622..33e4902 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -17,6 +17,9 @@ namespace ESKF_VIO_BACKEND {
     /* 输入一帧特征点追踪结果 */
     bool DataLoader::PushFeaturesMessage(const std::shared_ptr<FeaturesMessage> &newFeatMeas) {
         // 检查 newFeatMeas 中数据是否合规
+        if (newFeatMeas == nullptr) {
+            return false;
+        }
         if (newFeatMeas->ids.size() != newFeatMeas->observes.size()) {
             return false;
         }
@@ -36,6 +39,9 @@ namespace ESKF_VIO_BACKEND {
 
     /* 输入一刻 IMU 量测结果 */
     bool DataLoader::PushIMUMessage(const std::shared_ptr<IMUMessage> &newImuMeas) {
+        if (newImuMeas == nullptr) {
+            return false;
+        }
         // 校准时间戳
         if (std::isnan(this->timeStampOffset)) {
             this->timeStampOffset = newImuMeas->timeStamp;
@@ -90,6 +96,10 @@ namespace ESKF_VIO_BACKEND {
 
     /* 仅当 features message 存在时，按时间戳输出下一捆数据 */
     bool DataLoader::PopPackedMessage(std::shared_ptr<CombinedMessage> &output) {
+        if (output == nullptr) {
+            std::shared_ptr<CombinedMessage> msg(new CombinedMessage());
+            output = msg;
+        }
         output->Clear();
         // 如果队列为空，则返回 false
         if (this->imuMeas.empty() || this->featMeas.empty()) {
-- 
2.43.0


From 499f74327747c77d0997e5d5a1e01e04fd0cbcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 15/30] fix: reject malformed matrix files instead of
 overrunning or half reading them

A file with more lines than expected, or a trailing line of white space, was
written past the end of the matrix; with missing rows or columns the remaining
entries kept what an earlier file had left there, and the load succeeded.
---
 eskf_vio_backend/src/config/config.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/config/config.cpp b/eskf_vio_backend/src/config/config.cpp
index 3a6b28e..5c0f953 100644
--- a/eskf_vio_backend/src/config/config.cpp
+++ b/eskf_vio_backend/src/config/config.cpp
@@ -116,13 +116,15 @@ namespace ESKF_VIO_BACKEND {
         std::string oneLine;
         mat.resize(rows, cols);
         uint32_t row = 0;
-        while (std::getline(fsMatrix, oneLine) && !oneLine.empty()) {
+        while (row < rows && std::getline(fsMatrix, oneLine) && !oneLine.empty()) {
             std::istringstream matData(oneLine);
             for (uint32_t col = 0; col < cols; ++col) {
-                matData >> mat(row, col);
+                if (!(matData >> mat(row, col))) {
+                    return false;
+                }
             }
             ++row;
         }
-        return true;
+        return row == rows;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 4498d0ed22d9651ec5f29032b5b721e70fe52acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 16/30] fix: give parameters without a file their default on
 every read

The configurator is shared by all backends of the process, so a parameter
missing from the second directory kept the value of the first one.
---
 eskf_vio_backend/src/config/config.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/config/config.cpp b/eskf_vio_backend/src/config/config.cpp
index 5c0f953..7ac3e62 100644
--- a/eskf_vio_backend/src/config/config.cpp
+++ b/eskf_vio_backend/src/config/config.cpp
@@ -14,7 +14,12 @@ namespace ESKF_VIO_BACKEND {
 
     /* 输入配置文件路径，自动搜寻所有配置项并记录在成员变量中 */
     bool Configurator::ReadConfigParams(const std::string &configPath) {
-        static Matrix tempMat;
+        Matrix tempMat;
+
+        // 没有对应文件的参数恢复为默认值，而不是上一次读取的结果
+        this->imu = IMU();
+        this->vision = Vision();
+        this->general = General();
 
         // 加载 IMU 输入频率
         if (this->LoadMatrix(configPath + "/imu_frequence.txt", 1, 1, tempMat) == true) {
-- 
2.43.0


From 4ea72d7607f4b067c37847ce317c4ba3b3fe1674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 17/30] fix: return the best RANSAC hypothesis, and fail with
 fewer than three points

The last hypothesis was returned, whatever its score, when no sample reached the
inlier rate; one or two points never filled the sample of three and looped for
ever.
---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index b71aec0..93c21b6 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -88,7 +88,7 @@ namespace ESKF_VIO_BACKEND {
                                        const std::vector<Vector2> &pts_2d,
                                        Quaternion &q_wc,
                                        Vector3 &p_wc) {
-        if (pts_3d.size() != pts_2d.size() || pts_3d.empty()) {
+        if (pts_3d.size() != pts_2d.size() || pts_3d.size() < 3) {
             return false;
         }
         uint32_t iter = this->ransacParam.maxIterateTimes;
@@ -140,6 +140,9 @@ namespace ESKF_VIO_BACKEND {
             }
             --iter;
         }
+        // 输出得分最高的模型
+        q_wc = best_q_wc;
+        p_wc = best_p_wc;
         return true;
     }
 
-- 
2.43.0


From e8c98549a6150171cbe72804873a52c116f4295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 18/30] fix: flag exactly the RANSAC inliers

Flags left in the vector by an earlier call survived resize(), and a NaN residual
counted as an inlier.
---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 93c21b6..9d82c63 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -155,12 +155,12 @@ namespace ESKF_VIO_BACKEND {
                                        Vector3 &p_wc,
                                        std::vector<bool> &isInlier) {
         RETURN_FALSE_IF_FALSE(this->EstimatePoseRANSAC(pts_3d, pts_2d, q_wc, p_wc));
-        isInlier.resize(pts_3d.size(), true);
+        isInlier.assign(pts_3d.size(), false);
         for (uint32_t i = 0; i < pts_3d.size(); ++i) {
             Vector3 p_c = q_wc.inverse() * (pts_3d[i] - p_wc);
             Vector2 r = Vector2(p_c(0) / p_c(2), p_c(1) / p_c(2)) - pts_2d[i];
-            if (r.squaredNorm() >= this->ransacParam.inlierThres) {
-                isInlier[i] = false;
+            if (r.squaredNorm() < this->ransacParam.inlierThres) {
+                isInlier[i] = true;
             }
         }
         return true;
-- 
2.43.0


From f091a5a919f8b24cf89b6ab326c03ee9a72d8aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 19/30] fix: give each thread its own scratch buffers

The function-local statics were shared by every backend of the process, so two
backends running on two threads overwrote each other's triangulation input.
---
 eskf_vio_backend/src/backend/backend_initialize.cpp    | 10 +++++-----
 .../src/update/multi_view_vision_update.cpp            | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/eskf_vio_backend/src/backend/backend_initialize.cpp b/eskf_vio_backend/src/backend/backend_initialize.cpp
index 2de9a48..963be44 100644
--- a/eskf_vio_backend/src/backend/backend_initialize.cpp
+++ b/eskf_vio_backend/src/backend/backend_initialize.cpp
@@ -53,9 +53,9 @@ namespace ESKF_VIO_BACKEND {
         }
         const Quaternion &q_wb = frame->q_wb;
         const Vector3 &p_wb = frame->p_wb;
-        static std::vector<Quaternion> all_q_wc(50);
-        static std::vector<Vector3> all_p_wc(50);
-        static std::vector<Vector2> all_norm(50);
+        static thread_local std::vector<Quaternion> all_q_wc(50);
+        static thread_local std::vector<Vector3> all_p_wc(50);
+        static thread_local std::vector<Vector2> all_norm(50);
 
         // 从 frame->features 中挑选点进行三角化，结果将保存在 feature manager 中
         for (auto iter = frame->features.begin(); iter != frame->features.end(); ++iter) {
@@ -93,8 +93,8 @@ namespace ESKF_VIO_BACKEND {
         if (frame == nullptr) {
             return false;
         }
-        static std::vector<Vector3> pts_3d(50);
-        static std::vector<Vector2> pts_2d(50);
+        static thread_local std::vector<Vector3> pts_3d(50);
+        static thread_local std::vector<Vector2> pts_2d(50);
         pts_3d.clear();
         pts_2d.clear();
         // 从 frame->features 中挑选三角化成功的点
diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index 36a1ffd..3d73ac0 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -113,9 +113,9 @@ namespace ESKF_VIO_BACKEND {
         if (feature == nullptr) {
             return false;
         }
-        static std::vector<Quaternion> all_q_wc(50);
-        static std::vector<Vector3> all_p_wc(50);
-        static std::vector<Vector2> all_norm(50);
+        static thread_local std::vector<Quaternion> all_q_wc(50);
+        static thread_local std::vector<Vector3> all_p_wc(50);
+        static thread_local std::vector<Vector2> all_norm(50);
         all_q_wc.clear();
         all_p_wc.clear();
         all_norm.clear();
@@ -309,7 +309,7 @@ namespace ESKF_VIO_BACKEND {
         this->delta_x = this->K * r;       // dx = K * r
         Matrix I_KH = - this->K * H;
         I_KH.diagonal().array() += Scalar(1);
-        static Matrix newCov;
+        static thread_local Matrix newCov;
         newCov = I_KH * this->covariance;   // P = (I - K * H) * P
         // newCov = I_KH * this->covariance * I_KH.transpose() +
         //     this->K * this->K.transpose() * R;     // P = (I - K * H) * P * (I - K * H).t + K * R * K.t
@@ -419,7 +419,7 @@ namespace ESKF_VIO_BACKEND {
         const uint32_t imuSize = IMU_STATE_SIZE;
         const uint32_t imuExSize = imuSize + exSize;
         const uint32_t fullSize = imuSize + camExSize;
-        static Matrix temp;
+        static thread_local Matrix temp;
         switch (this->margPolicy) {
             case NO_MARG:
                 return true;
-- 
2.43.0


From 3f563911d1c693632cc88a46f1de5fa2d62344ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 20/30] fix: keep rotation angles finite when rounding leaves
 the domain of acos and asin

The angle of an identity rotation and the Euler angles at 90 degrees came out NaN
whenever the matrix entry rounded past 1.
---
 eskf_vio_backend/include/utility/math_lib.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/eskf_vio_backend/include/utility/math_lib.hpp b/eskf_vio_backend/include/utility/math_lib.hpp
index 26bd13f..09e6aec 100644
--- a/eskf_vio_backend/include/utility/math_lib.hpp
+++ b/eskf_vio_backend/include/utility/math_lib.hpp
@@ -92,9 +92,10 @@ namespace ESKF_VIO_BACKEND {
 
         /* 计算旋转误差的量级，输出单位为 rad 的误差角 */
         static Scalar ComputeRotationMagnitude(Matrix33 &delta_R) {
-            Scalar magnitude = std::fabs(std::acos(
-                (delta_R.trace() - Scalar(1.0)) / Scalar(2.0)
-            ));
+            // 舍入误差可能使余弦值略微超出 [-1, 1]
+            Scalar cosine = (delta_R.trace() - Scalar(1.0)) / Scalar(2.0);
+            cosine = std::min(Scalar(1.0), std::max(Scalar(-1.0), cosine));
+            Scalar magnitude = std::fabs(std::acos(cosine));
             return magnitude;
         }
         static Scalar ComputeRotationMagnitude(Quaternion &delta_q) {
@@ -122,7 +123,7 @@ namespace ESKF_VIO_BACKEND {
             Vector3 pry;    // pitch, roll, yaw
             Matrix33 R(q_wb.inverse());
             pry.x() = std::atan2(R(1, 2), R(2, 2)) * static_cast<Scalar>(57.295779579);
-            pry.y() = std::asin(- R(0, 2)) * static_cast<Scalar>(57.295779579);
+            pry.y() = std::asin(std::min(Scalar(1.0), std::max(Scalar(-1.0), - R(0, 2)))) * static_cast<Scalar>(57.295779579);
             pry.z() = std::atan2(R(0, 1), R(0, 0)) * static_cast<Scalar>(57.295779579);
             return pry;
         }
-- 
2.43.0


From 8761375cb3e402248917197fe57843538e36a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 21/30] Add read-only monitor accessors to Backend, guarded by
 ESKF_VIO_MONITOR

---
 eskf_vio_backend/include/backend/backend.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/eskf_vio_backend/include/backend/backend.hpp b/eskf_vio_backend/include/backend/backend.hpp
index 6630744..1f4095f 100644
--- a/eskf_vio_backend/include/backend/backend.hpp
+++ b/eskf_vio_backend/include/backend/backend.hpp
@@ -75,6 +75,17 @@ namespace ESKF_VIO_BACKEND {
         /* 从指定时刻点开始，初始化序列化 propagator，递推到最新时刻 */
         bool InitializePropagator(const IMUMotionState &initState,
                                   const fp64 startTime);
+
+#ifdef ESKF_VIO_MONITOR
+    /* 仅供运行时监测使用的只读接口，默认不编译 */
+    public:
+        const DataLoader &MonitorDataLoader(void) const { return this->dataloader; }
+        const FeatureManager &MonitorFeatureManager(void) const { return this->featureManager; }
+        const FrameManager &MonitorFrameManager(void) const { return this->frameManager; }
+        const AttitudeEstimate &MonitorAttitudeEstimator(void) const { return this->attitudeEstimator; }
+        const PropagateQueue &MonitorPropagator(void) const { return this->propagator; }
+        const MultiViewVisionUpdate &MonitorVisionUpdator(void) const { return this->visionUpdator; }
+#endif
     };
 
 }
\ No newline at end of file
-- 
2.43.0


From 95786eec139c71f2d2dd714dba9524b8f5f59c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 22/30] fix: do not read a queue element after popping it

PopOneMessage compared the stamps of a camera frame and an IMU sample through
references to the queue fronts, one of which it had already popped.
---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index 33e4902..bb1c76b 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -64,8 +64,8 @@ namespace ESKF_VIO_BACKEND {
         output->Clear();
         // 如果队列都不为空，则输出时间戳最旧的数据
         if (!this->imuMeas.empty() && !this->featMeas.empty()) {
-            auto &imu = this->imuMeas.front();
-            auto &feat = this->featMeas.front();
+            auto imu = this->imuMeas.front();
+            auto feat = this->featMeas.front();
             if (feat->timeStamp <= imu->timeStamp) {
                 output->featMeas = feat;
                 this->featMeas.pop_front();
-- 
2.43.0


From dffeffeb39ca9b4280943b0d179f53830f8b3f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 23/30] fix: apply a camera frame at the IMU sample nearest to
 it

The origin of the queue was the first sample not older than one period, so
whether a frame on an IMU sample was applied there or one sample early hung on
the rounding of the period to float (right at 100 and 200 Hz, 4 ms early at
250 Hz, always early at a power of two). Initialisation used the same one-period
margin, although it reads the attitude within 0.55 of a period.
---
 eskf_vio_backend/src/backend/backend_initialize.cpp    | 2 +-
 eskf_vio_backend/src/propagate/sequence_propagator.cpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/backend/backend_initialize.cpp b/eskf_vio_backend/src/backend/backend_initialize.cpp
index 963be44..85d7f0e 100644
--- a/eskf_vio_backend/src/backend/backend_initialize.cpp
+++ b/eskf_vio_backend/src/backend/backend_initialize.cpp
@@ -136,7 +136,7 @@ namespace ESKF_VIO_BACKEND {
         this->propagator.initState.v_wb = initState.v_wb;
         this->propagator.initState.q_wb = initState.q_wb;
         // 从 attitude estimator 提取出从首帧时刻点开始，到最新时刻的 imu 量测，依次输入到 propagator 让他递推到最新时刻
-        this->attitudeEstimator.CleanOldItems(startTime, this->dataloader.imuPeriod);
+        this->attitudeEstimator.CleanOldItems(startTime, this->dataloader.imuPeriod * 0.55);
         for (auto it = this->attitudeEstimator.items.begin(); it != this->attitudeEstimator.items.end(); ++it) {
             this->propagator.Propagate((*it)->accel, (*it)->gyro, (*it)->timeStamp);
         }
diff --git a/eskf_vio_backend/src/propagate/sequence_propagator.cpp b/eskf_vio_backend/src/propagate/sequence_propagator.cpp
index 3b58115..1832cb0 100644
--- a/eskf_vio_backend/src/propagate/sequence_propagator.cpp
+++ b/eskf_vio_backend/src/propagate/sequence_propagator.cpp
@@ -213,6 +213,11 @@ namespace ESKF_VIO_BACKEND {
                 return false;
             }
         }
+        // 若后一个 item 距离指定时刻更近，则以后一个 item 作为起点
+        while (this->items.size() > 1 && std::fabs(this->items[1]->timeStamp - timeStamp) <=
+            std::fabs(this->items[0]->timeStamp - timeStamp)) {
+            this->items.pop_front();
+        }
         LogInfo(">> Propagator reset at " << timeStamp << "s, first item time stamp is " <<
             this->items.front()->timeStamp << "s, " << this->items.size() << " items maintained.");
         return true;
-- 
2.43.0


From 62515fc189e2d45515fbdcc7af509081410e660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 24/30] fix: trim the attitude history while initialisation
 keeps failing

It was trimmed only with two frames in the window; failing attempts leave one, so the
history grew with every IMU sample until the first success.
---
 eskf_vio_backend/src/backend/backend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/backend/backend.cpp b/eskf_vio_backend/src/backend/backend.cpp
index f9ddc90..1fc2ce1 100644
--- a/eskf_vio_backend/src/backend/backend.cpp
+++ b/eskf_vio_backend/src/backend/backend.cpp
@@ -89,7 +89,7 @@ namespace ESKF_VIO_BACKEND {
             }
 
             // 清空 attitude estimator 中记录的 imu 历史量测数据和姿态估计结果，仅保留最新两帧之间的
-            if (this->frameManager.frames.size() > 1) {
+            if (!this->frameManager.frames.empty()) {
                 fp64 timeStamp = (*this->frameManager.frames.rbegin())->timeStamp;
                 this->attitudeEstimator.CleanOldItems(timeStamp, this->dataloader.imuPeriod);
             }
-- 
2.43.0


From b0e27a4e2a3838e5693800e794b41d2f2822ae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 25/30] Add monitor accessors for the loader's queue sizes,
 guarded by ESKF_VIO_MONITOR

---
 eskf_vio_backend/include/data_manager/data_loader.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eskf_vio_backend/include/data_manager/data_loader.hpp b/eskf_vio_backend/include/data_manager/data_loader.hpp
index 91917e8..c64aece 100644
--- a/eskf_vio_backend/include/data_manager/data_loader.hpp
+++ b/eskf_vio_backend/include/data_manager/data_loader.hpp
@@ -34,6 +34,12 @@ namespace ESKF_VIO_BACKEND {
         bool PopOneMessage(std::shared_ptr<CombinedMessage> &output);
         /* 仅当 features message 存在时，按时间戳输出下一捆数据 */
         bool PopPackedMessage(std::shared_ptr<CombinedMessage> &output);
+#ifdef ESKF_VIO_MONITOR
+    /* 仅供运行时监测使用的只读接口，默认不编译 */
+    public:
+        size_t MonitorWaitingImu(void) const { return this->imuMeas.size(); }
+        size_t MonitorWaitingFeatures(void) const { return this->featMeas.size(); }
+#endif
     };
 
 }
\ No newline at end of file
-- 
2.43.0


From e51852ae7294cdf1fd3c16cd7b4afa75da00011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 26/30] fix: keep usable tracks whose random scores coincide

---
 eskf_vio_backend/src/update/multi_view_vision_update.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index 3d73ac0..41c2ac1 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -155,7 +155,7 @@ namespace ESKF_VIO_BACKEND {
     /* 更新每一个点的三角测量质量，基于三角测量的质量，选择一定数量的特征点 */
     bool MultiViewVisionUpdate::SelectGoodFeatures(void) {
         auto frame = this->frameManager->frames.back();
-        std::map<fp32, std::shared_ptr<Feature>> goodFeatures;  // <score, feature_ptr>
+        std::multimap<fp32, std::shared_ptr<Feature>> goodFeatures;  // <score, feature_ptr>
         for (auto it = frame->features.begin(); it != frame->features.end(); ++it) {
             auto feature = (*it).second;
             if (this->TrianglizeMultiFrame(feature) == true) {
-- 
2.43.0


From 3784d1218426630089d68d3543355bccd550f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 27/30] fix: covariance update in the form that stays positive
 semi-definite

---
 eskf_vio_backend/src/update/multi_view_vision_update.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index 41c2ac1..1147f46 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -310,9 +310,8 @@ namespace ESKF_VIO_BACKEND {
         Matrix I_KH = - this->K * H;
         I_KH.diagonal().array() += Scalar(1);
         static thread_local Matrix newCov;
-        newCov = I_KH * this->covariance;   // P = (I - K * H) * P
-        // newCov = I_KH * this->covariance * I_KH.transpose() +
-        //     this->K * this->K.transpose() * R;     // P = (I - K * H) * P * (I - K * H).t + K * R * K.t
+        newCov = I_KH * this->covariance * I_KH.transpose() +
+            this->K * this->K.transpose() * R;     // P = (I - K * H) * P * (I - K * H).t + K * R * K.t
 
         // check cov
         for (uint32_t i = 0; i < newCov.rows(); ++i) {
-- 
2.43.0


From 975dff0959e0fa50df8791cfb28b2fb9fc18c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 28/30] fix: print messages with missing observations or IMU
 samples

FeaturesMessage::Information and CombinedMessage::Information followed null
pointers when a track had no observation, the lists differed in length or an
IMU sample was missing.
---
 eskf_vio_backend/src/data_manager/data_typedef.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/data_manager/data_typedef.cpp b/eskf_vio_backend/src/data_manager/data_typedef.cpp
index 6796ab7..eaddbc1 100644
--- a/eskf_vio_backend/src/data_manager/data_typedef.cpp
+++ b/eskf_vio_backend/src/data_manager/data_typedef.cpp
@@ -49,6 +49,10 @@ namespace ESKF_VIO_BACKEND {
         LogInfo(">> Features Message at time stamp " << this->timeStamp << "s:");
         for (uint32_t i = 0; i < this->ids.size(); ++i) {
             LogInfo("     feature id " << this->ids[i] << " is observed in:");
+            // 没有观测的特征点，不打印观测
+            if (i >= this->observes.size() || this->observes[i] == nullptr) {
+                continue;
+            }
             for (auto it = this->observes[i]->norms.begin(); it != this->observes[i]->norms.end(); ++it) {
                 LogInfo("       camera id " << it->first << " [" << it->second.transpose() << "]");
             }
@@ -96,7 +100,9 @@ namespace ESKF_VIO_BACKEND {
             this->featMeas->Information();
         }
         for (uint32_t i = 0; i < this->imuMeas.size(); ++i) {
-            this->imuMeas[i]->Information();
+            if (this->imuMeas[i] != nullptr) {
+                this->imuMeas[i]->Information();
+            }
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 6b94dbc7a31355628861363296dc55ac85174771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 29/30] fix: answer for frames outside the window

FrameManager::IsKeyFrame followed a null pointer when the frame was not in the
window, and Frame::GetCovisibleFeatures when no frame was given.
---
 .../src/data_manager/vision_data/frame_manager.cpp         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp b/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp
index cb2a539..f9456d4 100644
--- a/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp
+++ b/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp
@@ -39,6 +39,9 @@ namespace ESKF_VIO_BACKEND {
     /* 提取当前帧与某一帧之间的共视特征点 */
     std::vector<std::shared_ptr<Feature>> Frame::GetCovisibleFeatures(const std::shared_ptr<Frame> &target) {
         std::vector<std::shared_ptr<Feature>> ret;
+        if (target == nullptr) {
+            return ret;
+        }
         ret.reserve(std::min(this->features.size(), target->features.size()));
         for (auto it = this->features.begin(); it != this->features.end(); ++it) {
             if (target->features.find(it->first) != target->features.end()) {
@@ -173,6 +176,10 @@ namespace ESKF_VIO_BACKEND {
                 }
             }
         }
+        // 指定帧不在滑动窗口内
+        if (preFrame == nullptr) {
+            return false;
+        }
         // 找到两帧之间共视的特征点，统计点数和平均视差
         uint32_t trackedNum = 0;
         Scalar parallax = 0.0f;
-- 
2.43.0


From 45d00c7d27b1ecd39ef639cdbb852ddc15270caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:19 +0000
Subject: [PATCH 30/30] fix: treat eigenvalues as zero relative to the largest
 one, not to a fixed bound

---
 eskf_vio_backend/include/utility/math_lib.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/include/utility/math_lib.hpp b/eskf_vio_backend/include/utility/math_lib.hpp
index 09e6aec..02129f8 100644
--- a/eskf_vio_backend/include/utility/math_lib.hpp
+++ b/eskf_vio_backend/include/utility/math_lib.hpp
@@ -131,8 +131,10 @@ namespace ESKF_VIO_BACKEND {
         /* 计算对称矩阵的逆 */
         static Matrix Inverse(const Matrix &A) {
             Eigen::SelfAdjointEigenSolver<Matrix> saes(A);
+            // 特征值按升序排列，以最大特征值为基准判断是否为零
+            const Scalar threshold = ZERO * saes.eigenvalues().tail<1>()(0);
             Matrix Ainv = saes.eigenvectors() * Vector(
-                (saes.eigenvalues().array() > ZERO).select(
+                (saes.eigenvalues().array() > threshold).select(
                     saes.eigenvalues().array().inverse(), 0
                 )).asDiagonal() * saes.eigenvectors().transpose();
             return Ainv;
-- 
2.43.0

