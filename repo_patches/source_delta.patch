From b207b7691b955b43ebc6a9f783d70f579fbaefa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:47 +0000
Subject: [PATCH 01/85] fix: insert a registered sensor's covariance at the
 sensor's own state index

The prior covariance was inserted at the end of the sensor class (or of the
whole state for fiducials), which is the wrong place when the identifier is
not the largest or when augmented states exist.
---
 src/ekf/ekf.cpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 9fb2011..f6114f7 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -262,13 +262,7 @@ void EKF::RegisterIMU(
     return;
   }
 
-  unsigned int imu_state_end = g_body_state_size + GetImuStateSize();
-
   m_state.imu_states[imu_id] = imu_state;
-  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_state_end, imu_state_end);
-  }
   if (imu_state.GetIsExtrinsic()) {
     m_state_size += g_imu_extrinsic_state_size;
     m_imu_state_size += g_imu_extrinsic_state_size;
@@ -280,6 +274,12 @@ void EKF::RegisterIMU(
 
   RefreshIndices();
 
+  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+    unsigned int imu_index = m_state.imu_states[imu_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_index, imu_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register IMU: " << imu_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -298,17 +298,20 @@ void EKF::RegisterGPS(
     return;
   }
 
-  unsigned int gps_state_end = g_body_state_size + GetImuStateSize() + GetGpsStateSize();
   m_state.gps_states[gps_id] = gps_state;
   if (gps_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_state_end, gps_state_end);
     m_state_size += g_gps_extrinsic_state_size;
     m_gps_state_size += g_gps_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (gps_state.GetIsExtrinsic()) {
+    unsigned int gps_index = m_state.gps_states[gps_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_index, gps_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register GPS: " << gps_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -331,23 +334,24 @@ void EKF::RegisterCamera(
   m_max_track_duration = m_max_frame_period * (m_max_track_length + 1);
   m_min_aug_period = std::min(m_min_aug_period, 1 / cam_state.rate);
 
-  unsigned int cam_state_end = g_body_state_size +
-    GetImuStateSize() + GetGpsStateSize() + GetCamStateSize();
-
   if (m_primary_camera_id == 0) {
     m_primary_camera_id = cam_id;
   }
 
   m_state.cam_states[cam_id] = cam_state;
   if (cam_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_state_end, cam_state_end);
     m_state_size += g_cam_extrinsic_state_size;
     m_cam_state_size += g_cam_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (cam_state.GetIsExtrinsic()) {
+    unsigned int cam_index = m_state.cam_states[cam_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_index, cam_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Camera: " << cam_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -365,14 +369,18 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
 
   m_state.fid_states[fid_state.id] = fid_state;
   if (fid_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, m_state_size, m_state_size);
     m_state_size += g_fid_extrinsic_state_size;
     m_fid_state_size += g_fid_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (fid_state.GetIsExtrinsic()) {
+    unsigned int fid_index = m_state.fid_states[fid_state.id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, fid_index, fid_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Fiducial: " << fid_state.id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
-- 
2.43.0


From b2636d54ed53fe897472f239c4341baaf0454e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:47 +0000
Subject: [PATCH 02/85] fix: register sensors with the root of their covariance
 in square-root mode

The plain covariance was inserted into the covariance root, so the prior
variance of every calibrated sensor was squared.
---
 src/ekf/ekf.cpp             | 28 ++++++++++++++++++++--------
 src/utility/math_helper.cpp |  9 +++++++++
 src/utility/math_helper.hpp |  7 +++++++
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index f6114f7..49171b6 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -276,8 +276,11 @@ void EKF::RegisterIMU(
 
   if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
     unsigned int imu_index = m_state.imu_states[imu_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_index, imu_index);
+    Eigen::MatrixXd imu_cov = covariance.block(0, 0, imu_state.size, imu_state.size);
+    if (m_use_root_covariance) {
+      imu_cov = CovarianceRoot(imu_cov);
+    }
+    m_cov = InsertInMatrix(imu_cov, m_cov, imu_index, imu_index);
   }
 
   std::stringstream log_msg;
@@ -308,8 +311,11 @@ void EKF::RegisterGPS(
 
   if (gps_state.GetIsExtrinsic()) {
     unsigned int gps_index = m_state.gps_states[gps_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_index, gps_index);
+    Eigen::MatrixXd gps_cov = covariance.block(0, 0, gps_state.size, gps_state.size);
+    if (m_use_root_covariance) {
+      gps_cov = CovarianceRoot(gps_cov);
+    }
+    m_cov = InsertInMatrix(gps_cov, m_cov, gps_index, gps_index);
   }
 
   std::stringstream log_msg;
@@ -348,8 +354,11 @@ void EKF::RegisterCamera(
 
   if (cam_state.GetIsExtrinsic()) {
     unsigned int cam_index = m_state.cam_states[cam_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_index, cam_index);
+    Eigen::MatrixXd cam_cov = covariance.block(0, 0, cam_state.size, cam_state.size);
+    if (m_use_root_covariance) {
+      cam_cov = CovarianceRoot(cam_cov);
+    }
+    m_cov = InsertInMatrix(cam_cov, m_cov, cam_index, cam_index);
   }
 
   std::stringstream log_msg;
@@ -377,8 +386,11 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
 
   if (fid_state.GetIsExtrinsic()) {
     unsigned int fid_index = m_state.fid_states[fid_state.id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, fid_index, fid_index);
+    Eigen::MatrixXd fid_cov = covariance.block(0, 0, fid_state.size, fid_state.size);
+    if (m_use_root_covariance) {
+      fid_cov = CovarianceRoot(fid_cov);
+    }
+    m_cov = InsertInMatrix(fid_cov, m_cov, fid_index, fid_index);
   }
 
   std::stringstream log_msg;
diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 3c1893d..d400954 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -310,3 +310,12 @@ Eigen::MatrixXd QR_r(const Eigen::MatrixXd & left, const Eigen::MatrixXd & right
 
   return R_decomp;
 }
+
+Eigen::MatrixXd CovarianceRoot(const Eigen::MatrixXd & covariance)
+{
+  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> solver(covariance);
+  Eigen::MatrixXd root = solver.eigenvalues().cwiseMax(0.0).cwiseSqrt().asDiagonal() *
+    solver.eigenvectors().transpose();
+  Eigen::HouseholderQR<Eigen::MatrixXd> QR_decomp(root);
+  return QR_decomp.matrixQR().triangularView<Eigen::Upper>();
+}
diff --git a/src/utility/math_helper.hpp b/src/utility/math_helper.hpp
index 87950b9..35bc013 100644
--- a/src/utility/math_helper.hpp
+++ b/src/utility/math_helper.hpp
@@ -157,4 +157,11 @@ double mean_standard_deviation(const std::vector<Eigen::Vector3d> & input_vector
 ///
 Eigen::MatrixXd QR_r(const Eigen::MatrixXd & A, const Eigen::MatrixXd & B);
 
+///
+/// @brief Get the upper-triangular square root of a covariance matrix
+/// @param covariance Symmetric positive semi-definite matrix
+/// @return Upper-triangular matrix R such that R^T * R is the input
+///
+Eigen::MatrixXd CovarianceRoot(const Eigen::MatrixXd & covariance);
+
 #endif  // UTILITY__MATH_HELPER_HPP_
-- 
2.43.0


From bd6c79f96bf2bf9c15e2204629c3de013236609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:47 +0000
Subject: [PATCH 03/85] fix: use the matrix root of the measurement noise in
 the square-root update

The element-wise root is wrong for correlated noise, and NaN for negative
correlations.
---
 src/ekf/update/updater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/update/updater.cpp b/src/ekf/update/updater.cpp
index 52d3d3c..c22d2a7 100644
--- a/src/ekf/update/updater.cpp
+++ b/src/ekf/update/updater.cpp
@@ -36,7 +36,7 @@ void Updater::KalmanUpdate(
   Eigen::MatrixXd observation_noise;
 
   if (ekf.GetUseRootCovariance()) {
-    observation_noise = measurement_noise.cwiseSqrt();
+    observation_noise = CovarianceRoot(measurement_noise);
     innovation = QR_r(ekf.m_cov * jacobian.transpose(), observation_noise);
     gain = ekf.m_cov.transpose() * ekf.m_cov * jacobian.transpose() *
       (innovation.transpose() * innovation).inverse();
-- 
2.43.0


From 155a09580bc189551556c196a216d0e152cc3345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:47 +0000
Subject: [PATCH 04/85] fix: propagate the covariance root like the covariance

Only the body columns of the root transform with the state transition; the
columns of the sensor and augmented states were multiplied by it as well,
which destroyed their correlation with the body. The process noise is now
also propagated as in the standard form.
---
 src/ekf/ekf.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 49171b6..130c1a6 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -154,17 +154,19 @@ void EKF::PredictModel(double local_time)
     m_state.body_state.ang_b_to_l = RotVecToQuat(rot_vec) * m_state.body_state.ang_b_to_l;
 
     Eigen::MatrixXd state_transition = GetStateTransition(delta_time);
-    unsigned int alt_size = m_state_size - g_body_state_size;
 
     if (m_use_root_covariance) {
       m_cov.block<g_body_state_size, g_body_state_size>(0, 0) =
         m_cov.block<g_body_state_size, g_body_state_size>(0, 0) * state_transition.transpose();
 
-      m_cov.block(0, g_body_state_size, g_body_state_size, alt_size) =
-        state_transition * m_cov.block(0, g_body_state_size, g_body_state_size, alt_size);
+      Eigen::MatrixXd process_noise_root = m_process_noise * std::sqrt(delta_time);
+      process_noise_root.block<g_body_state_size, g_body_state_size>(0, 0) =
+        process_noise_root.block<g_body_state_size, g_body_state_size>(0, 0) *
+        state_transition.transpose();
 
-      m_cov = QR_r(m_cov, m_process_noise * std::sqrt(delta_time));
+      m_cov = QR_r(m_cov, process_noise_root);
     } else {
+      unsigned int alt_size = m_state_size - g_body_state_size;
       m_cov.diagonal() += m_process_noise.diagonal() * delta_time;
       m_cov.block<g_body_state_size, g_body_state_size>(0, 0) =
         state_transition * (m_cov.block<g_body_state_size, g_body_state_size>(0, 0)) *
-- 
2.43.0


From a8c40edbf05fd4bdcaf9dadf6e06de0007e4cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:47 +0000
Subject: [PATCH 05/85] fix: marginalize augmented states exactly in
 square-root mode

Dropping rows of the covariance root discards the uncertainty of the remaining
states; the columns have to be dropped and the root made triangular again.
---
 src/ekf/ekf.cpp             | 12 ++++++++++--
 src/utility/math_helper.cpp | 10 ++++++++++
 src/utility/math_helper.hpp | 10 ++++++++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 130c1a6..72b2f46 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -513,7 +513,11 @@ void EKF::AugmentStateIfNeeded()
 
       // Prune old states
       m_state.aug_states[0].erase(m_state.aug_states[0].begin() + i);
-      m_cov = RemoveFromMatrix(m_cov, aug_index, aug_index, g_aug_state_size);
+      if (m_use_root_covariance) {
+        m_cov = RemoveFromRoot(m_cov, aug_index, g_aug_state_size);
+      } else {
+        m_cov = RemoveFromMatrix(m_cov, aug_index, aug_index, g_aug_state_size);
+      }
 
       RefreshIndices();
     }
@@ -573,7 +577,11 @@ void EKF::AugmentStateIfNeeded(unsigned int camera_id, unsigned int frame_id)
       m_state.aug_states[camera_id].erase(m_state.aug_states[camera_id].begin());
 
       // Remove first element from covariance
-      m_cov = RemoveFromMatrix(m_cov, aug_start, aug_start, g_aug_state_size);
+      if (m_use_root_covariance) {
+        m_cov = RemoveFromRoot(m_cov, aug_start, g_aug_state_size);
+      } else {
+        m_cov = RemoveFromMatrix(m_cov, aug_start, aug_start, g_aug_state_size);
+      }
     }
 
     RefreshIndices();
diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index d400954..fd675c8 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -319,3 +319,13 @@ Eigen::MatrixXd CovarianceRoot(const Eigen::MatrixXd & covariance)
   Eigen::HouseholderQR<Eigen::MatrixXd> QR_decomp(root);
   return QR_decomp.matrixQR().triangularView<Eigen::Upper>();
 }
+
+Eigen::MatrixXd RemoveFromRoot(
+  const Eigen::MatrixXd & in_mat, unsigned int col, unsigned int size)
+{
+  Eigen::MatrixXd remaining(in_mat.rows(), in_mat.cols() - size);
+  remaining.leftCols(col) = in_mat.leftCols(col);
+  remaining.rightCols(in_mat.cols() - col - size) = in_mat.rightCols(in_mat.cols() - col - size);
+  Eigen::HouseholderQR<Eigen::MatrixXd> QR_decomp(remaining);
+  return QR_decomp.matrixQR().topRows(remaining.cols()).triangularView<Eigen::Upper>();
+}
diff --git a/src/utility/math_helper.hpp b/src/utility/math_helper.hpp
index 35bc013..7f02547 100644
--- a/src/utility/math_helper.hpp
+++ b/src/utility/math_helper.hpp
@@ -164,4 +164,14 @@ Eigen::MatrixXd QR_r(const Eigen::MatrixXd & A, const Eigen::MatrixXd & B);
 ///
 Eigen::MatrixXd CovarianceRoot(const Eigen::MatrixXd & covariance);
 
+///
+/// @brief Marginalize states from an upper-triangular covariance root
+/// @param in_mat Covariance root
+/// @param col Starting column for states to be removed
+/// @param size Size of states to be removed
+/// @return Upper-triangular covariance root of the remaining states
+///
+Eigen::MatrixXd RemoveFromRoot(
+  const Eigen::MatrixXd & in_mat, unsigned int col, unsigned int size);
+
 #endif  // UTILITY__MATH_HELPER_HPP_
-- 
2.43.0


From 726d37965de468701a217823dd54dc229fd4b2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:57 +0000
Subject: [PATCH 06/85] fix: score stationary IMU measurements with the
 covariance in square-root mode

---
 src/ekf/update/imu_updater.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index ca3ed08..137f51e 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -220,8 +220,13 @@ bool ImuUpdater::ZeroAccelerationUpdate(
     resid.segment<3>(3) = -(angular_rate - bias_g);
   }
 
+  Eigen::MatrixXd covariance = ekf.m_cov;
+  if (ekf.GetUseRootCovariance()) {
+    covariance = ekf.m_cov.transpose() * ekf.m_cov;
+  }
+
   Eigen::MatrixXd score_mat = resid.transpose() *
-    (jacobian * ekf.m_cov * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
+    (jacobian * covariance * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
     meas_noise).inverse() * resid;
 
   double score = std::abs(score_mat(0, 0));
-- 
2.43.0


From bc001f6faa79b727339ae1094469b646c12f6c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:57 +0000
Subject: [PATCH 07/85] fix: look up the newest augmented state when no time
 has passed since it

---
 src/ekf/ekf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 72b2f46..298f16b 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -640,8 +640,10 @@ AugState EKF::GetAugState(unsigned int camera_id, unsigned int frame_id, double
         }
       }
     } else {
-      alpha = (time - m_state.aug_states[aug_key].back().time) /
-        (m_current_time - m_state.aug_states[aug_key].back().time);
+      double time_since_last = m_current_time - m_state.aug_states[aug_key].back().time;
+      if (time_since_last > 0.0) {
+        alpha = (time - m_state.aug_states[aug_key].back().time) / time_since_last;
+      }
 
       aug_state_0 = m_state.aug_states[aug_key].back();
       aug_state_1.pos_b_in_l = m_state.body_state.pos_b_in_l;
-- 
2.43.0


From 6b787720485b879aec57713454f4efb68c11ff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:50 +0000
Subject: [PATCH 08/85] fix: project onto the left nullspace of the feature
 Jacobian

---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index fd675c8..58e587f 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -110,7 +110,7 @@ void ApplyLeftNullspace(const Eigen::MatrixXd & H_f, Eigen::MatrixXd & H_x, Eige
 {
   Eigen::HouseholderQR<Eigen::MatrixXd> QR_decomp(H_f);
   Eigen::MatrixXd Q_decomp = QR_decomp.householderQ();
-  Eigen::MatrixXd Q_null = Q_decomp.block(H_f.cols(), 0, H_f.rows() - H_f.cols(), H_f.rows());
+  Eigen::MatrixXd Q_null = Q_decomp.rightCols(H_f.rows() - H_f.cols()).transpose();
   H_x = Q_null * H_x;
   res = Q_null * res;
 }
-- 
2.43.0


From ff3e2f7c4ce6400b1b262fe88d35ef662564e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:50 +0000
Subject: [PATCH 09/85] fix: keep every non-zero row when compressing
 measurements

---
 src/utility/math_helper.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 58e587f..6345d16 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -134,8 +134,15 @@ void CompressMeasurements(Eigen::MatrixXd & jacobian, Eigen::VectorXd & residual
       }
     }
 
-    // Count non-zero rows after compression
-    unsigned int rows = (jacobian.array().abs() > 1e-9).rowwise().any().cast<unsigned int>().sum();
+    // Gather non-zero rows after compression
+    unsigned int rows {0};
+    for (unsigned int i = 0; i < m_rows; ++i) {
+      if ((jacobian.row(i).array().abs() > 1e-9).any()) {
+        jacobian.row(rows) = jacobian.row(i).eval();
+        residual(rows) = residual(i);
+        ++rows;
+      }
+    }
 
     // Construct the smaller jacobian and residual after measurement compression
     jacobian.conservativeResize(rows, jacobian.cols());
-- 
2.43.0


From 4faf794f8b6244f2df79aab0f1e61a1f6bd612b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:09 +0000
Subject: [PATCH 10/85] fix: include intrinsic-only IMUs in the state vector

---
 src/ekf/types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 3cdbdad..965a72a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -306,7 +306,7 @@ Eigen::VectorXd State::ToVector() const
   unsigned int idx = g_body_state_size;
 
   for (auto const & imu_iter : imu_states) {
-    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsExtrinsic()) {
+    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsIntrinsic()) {
       Eigen::VectorXd temp_vec = imu_iter.second.ToVector();
       out_vec.segment(idx, temp_vec.size()) = temp_vec;
       idx += static_cast<unsigned int>(temp_vec.size());
-- 
2.43.0


From 893c97b668d84cda9e76ab0243948db9b80cb4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:09 +0000
Subject: [PATCH 11/85] fix: count every augmented state in the state size

---
 src/ekf/types.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 965a72a..7c12c4a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -414,7 +414,9 @@ unsigned int State::GetStateSize() const
     }
   }
 
-  state_size += g_aug_state_size * aug_states.size();
+  for (auto const & aug_iter : aug_states) {
+    state_size += g_aug_state_size * static_cast<unsigned int>(aug_iter.second.size());
+  }
 
   return state_size;
 }
-- 
2.43.0


From 427feb5d4ab23731f86dcf13f4d68a39da75be50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:09 +0000
Subject: [PATCH 12/85] fix: increment each camera by its own part of the
 vector

---
 src/ekf/types.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 7c12c4a..1f291dc 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -198,6 +198,7 @@ std::map<unsigned int, CamState> & operator+=(
     l_cam_state[cam_id].pos_c_in_b += r_vector.segment<3>(idx + 0);
     l_cam_state[cam_id].ang_c_to_b =
       l_cam_state[cam_id].ang_c_to_b * RotVecToQuat(r_vector.segment<3>(idx + 3));
+    idx += g_cam_extrinsic_state_size;
   }
 
   return l_cam_state;
-- 
2.43.0


From 1fdff1de1ba6be10736deb90353a919e062c23d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:09 +0000
Subject: [PATCH 13/85] fix: set augmented states from the state vector

---
 src/ekf/types.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 1f291dc..d965afc 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -382,6 +382,14 @@ void State::SetState(const Eigen::VectorXd & state)
       idx += g_fid_extrinsic_state_size;
     }
   }
+
+  for (auto & aug_iter : aug_states) {
+    for (auto & aug_state : aug_iter.second) {
+      aug_state.pos_b_in_l = state.segment<3>(idx + 0);
+      aug_state.ang_b_to_l = RotVecToQuat(state.segment<3>(idx + 3));
+      idx += g_aug_state_size;
+    }
+  }
 }
 
 unsigned int State::GetStateSize() const
-- 
2.43.0


From 4ededd6fc4b10e1584056380aca9b3c7f8908289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:09 +0000
Subject: [PATCH 14/85] fix: convert vectors of any length in StdToEigVec

---
 src/utility/type_helper.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/utility/type_helper.cpp b/src/utility/type_helper.cpp
index 3ac2524..4da359a 100644
--- a/src/utility/type_helper.cpp
+++ b/src/utility/type_helper.cpp
@@ -27,7 +27,6 @@
 
 Eigen::VectorXd StdToEigVec(std::vector<double> const & std_vec)
 {
-  assert(std_vec.size() == 3);
   Eigen::VectorXd eig_vec(std_vec.size());
   for (unsigned int i = 0; i < std_vec.size(); ++i) {
     eig_vec(i) = std_vec[i];
-- 
2.43.0


From 92444c28bffb7fa9705a763bcefd463239259346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:09 +0000
Subject: [PATCH 15/85] fix: return a defined value for out-of-range
 coordinates

---
 src/utility/gps_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/gps_helper.cpp b/src/utility/gps_helper.cpp
index 7653089..e71a5f1 100644
--- a/src/utility/gps_helper.cpp
+++ b/src/utility/gps_helper.cpp
@@ -28,7 +28,7 @@ static constexpr double g_deg_to_rad = M_PI / 180.0;
 
 Eigen::Vector3d lla_to_ecef(const Eigen::Vector3d & lla)
 {
-  Eigen::Vector3d out;
+  Eigen::Vector3d out {0.0, 0.0, 0.0};
 
   if ((lla(0) < -90.0) || (lla(0) > +90.0) || (lla(1) < -180.0) || (lla(1) > +180.0)) {
     /// @todo: Replace with logger
-- 
2.43.0


From b8084c2e45006f3085adfdb735d0e2c67c2d6ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 16/85] fix: keep the sign of the in-plane rotation angle

---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 6345d16..6b3e77b 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -205,7 +205,7 @@ Eigen::MatrixXd matrix2d_from_vectors3d(const std::vector<Eigen::Vector3d> & inp
 
 double affine_angle(const Eigen::Affine3d & transform)
 {
-  return std::acos((transform.linear().trace() - 1) / 2);
+  return std::atan2(transform.linear()(1, 0), transform.linear()(0, 0));
 }
 
 bool kabsch_2d(
-- 
2.43.0


From 608523b01ce09e5da594898e2fe8f1705109e843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 17/85] fix: place the GPS reference at the local origin for
 any heading

---
 src/ekf/ekf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 298f16b..1573985 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -821,8 +821,8 @@ void EKF::AttemptGpsInitialization(
       (pos_stddev < m_gps_init_pos_thresh) && (ang_stddev != 0.0) &&
       (ang_stddev < std::tan(m_gps_init_ang_thresh))))
     {
-      Eigen::Vector3d delta_ref_enu = transformation.translation();
-      Eigen::Vector3d pos_e_in_g = enu_to_lla(-delta_ref_enu, init_ref_lla);
+      Eigen::Vector3d delta_ref_enu = transformation.inverse().translation();
+      Eigen::Vector3d pos_e_in_g = enu_to_lla(delta_ref_enu, init_ref_lla);
       double ang_l_to_e = affine_angle(transformation);
 
       m_debug_logger->Log(LogLevel::INFO, "GPS Updater Initialized");
-- 
2.43.0


From 577cde482949cedb4df264468c73bd1cc7bfaf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 18/85] fix: measure the GPS alignment baseline from the
 centroid of the same frame

---
 src/ekf/ekf.cpp             | 4 ++--
 src/utility/math_helper.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 1573985..f4aeff9 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -805,8 +805,8 @@ void EKF::AttemptGpsInitialization(
       gps_states_enu.push_back(ecef_to_enu(gps_ecef, init_ref_lla));
     }
 
-    double pos_stddev;
-    double ang_stddev;
+    double pos_stddev {0.0};
+    double ang_stddev {0.0};
     Eigen::Affine3d transformation;
     bool is_successful = kabsch_2d(
       m_gps_xyz_vec,
diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 6b3e77b..28ad62a 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -250,7 +250,7 @@ bool kabsch_2d(
   double sum_count{0};
   for (unsigned int i = 0; i < points_tgt.size(); ++i) {
     Eigen::Vector3d pos_error = points_tgt[i] - transform * points_src[i];
-    double baseline_dist = (points_tgt[i] - centroid_src).norm();
+    double baseline_dist = (points_tgt[i] - centroid_tgt).norm();
     pos_errors.push_back(pos_error);
     if (baseline_dist > pos_error.norm()) {
       sum_square_slopes += std::pow(pos_error.norm() / baseline_dist, 2);
-- 
2.43.0


From d4e71ee8de55cab7bc94ebb203655d69c1f55cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:58 +0000
Subject: [PATCH 19/85] fix: differentiate the antenna position by the rotation
 increment the update applies

---
 src/ekf/update/gps_updater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index ebeb210..e143d60 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -68,7 +68,7 @@ Eigen::MatrixXd GpsUpdater::GetMeasurementJacobian(EKF & ekf)
   Eigen::MatrixXd measurement_jacobian = Eigen::MatrixXd::Zero(3, ekf.GetStateSize());
   measurement_jacobian.block<3, 3>(0, 0) = Eigen::Matrix3d::Identity(3, 3);
   measurement_jacobian.block<3, 3>(0, 9) = -ang_b_to_l.toRotationMatrix() *
-    SkewSymmetric(m_pos_a_in_b) * QuaternionJacobian(ang_b_to_l);
+    SkewSymmetric(m_pos_a_in_b);
 
   if (m_is_extrinsic) {
     unsigned int gps_index = ekf.m_state.gps_states[m_id].index;
-- 
2.43.0


From a5c4cb3f1351b71199c00e1988624dbdaeff546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:22 +0000
Subject: [PATCH 20/85] fix: derive the board detection residual and Jacobians
 for the increment the update applies

The rotation residual had the sign of predicted minus measured while the Jacobian described measured minus predicted, and the rotation and board blocks were only right at identity orientations.
---
 src/ekf/update/fiducial_updater.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 606c38d..e96dd98 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -99,10 +99,9 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
 
   jacobian.block<3, 3>(0, 9) = rot_l_to_c *
     SkewSymmetric(m_pos_f_in_l - pos_b_in_l) *
-    QuaternionJacobian(ang_b_to_l).transpose();
+    rot_l_to_b.transpose();
 
-  jacobian.block<3, 3>(3, 9) = -rot_l_to_c * rot_f_to_l *
-    QuaternionJacobian(ang_b_to_l).transpose();
+  jacobian.block<3, 3>(3, 9) = -rot_b_to_c;
 
   /// @todo Test camera calibration jacobians
   if (m_is_cam_extrinsic) {
@@ -111,16 +110,15 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
 
     jacobian.block<3, 3>(0, cam_index + 3) = rot_b_to_c *
       SkewSymmetric(rot_l_to_b * (m_pos_f_in_l - pos_b_in_l) - m_pos_c_in_b) *
-      QuaternionJacobian(m_ang_c_to_b).transpose();
+      rot_b_to_c.transpose();
 
-    jacobian.block<3, 3>(3, cam_index + 3) = -rot_b_to_c *
-      QuaternionJacobian(m_ang_c_to_b).transpose() * rot_l_to_b * rot_f_to_l;
+    jacobian.block<3, 3>(3, cam_index + 3) = -Eigen::Matrix3d::Identity();
   }
 
   if (m_is_fid_extrinsic) {
     unsigned int fid_index = ekf.m_state.fid_states[m_id].index;
-    jacobian.block<3, 3>(0, fid_index + 0) = Eigen::Matrix3d::Identity();
-    jacobian.block<3, 3>(3, fid_index + 3) = Eigen::Matrix3d::Identity();
+    jacobian.block<3, 3>(0, fid_index + 0) = rot_l_to_c;
+    jacobian.block<3, 3>(3, fid_index + 3) = rot_l_to_c * rot_f_to_l;
   }
 
   return jacobian;
@@ -168,7 +166,7 @@ void FiducialUpdater::UpdateEKF(
   // Residuals for this frame
   Eigen::VectorXd res = Eigen::VectorXd::Zero(g_fid_measurement_size);
   res.segment<3>(0) = pos_measured - pred_meas.segment<3>(0);
-  res.segment<3>(3) = QuatToRotVec(RotVecToQuat(pred_meas.segment<3>(3)) * ang_measured.inverse());
+  res.segment<3>(3) = QuatToRotVec(ang_measured * RotVecToQuat(pred_meas.segment<3>(3)).inverse());
 
   Eigen::MatrixXd jacobian = GetMeasurementJacobian(ekf);
 
-- 
2.43.0


From 521cb49e6fd3b8f4bca0a4b26d52a09691a04fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:25 +0000
Subject: [PATCH 21/85] fix: differentiate the stationary IMU prediction by the
 increments the update applies

The mounting rotation block was placed in the position columns and the attitude block used the wrong rotation.
---
 src/ekf/update/imu_updater.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 137f51e..b33812c 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -164,11 +164,11 @@ Eigen::MatrixXd ImuUpdater::GetZeroAccelerationJacobian(EKF & ekf) const
   jacobian.block<3, 3>(
     0,
     9) = -SkewSymmetric(ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity) *
-    QuaternionJacobian(ang_b_to_l).transpose();
+    ang_i_to_b.inverse().toRotationMatrix();
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    jacobian.block<3, 3>(0, index_extrinsic) = -SkewSymmetric(
+    jacobian.block<3, 3>(0, index_extrinsic + 3) = -SkewSymmetric(
       ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity
     );
   }
-- 
2.43.0


From 4bf550b9be4abce9710d71576f29351e0e9d5c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:26 +0000
Subject: [PATCH 22/85] fix: predict several IMUs' measurements in the body
 frame

The body acceleration, angular rate and angular acceleration are estimated in the local frame but were combined with body-frame lever arms without rotation, a Coriolis term for a point fixed to the body was added, and the Jacobian ignored the attitude.
---
 src/ekf/update/imu_updater.cpp | 67 ++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index b33812c..ee3f019 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -307,7 +307,6 @@ bool ImuUpdater::ZeroAccelerationUpdate(
   return true;
 }
 
-/// TODO: The frames are not correct here
 Eigen::VectorXd ImuUpdater::PredictMeasurement(EKF & ekf) const
 {
   Eigen::Vector3d pos_i_in_b = ekf.m_state.imu_states[m_id].pos_i_in_b;
@@ -318,15 +317,15 @@ Eigen::VectorXd ImuUpdater::PredictMeasurement(EKF & ekf) const
 
   Eigen::VectorXd predicted_measurement(6);
 
+  Eigen::Vector3d ang_vel_b = ang_b_to_l.inverse() * ekf.m_state.body_state.ang_vel_b_in_l;
+  Eigen::Vector3d ang_acc_b = ang_b_to_l.inverse() * ekf.m_state.body_state.ang_acc_b_in_l;
+
   Eigen::Vector3d imu_acc_b =
-    ekf.m_state.body_state.acc_b_in_l +
-    ekf.m_state.body_state.ang_acc_b_in_l.cross(pos_i_in_b) +
-    ekf.m_state.body_state.ang_vel_b_in_l.cross(
-    (ekf.m_state.body_state.ang_vel_b_in_l.cross(pos_i_in_b))) +
-    2 * ekf.m_state.body_state.ang_vel_b_in_l.cross(
-    ekf.m_state.body_state.vel_b_in_l);
+    ang_b_to_l.inverse() * ekf.m_state.body_state.acc_b_in_l +
+    ang_acc_b.cross(pos_i_in_b) +
+    ang_vel_b.cross(ang_vel_b.cross(pos_i_in_b));
 
-  Eigen::Vector3d imu_omg_b = ang_b_to_l.inverse() * ekf.m_state.body_state.ang_vel_b_in_l;
+  Eigen::Vector3d imu_omg_b = ang_vel_b;
 
   // Rotate measurements in place
   predicted_measurement.segment<3>(0) = acc_bias + ang_i_to_b.inverse() * imu_acc_b;
@@ -341,50 +340,54 @@ Eigen::MatrixXd ImuUpdater::GetMeasurementJacobian(EKF & ekf) const
   Eigen::Quaterniond ang_i_to_b = ekf.m_state.imu_states[m_id].ang_i_to_b;
   Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
 
+  Eigen::Matrix3d rot_l_to_b = ang_b_to_l.inverse().toRotationMatrix();
+  Eigen::Matrix3d rot_b_to_i = ang_i_to_b.inverse().toRotationMatrix();
+  Eigen::Vector3d acc_b = rot_l_to_b * ekf.m_state.body_state.acc_b_in_l;
+  Eigen::Vector3d ang_vel_b = rot_l_to_b * ekf.m_state.body_state.ang_vel_b_in_l;
+  Eigen::Vector3d ang_acc_b = rot_l_to_b * ekf.m_state.body_state.ang_acc_b_in_l;
+
+  // Derivative of the IMU acceleration in the body frame by the body angular velocity
+  Eigen::Matrix3d acc_by_ang_vel =
+    SkewSymmetric(ang_vel_b) * SkewSymmetric(pos_i_in_b).transpose() +
+    SkewSymmetric(ang_vel_b.cross(pos_i_in_b)).transpose();
+
   Eigen::MatrixXd measurement_jacobian = Eigen::MatrixXd::Zero(6, ekf.GetStateSize());
 
   // Body Acceleration
-  measurement_jacobian.block<3, 3>(0, 6) = ang_i_to_b.inverse().toRotationMatrix() *
-    ang_b_to_l.inverse().toRotationMatrix();
+  measurement_jacobian.block<3, 3>(0, 6) = rot_b_to_i * rot_l_to_b;
 
-  // Body Angular Velocity
-  measurement_jacobian.block<3, 3>(0, 12) = ang_i_to_b.inverse().toRotationMatrix() * (
-    SkewSymmetric(ekf.m_state.body_state.ang_vel_b_in_l) *
-    SkewSymmetric(pos_i_in_b).transpose() +
-    SkewSymmetric(ekf.m_state.body_state.ang_vel_b_in_l.cross(pos_i_in_b)).transpose()
+  // Body Orientation
+  measurement_jacobian.block<3, 3>(0, 9) = rot_b_to_i * (
+    SkewSymmetric(acc_b) +
+    SkewSymmetric(pos_i_in_b).transpose() * SkewSymmetric(ang_acc_b) +
+    acc_by_ang_vel * SkewSymmetric(ang_vel_b)
   );
+  measurement_jacobian.block<3, 3>(3, 9) = rot_b_to_i * SkewSymmetric(ang_vel_b);
+
+  // Body Angular Velocity
+  measurement_jacobian.block<3, 3>(0, 12) = rot_b_to_i * acc_by_ang_vel * rot_l_to_b;
 
   // Body Angular Acceleration
-  measurement_jacobian.block<3, 3>(0, 15) = -ang_i_to_b.inverse().toRotationMatrix() *
-    SkewSymmetric(pos_i_in_b);
+  measurement_jacobian.block<3, 3>(0, 15) = -rot_b_to_i * SkewSymmetric(pos_i_in_b) * rot_l_to_b;
 
   // Body Angular Velocity
-  measurement_jacobian.block<3, 3>(3, 12) = ang_i_to_b.inverse().toRotationMatrix() *
-    ang_b_to_l.inverse().toRotationMatrix();
+  measurement_jacobian.block<3, 3>(3, 12) = rot_b_to_i * rot_l_to_b;
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    Eigen::Vector3d ang_vel_b_in_l = ekf.m_state.body_state.ang_vel_b_in_l;
-    Eigen::Vector3d ang_acc_b_in_l = ekf.m_state.body_state.ang_acc_b_in_l;
-
 
     // IMU Positional Offset
-    measurement_jacobian.block<3, 3>(0, index_extrinsic + 0) =
-      ang_i_to_b.inverse().toRotationMatrix() * (SkewSymmetric(ang_acc_b_in_l) +
-      SkewSymmetric(ang_vel_b_in_l) * SkewSymmetric(ang_vel_b_in_l)
-      );
+    measurement_jacobian.block<3, 3>(0, index_extrinsic + 0) = rot_b_to_i * (
+      SkewSymmetric(ang_acc_b) + SkewSymmetric(ang_vel_b) * SkewSymmetric(ang_vel_b));
 
     // IMU Angular Offset
     measurement_jacobian.block<3, 3>(0, index_extrinsic + 3) = SkewSymmetric(
-      ang_i_to_b.inverse() * (ang_acc_b_in_l.cross(pos_i_in_b) +
-      ang_vel_b_in_l.cross(ang_vel_b_in_l.cross(pos_i_in_b)) +
-      ang_b_to_l.inverse() * ekf.m_state.body_state.acc_b_in_l
-      )
-    );
+      rot_b_to_i * (acc_b + ang_acc_b.cross(pos_i_in_b) +
+      ang_vel_b.cross(ang_vel_b.cross(pos_i_in_b))));
 
     // IMU Angular Offset
     measurement_jacobian.block<3, 3>(3, index_extrinsic + 3) = SkewSymmetric(
-      ang_i_to_b.inverse() * ang_b_to_l.inverse() * ang_vel_b_in_l);
+      rot_b_to_i * ang_vel_b);
   }
 
   if (m_is_intrinsic) {
-- 
2.43.0


From 2266008ccc63935b1dfdcfbf715940bab5e7077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:16 +0000
Subject: [PATCH 23/85] fix: use the second radial coefficient when distorting

---
 src/ekf/update/msckf_updater.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 3ef53cf..5e5620f 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -236,10 +236,10 @@ Eigen::Vector2d MsckfUpdater::Distort(
   double r2 = x2 + y2;
   Eigen::Vector2d xy;
 
-  xy(0) = xy_norm(0) * (1 + intrinsics.k_1 * r2 + intrinsics.k_1 * r2 * r2) +
+  xy(0) = xy_norm(0) * (1 + intrinsics.k_1 * r2 + intrinsics.k_2 * r2 * r2) +
     2 * intrinsics.p_1 * xy_norm(0) * xy_norm(1) + intrinsics.p_2 * (r2 + 2 * x2);
 
-  xy(1) = xy_norm(1) * (1 + intrinsics.k_1 * r2 + intrinsics.k_1 * r2 * r2) +
+  xy(1) = xy_norm(1) * (1 + intrinsics.k_1 * r2 + intrinsics.k_2 * r2 * r2) +
     2 * intrinsics.p_2 * xy_norm(0) * xy_norm(1) + intrinsics.p_1 * (r2 + 2 * y2);
 
   return xy;
-- 
2.43.0


From d0251ffd8707b57759e08ec94bfa958bcb8b10de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:16 +0000
Subject: [PATCH 24/85] fix: triangulate features whose true position is
 unknown

Feature tracks from images never set the true position, which was used uninitialised.
---
 src/ekf/types.hpp                | 5 ++++-
 src/ekf/update/msckf_updater.cpp | 8 +++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ekf/types.hpp b/src/ekf/types.hpp
index fbb7f43..d77d67b 100644
--- a/src/ekf/types.hpp
+++ b/src/ekf/types.hpp
@@ -18,6 +18,7 @@
 
 #include <eigen3/Eigen/Eigen>
 
+#include <limits>
 #include <map>
 #include <vector>
 
@@ -290,7 +291,9 @@ typedef struct FeatureTrack
 {
   std::vector<FeaturePoint> track;        ///< @brief Vector of tracked feature keypoints
   /// @todo: Remove true feature position once MSCKF complete
-  Eigen::Vector3d true_feature_position;  ///< @brief True feature position (sim only)
+  /// @brief True feature position (sim only, otherwise not finite)
+  Eigen::Vector3d true_feature_position{
+    Eigen::Vector3d::Constant(std::numeric_limits<double>::quiet_NaN())};
 } FeatureTrack;
 
 ///
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 5e5620f..9f806c8 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -76,7 +76,9 @@ bool MsckfUpdater::TriangulateFeature(
 )
 {
   /// @todo: Need to continue debugging the triangulated features
-  if (m_use_true_triangulation) {
+  bool use_true_triangulation =
+    m_use_true_triangulation && feature_track.true_feature_position.allFinite();
+  if (use_true_triangulation) {
     pos_f_in_l = feature_track.true_feature_position;
   }
 
@@ -135,7 +137,7 @@ bool MsckfUpdater::TriangulateFeature(
     m_logger->Log(LogLevel::INFO, err_msg.str());
     pos_f_in_l_tri = Eigen::Vector3d::Zero();
     /// @todo: Add input flag
-    if (m_use_true_triangulation) {
+    if (use_true_triangulation) {
       success = true;
     } else {
       pos_f_in_l = pos_f_in_l_tri;
@@ -149,7 +151,7 @@ bool MsckfUpdater::TriangulateFeature(
     msg << "," << std::to_string(feature_track.track[0].key_point.class_id);
     msg << VectorToCommaString(pos_f_in_l_tri);
     m_triangulation_logger.RateLimitedLog(msg.str(), local_time);
-    if (!m_use_true_triangulation) {
+    if (!use_true_triangulation) {
       pos_f_in_l = pos_f_in_l_tri;
     }
     success = true;
-- 
2.43.0


From d2001113dea00fc9fab57a42977b35c1845d45bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:16 +0000
Subject: [PATCH 25/85] fix: differentiate feature projections by the rotation
 increments the update applies

---
 src/ekf/update/msckf_updater.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 9f806c8..2905c79 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -346,13 +346,13 @@ void MsckfUpdater::UpdateEKF(
       Eigen::MatrixXd H_t = Eigen::MatrixXd::Zero(3, g_aug_state_size);
       H_t.block<3, 3>(0, 0) = -rot_l_to_ci;
       H_t.block<3, 3>(0, 3) = rot_l_to_ci * SkewSymmetric(pos_f_in_l - pos_bi_in_l) *
-        QuaternionJacobian(aug_state_i.ang_b_to_l).transpose();
+        rot_bi_to_l;
 
       if (m_is_cam_extrinsic) {
         H_c.block<2, 3>(2 * i, cam_index + 0) = -H_d * H_p * rot_b_to_ci;
         H_c.block<2, 3>(2 * i, cam_index + 3) = H_d * H_p * rot_b_to_ci *
           SkewSymmetric(rot_bi_to_l.transpose() * (pos_f_in_l - pos_bi_in_l) - m_pos_c_in_b) *
-          QuaternionJacobian(m_ang_c_to_b).transpose();
+          rot_ci_to_b;
       }
 
       if (aug_state_i.alpha != 0.0) {
-- 
2.43.0


From c0a81bdd88ca650354b14e93bf280a1b909ff025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:30 +0000
Subject: [PATCH 26/85] fix: account for lens distortion in the feature
 residual and triangulation

The measured pixels of a distorting camera were compared with undistorted projections.
---
 src/ekf/update/msckf_updater.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 2905c79..185aad2 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -109,12 +109,15 @@ bool MsckfUpdater::TriangulateFeature(
       (rot_bi_to_l * m_pos_c_in_b + pos_bi_in_l) -
       (rot_b0_to_l * m_pos_c_in_b + pos_b0_in_l));
 
-    // Get the UV coordinate normal
+    // Get the undistorted UV coordinate normal
+    std::vector<cv::Point2d> points{feature_track.track[i].key_point.pt};
+    cv::undistortPoints(
+      points, points, m_intrinsics.ToCameraMatrix(), m_intrinsics.ToDistortionVector(),
+      cv::noArray(), cv::noArray(),
+      cv::TermCriteria(cv::TermCriteria::COUNT | cv::TermCriteria::EPS, 50, 1e-9));
     Eigen::Vector3d b_i;
-    b_i(0) = (static_cast<double>(feature_track.track[i].key_point.pt.x) -
-      m_intrinsics.width / 2) / (m_intrinsics.f_x / m_intrinsics.pixel_size);
-    b_i(1) = (static_cast<double>(feature_track.track[i].key_point.pt.y) -
-      m_intrinsics.height / 2) / (m_intrinsics.f_y / m_intrinsics.pixel_size);
+    b_i(0) = points[0].x;
+    b_i(1) = points[0].y;
     b_i(2) = 1;
 
     // Rotate and normalize
@@ -321,7 +324,8 @@ void MsckfUpdater::UpdateEKF(
       // Project the current feature into the current frame of reference
       Eigen::Vector3d pos_f_in_bi = rot_bi_to_l.transpose() * (pos_f_in_l - pos_bi_in_l);
       Eigen::Vector3d pos_f_in_ci = rot_ci_to_b.transpose() * (pos_f_in_bi - m_pos_c_in_b);
-      Eigen::Vector2d xy_predicted = Project(pos_f_in_ci);
+      Eigen::Vector2d xy_projected = Project(pos_f_in_ci);
+      Eigen::Vector2d xy_predicted = Distort(xy_projected, m_intrinsics);
 
       Eigen::Vector2d xy_measured;
       xy_measured(0) = (static_cast<double>(feature_track.track[i].key_point.pt.x) -
@@ -337,7 +341,7 @@ void MsckfUpdater::UpdateEKF(
 
       // Distortion Jacobian
       Eigen::MatrixXd H_d(2, 2);
-      DistortionJacobian(xy_measured, m_intrinsics, H_d);
+      DistortionJacobian(xy_projected, m_intrinsics, H_d);
 
       // Entire feature Jacobian
       H_f.block<2, 3>(2 * i, 0) = H_d * H_p * rot_l_to_ci;
-- 
2.43.0


From cf82b28fcf1eb065e4ca6d479a6a34a02cbac2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:10 +0000
Subject: [PATCH 27/85] fix: ignore feature tracks that refer to frames outside
 the augmented states

Such observations were attributed to the body position and velocity, or read past the end of an empty list.
---
 src/ekf/ekf.cpp                  | 4 ++++
 src/ekf/update/msckf_updater.cpp | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index f4aeff9..51660b1 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -621,6 +621,10 @@ AugState EKF::GetAugState(unsigned int camera_id, unsigned int frame_id, double
       aug_key = 0;
     }
 
+    if (m_state.aug_states[aug_key].empty()) {
+      return aug_state;
+    }
+
     double alpha{0.0};
     AugState aug_state_0;
     AugState aug_state_1;
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 185aad2..a8173d8 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -100,6 +100,12 @@ bool MsckfUpdater::TriangulateFeature(
     AugState aug_state_i = ekf.GetAugState(
       m_id, feature_track.track[i].frame_id, feature_track.track[i].frame_time);
 
+    // The frame was not found among the augmented states
+    if (aug_state_i.index == 0) {
+      m_logger->Log(LogLevel::INFO, "MSCKF track observation is not in the augmented states");
+      return false;
+    }
+
     const Eigen::Vector3d pos_bi_in_l = aug_state_i.pos_b_in_l;
     const Eigen::Matrix3d rot_bi_to_l = aug_state_i.ang_b_to_l.toRotationMatrix();
 
-- 
2.43.0


From f41cdd50164f554a1db618653fc3cfafaeaf22bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:00 +0000
Subject: [PATCH 28/85] fix: hold the configured orientation while the cyclic
 truth is stationary

---
 src/infrastructure/sim/truth_engine_cyclic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index 4118ceb..c721ba2 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -107,7 +107,7 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyRollPitchYaw(double time)
   Eigen::Vector3d body_rpy;
   double relative_time = time - m_stationary_time;
   if (relative_time < 0.0) {
-    body_rpy = Eigen::Vector3d::Zero(3);
+    body_rpy = m_ang_offset;
   } else {
     Eigen::Vector3d rpy_vector;
     rpy_vector[0] = m_ang_amplitude / 2.0 *
-- 
2.43.0


From bdfe2710dd93c011f269a8ab8010e6ede33879cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:00 +0000
Subject: [PATCH 29/85] fix: differentiate the whole angular rate for the
 cyclic truth's angular acceleration

---
 .../sim/truth_engine_cyclic.cpp               | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index c721ba2..1aa924e 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -186,9 +186,29 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyAngularAcceleration(double time)
     dd_rpy[2] = m_ang_amplitude * 2 * M_PI * M_PI * m_ang_frequency[2] *
       m_ang_frequency[2] * std::cos(m_ang_frequency[2] * 2 * M_PI * relative_time);
 
+    Eigen::Vector3d d_rpy;
+    d_rpy[0] = m_ang_amplitude * m_ang_frequency[0] * M_PI *
+      std::sin(m_ang_frequency[0] * 2 * M_PI * relative_time);
+    d_rpy[1] = m_ang_amplitude * m_ang_frequency[1] * M_PI *
+      std::sin(m_ang_frequency[1] * 2 * M_PI * relative_time);
+    d_rpy[2] = m_ang_amplitude * m_ang_frequency[2] * M_PI *
+      std::sin(m_ang_frequency[2] * 2 * M_PI * relative_time);
+
     Eigen::Vector3d rpy = GetBodyRollPitchYaw(time);
     Eigen::Matrix3d transform = EulerDerivativeTransform(rpy);
-    body_ang_acc = transform * dd_rpy;
+
+    // Time derivative of the transform
+    Eigen::Matrix3d d_transform;
+    d_transform.setZero();
+    d_transform(0, 2) = -std::cos(rpy[1]) * d_rpy[1];
+    d_transform(1, 1) = -std::sin(rpy[0]) * d_rpy[0];
+    d_transform(1, 2) = std::cos(rpy[0]) * std::cos(rpy[1]) * d_rpy[0] -
+      std::sin(rpy[0]) * std::sin(rpy[1]) * d_rpy[1];
+    d_transform(2, 1) = -std::cos(rpy[0]) * d_rpy[0];
+    d_transform(2, 2) = -std::sin(rpy[0]) * std::cos(rpy[1]) * d_rpy[0] -
+      std::cos(rpy[0]) * std::sin(rpy[1]) * d_rpy[1];
+
+    body_ang_acc = transform * dd_rpy + d_transform * d_rpy;
   }
   return body_ang_acc;
 }
-- 
2.43.0


From 69aa881a8b9cafa05404093a464630ef2f3080b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:00 +0000
Subject: [PATCH 30/85] fix: initialise the truth heading

---
 src/infrastructure/sim/truth_engine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine.hpp b/src/infrastructure/sim/truth_engine.hpp
index 7bca862..e07158c 100644
--- a/src/infrastructure/sim/truth_engine.hpp
+++ b/src/infrastructure/sim/truth_engine.hpp
@@ -292,7 +292,7 @@ private:
   std::map<unsigned int, cv::Point3d> m_feature_points_map;
   std::map<unsigned int, Eigen::Vector3d> m_gps_pos;
   Eigen::Vector3d m_lla_reference{0, 0, 0};
-  double m_heading;
+  double m_heading {0.0};
   double m_room_size{4};
   int m_grid_size{15};
 };
-- 
2.43.0


From 10bda56ac7c4e5c7977df4cdd1a1fa66c0f3ce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:00 +0000
Subject: [PATCH 31/85] fix: hold the first waypoint while the spline truth is
 stationary

---
 src/infrastructure/sim/truth_engine_spline.cpp | 13 ++++++++++---
 src/infrastructure/sim/truth_engine_spline.hpp |  2 ++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/infrastructure/sim/truth_engine_spline.cpp b/src/infrastructure/sim/truth_engine_spline.cpp
index f639db2..b9554e6 100644
--- a/src/infrastructure/sim/truth_engine_spline.cpp
+++ b/src/infrastructure/sim/truth_engine_spline.cpp
@@ -28,8 +28,10 @@ Eigen::Vector3d TruthEngineSpline::GetBodyPosition(double time)
 {
   Eigen::Vector3d body_pos;
   double relative_time = time - m_stationary_time;
-  if (IsTimeInvalid(relative_time) || IsSplineInvalid(m_pos_spline)) {
+  if (relative_time > m_max_time) {
     body_pos = Eigen::Vector3d::Zero(3);
+  } else if (relative_time < 0.0 || IsSplineInvalid(m_pos_spline)) {
+    body_pos = m_pos_start;
   } else {
     body_pos = m_pos_spline(relative_time / (m_max_time - m_stationary_time));
   }
@@ -74,8 +76,10 @@ Eigen::Quaterniond TruthEngineSpline::GetBodyAngularPosition(double time)
 {
   Eigen::Quaterniond body_ang_pos;
   double relative_time = time - m_stationary_time;
-  if (IsTimeInvalid(relative_time) || IsSplineInvalid(m_ang_spline)) {
+  if (relative_time > m_max_time) {
     body_ang_pos = Eigen::Quaterniond{1.0, 0.0, 0.0, 0.0};
+  } else if (relative_time < 0.0 || IsSplineInvalid(m_ang_spline)) {
+    body_ang_pos = EigVecToQuat(m_ang_start);
   } else {
     double spline_param = relative_time / (m_max_time - m_stationary_time);
     Eigen::Vector3d euler_angles = m_ang_spline(spline_param);
@@ -146,7 +150,10 @@ TruthEngineSpline::TruthEngineSpline(
   for (unsigned int index = 0; index < spline_size; ++index) {
     Eigen::Vector3d pos {poses[3 * index], poses[3 * index + 1], poses[3 * index + 2]};
     Eigen::Vector3d ang {angles[3 * index], angles[3 * index + 1], angles[3 * index + 2]};
-    if (index != 0) {
+    if (index == 0) {
+      m_pos_start = pos;
+      m_ang_start = ang;
+    } else {
       pos = SimRNG::VecNormRand(pos, pos_errors);
       ang = SimRNG::VecNormRand(ang, ang_errors);
     }
diff --git a/src/infrastructure/sim/truth_engine_spline.hpp b/src/infrastructure/sim/truth_engine_spline.hpp
index 0afcca5..77b12cc 100644
--- a/src/infrastructure/sim/truth_engine_spline.hpp
+++ b/src/infrastructure/sim/truth_engine_spline.hpp
@@ -93,6 +93,8 @@ private:
   static bool IsSplineInvalid(const Eigen::Spline3d & spline);
 
   double m_stationary_time {0.1};
+  Eigen::Vector3d m_pos_start {0.0, 0.0, 0.0};
+  Eigen::Vector3d m_ang_start {0.0, 0.0, 0.0};
   Eigen::Spline3d m_pos_spline;
   Eigen::Spline3d m_ang_spline;
 };
-- 
2.43.0


From 0adee1dcdb0a544e4240722af73136786e8a44f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:00 +0000
Subject: [PATCH 32/85] fix: sample the smoother truth past its maximum time

---
 src/infrastructure/sim/truth_engine_smoother.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_smoother.cpp b/src/infrastructure/sim/truth_engine_smoother.cpp
index 4bf97a6..e837d7b 100644
--- a/src/infrastructure/sim/truth_engine_smoother.cpp
+++ b/src/infrastructure/sim/truth_engine_smoother.cpp
@@ -221,7 +221,8 @@ TruthEngineSmoother::TruthEngineSmoother(
     angle_vectors.push_back(ang);
   }
 
-  auto n_points = static_cast<unsigned int>(std::ceil(m_max_time * m_rate));
+  // Values are interpolated between samples, up to and including the maximum time
+  auto n_points = static_cast<unsigned int>(std::ceil(m_max_time * m_rate)) + 2;
   for (unsigned int i = 0; i < n_points; ++i) {
     m_time.push_back(static_cast<double>(i) / m_rate);
   }
-- 
2.43.0


From 524d34e9d54a3197c2bdf3be81513be02a0c572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:00 +0000
Subject: [PATCH 33/85] fix: keep the smoother truth at its end waypoints

---
 src/infrastructure/sim/truth_engine_smoother.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/infrastructure/sim/truth_engine_smoother.cpp b/src/infrastructure/sim/truth_engine_smoother.cpp
index e837d7b..a012dcd 100644
--- a/src/infrastructure/sim/truth_engine_smoother.cpp
+++ b/src/infrastructure/sim/truth_engine_smoother.cpp
@@ -115,16 +115,22 @@ std::vector<Eigen::Vector3d> InterpolateVectors(
 )
 {
   std::vector<Eigen::Vector3d> out_vectors;
+  auto n_vectors = std::min(times.size(), vectors.size());
   unsigned int j{0};
   for (unsigned int i = 0; i < m_time.size(); ++i) {
     Eigen::Vector3d vec {0.0, 0.0, 0.0};
-    if ((m_time[i] > times[0]) && (m_time[i] < times.back())) {
-      while (j < times.size() && ((m_time[i] < times[j]) || m_time[i] > times[j + 1])) {
+    if (n_vectors == 0) {
+      out_vectors.push_back(vec);
+      continue;
+    }
+    if (m_time[i] <= times[0]) {
+      vec = vectors[0];
+    } else if (m_time[i] >= times[n_vectors - 1]) {
+      vec = vectors[n_vectors - 1];
+    } else {
+      while (m_time[i] > times[j + 1]) {
         ++j;
       }
-      if (j >= times.size()) {
-        break;
-      }
       double alpha = (times[j + 1] - m_time[i]) / (times[j + 1] - times[j]);
       vec = vectors[j] * alpha + vectors[j + 1] * (1 - alpha);
     }
-- 
2.43.0


From f0f916cc69507cdc4cc09e988d173d61ca1ed379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:00 +0000
Subject: [PATCH 34/85] fix: start the smoother truth's motion after its
 stationary time

---
 .../sim/truth_engine_smoother.cpp             | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/infrastructure/sim/truth_engine_smoother.cpp b/src/infrastructure/sim/truth_engine_smoother.cpp
index a012dcd..e8e3a43 100644
--- a/src/infrastructure/sim/truth_engine_smoother.cpp
+++ b/src/infrastructure/sim/truth_engine_smoother.cpp
@@ -38,10 +38,12 @@ Eigen::Vector3d TruthEngineSmoother::GetBodyPosition(double time)
 {
   Eigen::Vector3d body_pos;
   double relative_time = time - m_stationary_time;
-  if (IsTimeInvalid(relative_time) ) {
+  if (relative_time > m_max_time) {
     body_pos = Eigen::Vector3d::Zero(3);
+  } else if (relative_time < 0.0) {
+    body_pos = m_pos.front();
   } else {
-    body_pos = GetInterpolatedValue(time, m_pos);
+    body_pos = GetInterpolatedValue(relative_time, m_pos);
   }
   return body_pos;
 }
@@ -53,7 +55,7 @@ Eigen::Vector3d TruthEngineSmoother::GetBodyVelocity(double time)
   if (IsTimeInvalid(relative_time) ) {
     body_vel = Eigen::Vector3d::Zero(3);
   } else {
-    body_vel = GetInterpolatedValue(time, m_vel);
+    body_vel = GetInterpolatedValue(relative_time, m_vel);
   }
   return body_vel;
 }
@@ -65,7 +67,7 @@ Eigen::Vector3d TruthEngineSmoother::GetBodyAcceleration(double time)
   if (IsTimeInvalid(relative_time) ) {
     body_acc = Eigen::Vector3d::Zero(3);
   } else {
-    body_acc = GetInterpolatedValue(time, m_acc);
+    body_acc = GetInterpolatedValue(relative_time, m_acc);
   }
   return body_acc;
 }
@@ -74,10 +76,12 @@ Eigen::Quaterniond TruthEngineSmoother::GetBodyAngularPosition(double time)
 {
   Eigen::Quaterniond body_ang;
   double relative_time = time - m_stationary_time;
-  if (IsTimeInvalid(relative_time)) {
+  if (relative_time > m_max_time) {
     body_ang = Eigen::Quaterniond{1.0, 0.0, 0.0, 0.0};
+  } else if (relative_time < 0.0) {
+    body_ang = EigVecToQuat(m_ang.front());
   } else {
-    Eigen::Vector3d euler_angles = GetInterpolatedValue(time, m_ang);
+    Eigen::Vector3d euler_angles = GetInterpolatedValue(relative_time, m_ang);
     body_ang = EigVecToQuat(euler_angles);
   }
   return body_ang;
@@ -90,7 +94,7 @@ Eigen::Vector3d TruthEngineSmoother::GetBodyAngularRate(double time)
   if (IsTimeInvalid(relative_time)) {
     body_ang_vel = Eigen::Vector3d::Zero(3);
   } else {
-    body_ang_vel = GetInterpolatedValue(time, m_ang_vel);
+    body_ang_vel = GetInterpolatedValue(relative_time, m_ang_vel);
   }
   return body_ang_vel;
 }
@@ -102,7 +106,7 @@ Eigen::Vector3d TruthEngineSmoother::GetBodyAngularAcceleration(double time)
   if (IsTimeInvalid(relative_time)) {
     body_ang_acc = Eigen::Vector3d::Zero(3);
   } else {
-    body_ang_acc = GetInterpolatedValue(time, m_ang_acc);
+    body_ang_acc = GetInterpolatedValue(relative_time, m_ang_acc);
   }
   return body_ang_acc;
 }
-- 
2.43.0


From 0c822fcdf836a32a35d69f989b390abd5affb1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:54 +0000
Subject: [PATCH 35/85] fix: skip repeated waypoints in the spline truth

---
 .../sim/truth_engine_spline.cpp               | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/sim/truth_engine_spline.cpp b/src/infrastructure/sim/truth_engine_spline.cpp
index b9554e6..839fb10 100644
--- a/src/infrastructure/sim/truth_engine_spline.cpp
+++ b/src/infrastructure/sim/truth_engine_spline.cpp
@@ -127,6 +127,24 @@ Eigen::Vector3d TruthEngineSpline::GetBodyAngularAcceleration(double time)
   return body_ang_acc;
 }
 
+// Waypoints are passed at times proportional to the distance travelled, so that a repeated waypoint
+// takes no time and would make the spline fit singular.
+Eigen::MatrixXd RemoveRepeatedWaypoints(const Eigen::MatrixXd & waypoints)
+{
+  Eigen::MatrixXd distinct = waypoints;
+  Eigen::Index n_distinct {0};
+  for (Eigen::Index index = 0; index < waypoints.cols(); ++index) {
+    if (index == 0 || waypoints.col(index) != distinct.col(n_distinct - 1)) {
+      distinct.col(n_distinct) = waypoints.col(index);
+      ++n_distinct;
+    }
+  }
+  if (n_distinct < 2) {
+    return waypoints;
+  }
+  return distinct.leftCols(n_distinct);
+}
+
 TruthEngineSpline::TruthEngineSpline(
   std::vector<double> poses,
   std::vector<double> angles,
@@ -167,9 +185,9 @@ TruthEngineSpline::TruthEngineSpline(
   indices.setZero();
 
   m_pos_spline = Eigen::SplineFitting<Eigen::Spline3d>::InterpolateWithDerivatives(
-    pos_mat, derivatives, indices, 2);
+    RemoveRepeatedWaypoints(pos_mat), derivatives, indices, 2);
   m_ang_spline = Eigen::SplineFitting<Eigen::Spline3d>::InterpolateWithDerivatives(
-    ang_mat, derivatives, indices, 2);
+    RemoveRepeatedWaypoints(ang_mat), derivatives, indices, 2);
   m_stationary_time = stationary_time;
 }
 
-- 
2.43.0


From 0d036f88bbcc10f4ff501a90485109e12293482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:08 +0000
Subject: [PATCH 36/85] fix: measure the true IMU biases in error-free
 simulations

---
 src/sensors/sim/sim_imu.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sensors/sim/sim_imu.cpp b/src/sensors/sim/sim_imu.cpp
index 768d2b0..11e463e 100644
--- a/src/sensors/sim/sim_imu.cpp
+++ b/src/sensors/sim/sim_imu.cpp
@@ -99,7 +99,10 @@ std::vector<std::shared_ptr<SimImuMessage>> SimIMU::GenerateMessages() const
     sim_imu_msg->acceleration = imu_acc_i;
     sim_imu_msg->angular_rate = imu_omg_i;
 
-    if (!m_no_errors) {
+    if (m_no_errors) {
+      sim_imu_msg->acceleration += acc_bias_true;
+      sim_imu_msg->angular_rate += gyr_bias_true;
+    } else {
       sim_imu_msg->acceleration += SimRNG::VecNormRand(acc_bias_true, m_acc_error);
       sim_imu_msg->angular_rate += SimRNG::VecNormRand(gyr_bias_true, m_omg_error);
     }
-- 
2.43.0


From 4d13a438174495f5ea225f4908f03cf9e64ebcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:08 +0000
Subject: [PATCH 37/85] fix: report the variance of simulated board detections

---
 src/trackers/sim/sim_fiducial_tracker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trackers/sim/sim_fiducial_tracker.cpp b/src/trackers/sim/sim_fiducial_tracker.cpp
index 2b8d2eb..d28cf7a 100644
--- a/src/trackers/sim/sim_fiducial_tracker.cpp
+++ b/src/trackers/sim/sim_fiducial_tracker.cpp
@@ -134,8 +134,8 @@ std::shared_ptr<SimFiducialTrackerMessage> SimFiducialTracker::GenerateMessage(
     BoardDetection board_detection;
     board_detection.frame_id = frame_id;
     board_detection.frame_time = message_time;
-    board_detection.pos_error = m_t_vec_error;
-    board_detection.ang_error = m_r_vec_error;
+    board_detection.pos_error = m_t_vec_error.cwiseProduct(m_t_vec_error);
+    board_detection.ang_error = m_r_vec_error.cwiseProduct(m_r_vec_error);
     if (!m_no_errors) {
       board_detection.pos_f_in_c = SimRNG::VecNormRand(pos_f_in_c_true, m_t_vec_error);
       board_detection.ang_f_to_c = SimRNG::QuatNormRand(ang_f_to_c_true, m_r_vec_error);
-- 
2.43.0


From 457ae754b4964f431e2c442f38e67507fe5c8ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:39 +0000
Subject: [PATCH 38/85] fix: limit the log rate from the first logged time,
 also when it is zero

---
 src/infrastructure/data_logger.cpp | 3 ++-
 src/infrastructure/data_logger.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/data_logger.cpp b/src/infrastructure/data_logger.cpp
index 96b3aa2..f9ea7d2 100644
--- a/src/infrastructure/data_logger.cpp
+++ b/src/infrastructure/data_logger.cpp
@@ -49,7 +49,7 @@ void DataLogger::Log(const std::string & message)
 void DataLogger::RateLimitedLog(const std::string & message, double time)
 {
   if (m_logging_on) {
-    if (m_time_init != 0.0) {
+    if (m_is_time_init) {
       double log_count = static_cast<double>(m_log_count);
       double max_count = m_rate * (time - m_time_init);
       if ((m_rate == 0.0) || (log_count < max_count)) {
@@ -57,6 +57,7 @@ void DataLogger::RateLimitedLog(const std::string & message, double time)
       }
     } else {
       m_time_init = time;
+      m_is_time_init = true;
       Log(message);
     }
   }
diff --git a/src/infrastructure/data_logger.hpp b/src/infrastructure/data_logger.hpp
index a790360..366f9e2 100644
--- a/src/infrastructure/data_logger.hpp
+++ b/src/infrastructure/data_logger.hpp
@@ -93,6 +93,7 @@ private:
   std::string m_file_name {"default.log"};
   double m_rate{0.0};
   double m_time_init{0};
+  bool m_is_time_init{false};
   unsigned int m_log_count{0};
 };
 
-- 
2.43.0


From dd84ebdf86dd1b8c98c74153c8f39b5c2831c26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:39 +0000
Subject: [PATCH 39/85] fix: apply the log rate to board detections

---
 src/ekf/update/fiducial_updater.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index e96dd98..fc3ab77 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -68,6 +68,7 @@ FiducialUpdater::FiducialUpdater(
 
   m_fiducial_logger.DefineHeader(header.str());
   if (data_log_rate != 0.0) {m_fiducial_logger.EnableLogging();}
+  m_fiducial_logger.SetLogRate(data_log_rate);
 }
 
 void FiducialUpdater::RefreshStates(EKF & ekf)
-- 
2.43.0


From f7ec2e60e322f7a05b6bf9ad7e336a5aa9f6dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:06 +0000
Subject: [PATCH 40/85] fix: log the variances of the state in either
 covariance form

---
 src/ekf/ekf.cpp                     | 13 +++++++++----
 src/ekf/ekf.hpp                     |  8 ++++++++
 src/ekf/update/fiducial_updater.cpp | 12 ++----------
 src/ekf/update/gps_updater.cpp      |  6 +-----
 src/ekf/update/imu_updater.cpp      | 14 +++++---------
 src/ekf/update/msckf_updater.cpp    |  6 +-----
 6 files changed, 26 insertions(+), 33 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 51660b1..c2c023c 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -98,10 +98,7 @@ void EKF::LogBodyStateIfNeeded(int execution_count)
 {
   if (m_data_log_rate != 0.0) {
     std::stringstream msg;
-    Eigen::VectorXd body_cov = m_cov.block<g_body_state_size, g_body_state_size>(0, 0).diagonal();
-    if (m_use_root_covariance) {
-      body_cov = body_cov.cwiseProduct(body_cov);
-    }
+    Eigen::VectorXd body_cov = GetVariances(0, g_body_state_size);
     msg << m_current_time;
     msg << VectorToCommaString(m_state.body_state.pos_b_in_l);
     msg << VectorToCommaString(m_state.body_state.vel_b_in_l);
@@ -893,6 +890,14 @@ bool EKF::GetUseRootCovariance() const
   return m_use_root_covariance;
 }
 
+Eigen::VectorXd EKF::GetVariances(unsigned int index, unsigned int size) const
+{
+  if (m_use_root_covariance) {
+    return m_cov.middleCols(index, size).colwise().squaredNorm();
+  }
+  return m_cov.diagonal().segment(index, size);
+}
+
 bool EKF::GetUseFirstEstimateJacobian() const
 {
   return m_use_first_estimate_jacobian;
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index 114dfdf..776487b 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -375,6 +375,14 @@ public:
   ///
   bool GetUseRootCovariance() const;
 
+  ///
+  /// @brief Getter for the variances of a part of the state, in either covariance form
+  /// @param index Index of the first state
+  /// @param size Number of states
+  /// @return State variances
+  ///
+  Eigen::VectorXd GetVariances(unsigned int index, unsigned int size) const;
+
   ///
   /// @brief Getter for use first estimate Jacobians
   /// @return Use first estimate Jacobians
diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index fc3ab77..181c63e 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -196,20 +196,12 @@ void FiducialUpdater::UpdateEKF(
     msg << VectorToCommaString(ekf.m_state.fid_states[m_id].pos_f_in_l);
     msg << QuaternionToCommaString(ekf.m_state.fid_states[m_id].ang_f_to_l);
     unsigned int fid_index = ekf.m_state.fid_states[m_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      fid_index, fid_index, g_fid_extrinsic_state_size, g_fid_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(fid_index, g_fid_extrinsic_state_size);
     msg << VectorToCommaString(cov_diag);
   }
   if (m_is_cam_extrinsic) {
     unsigned int cam_index = ekf.m_state.cam_states[m_camera_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      cam_index, cam_index, g_cam_extrinsic_state_size, g_cam_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(cam_index, g_cam_extrinsic_state_size);
     msg << VectorToCommaString(cov_diag);
   }
   msg << "," << t_execution.count();
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index e143d60..225a7e1 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -135,11 +135,7 @@ void GpsUpdater::UpdateEKF(
   if (m_is_extrinsic) {
     msg << VectorToCommaString(ekf.m_state.gps_states[m_id].pos_a_in_b);
     unsigned int gps_index = ekf.m_state.gps_states[m_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      gps_index, gps_index, g_gps_extrinsic_state_size, g_gps_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(gps_index, g_gps_extrinsic_state_size);
     msg << VectorToCommaString(cov_diag);
   }
   msg << VectorToCommaString(residual);
diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index ee3f019..0b2da55 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -137,11 +137,7 @@ void ImuUpdater::UpdateEKF(
   if (m_is_extrinsic || m_is_intrinsic) {
     unsigned int imu_index = ekf.m_state.imu_states[m_id].index;
     unsigned int imu_size = ekf.m_state.imu_states[m_id].size;
-    Eigen::VectorXd cov_diag =
-      ekf.m_cov.block(imu_index, imu_index, imu_size, imu_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(imu_index, imu_size);
     msg << VectorToCommaString(cov_diag);
   }
   msg << VectorToCommaString(acceleration);
@@ -281,14 +277,14 @@ bool ImuUpdater::ZeroAccelerationUpdate(
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    Eigen::VectorXd ex_diag = ekf.m_cov.block(index_extrinsic, index_extrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(ex_diag.cwiseProduct(ex_diag));
+    msg << VectorToCommaString(
+      ekf.GetVariances(index_extrinsic, g_imu_extrinsic_state_size));
   }
 
   if (m_is_intrinsic) {
     unsigned int index_intrinsic = ekf.m_state.imu_states[m_id].index_intrinsic;
-    Eigen::VectorXd in_diag = ekf.m_cov.block(index_intrinsic, index_intrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(in_diag.cwiseProduct(in_diag));
+    msg << VectorToCommaString(
+      ekf.GetVariances(index_intrinsic, g_imu_intrinsic_state_size));
   }
 
   msg << VectorToCommaString(acceleration);
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index a8173d8..df06662 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -422,11 +422,7 @@ void MsckfUpdater::UpdateEKF(
   msg << VectorToCommaString(ekf.m_state.cam_states[m_id].pos_c_in_b);
   msg << QuaternionToCommaString(ekf.m_state.cam_states[m_id].ang_c_to_b);
   if (m_is_cam_extrinsic) {
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      cam_index, cam_index, g_cam_extrinsic_state_size, g_cam_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(cam_index, g_cam_extrinsic_state_size);
     msg << VectorToCommaString(cov_diag);
   }
   msg << "," << std::to_string(feature_tracks.size());
-- 
2.43.0


From 7526b5a4b6fea19069df994d35c39cc2bca47b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:06 +0000
Subject: [PATCH 41/85] fix: write the truth of every simulated sensor,
 whatever its number

---
 src/infrastructure/sim/truth_engine.cpp | 48 +++++++++++--------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/infrastructure/sim/truth_engine.cpp b/src/infrastructure/sim/truth_engine.cpp
index d953520..b8b72a7 100644
--- a/src/infrastructure/sim/truth_engine.cpp
+++ b/src/infrastructure/sim/truth_engine.cpp
@@ -232,22 +232,18 @@ void TruthEngine::WriteTruthData(
   header << EnumerateHeader("body_ang_vel", 3);
   header << EnumerateHeader("body_ang_acc", 3);
 
-  unsigned int sensor_count{0};
-  for (unsigned int i = 0; i < m_imu_pos.size(); ++i) {
-    ++sensor_count;
-    header << EnumerateHeader(std::string("imu_pos_") + std::to_string(sensor_count), 3);
-    header << EnumerateHeader(std::string("imu_ang_pos_") + std::to_string(sensor_count), 4);
-    header << EnumerateHeader(std::string("imu_acc_bias_") + std::to_string(sensor_count), 3);
-    header << EnumerateHeader(std::string("imu_gyr_bias_") + std::to_string(sensor_count), 3);
+  for (auto const & imu : m_imu_pos) {
+    header << EnumerateHeader(std::string("imu_pos_") + std::to_string(imu.first), 3);
+    header << EnumerateHeader(std::string("imu_ang_pos_") + std::to_string(imu.first), 4);
+    header << EnumerateHeader(std::string("imu_acc_bias_") + std::to_string(imu.first), 3);
+    header << EnumerateHeader(std::string("imu_gyr_bias_") + std::to_string(imu.first), 3);
   }
-  for (unsigned int i = 0; i < m_cam_pos.size(); ++i) {
-    ++sensor_count;
-    header << EnumerateHeader(std::string("cam_pos_") + std::to_string(sensor_count), 3);
-    header << EnumerateHeader(std::string("cam_ang_pos_") + std::to_string(sensor_count), 4);
+  for (auto const & cam : m_cam_pos) {
+    header << EnumerateHeader(std::string("cam_pos_") + std::to_string(cam.first), 3);
+    header << EnumerateHeader(std::string("cam_ang_pos_") + std::to_string(cam.first), 4);
   }
-  for (unsigned int i = 0; i < m_gps_pos.size(); ++i) {
-    ++sensor_count;
-    header << EnumerateHeader(std::string("gps_pos_") + std::to_string(sensor_count), 3);
+  for (auto const & gps : m_gps_pos) {
+    header << EnumerateHeader(std::string("gps_pos_") + std::to_string(gps.first), 3);
   }
   if (!m_gps_pos.empty()) {
     header << ",ref_lat,ref_lon,ref_alt,ref_heading";
@@ -257,7 +253,6 @@ void TruthEngine::WriteTruthData(
 
   auto num_measurements = static_cast<unsigned int>(std::floor((m_max_time + 1.0) * data_log_rate));
   for (unsigned int i = 0; i < num_measurements; ++i) {
-    sensor_count = 0;
     std::stringstream msg;
     double time = static_cast<double>(i) / data_log_rate;
     msg << time;
@@ -267,21 +262,18 @@ void TruthEngine::WriteTruthData(
     msg << QuaternionToCommaString(GetBodyAngularPosition(time));
     msg << VectorToCommaString(GetBodyAngularRate(time));
     msg << VectorToCommaString(GetBodyAngularAcceleration(time));
-    for (unsigned int j = 0; j < m_imu_pos.size(); ++j) {
-      ++sensor_count;
-      msg << VectorToCommaString(GetImuPosition(sensor_count));
-      msg << QuaternionToCommaString(GetImuAngularPosition(sensor_count));
-      msg << VectorToCommaString(GetImuAccelerometerBias(sensor_count));
-      msg << VectorToCommaString(GetImuGyroscopeBias(sensor_count));
+    for (auto const & imu : m_imu_pos) {
+      msg << VectorToCommaString(GetImuPosition(imu.first));
+      msg << QuaternionToCommaString(GetImuAngularPosition(imu.first));
+      msg << VectorToCommaString(GetImuAccelerometerBias(imu.first));
+      msg << VectorToCommaString(GetImuGyroscopeBias(imu.first));
     }
-    for (unsigned int j = 0; j < m_cam_pos.size(); ++j) {
-      ++sensor_count;
-      msg << VectorToCommaString(GetCameraPosition(sensor_count));
-      msg << QuaternionToCommaString(GetCameraAngularPosition(sensor_count));
+    for (auto const & cam : m_cam_pos) {
+      msg << VectorToCommaString(GetCameraPosition(cam.first));
+      msg << QuaternionToCommaString(GetCameraAngularPosition(cam.first));
     }
-    for (unsigned int j = 0; j < m_gps_pos.size(); ++j) {
-      ++sensor_count;
-      msg << VectorToCommaString(GetGpsPosition(sensor_count));
+    for (auto const & gps : m_gps_pos) {
+      msg << VectorToCommaString(GetGpsPosition(gps.first));
     }
     if (!m_gps_pos.empty()) {
       msg << VectorToCommaString(GetLocalPosition());
-- 
2.43.0


From 6ed6bc2b0de36e82699d90a31bb8a29be71ddfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:29 +0000
Subject: [PATCH 42/85] fix: limit integer log levels to the known ones

---
 src/infrastructure/sim/sim_debug_logger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/infrastructure/sim/sim_debug_logger.cpp b/src/infrastructure/sim/sim_debug_logger.cpp
index 8fa839c..59baded 100644
--- a/src/infrastructure/sim/sim_debug_logger.cpp
+++ b/src/infrastructure/sim/sim_debug_logger.cpp
@@ -15,6 +15,7 @@
 
 #include <stddef.h>
 
+#include <algorithm>
 #include <iostream>
 #include <string>
 #include <type_traits>
@@ -38,6 +39,9 @@ void DebugLogger::SetLogLevel(LogLevel level)
 
 void DebugLogger::SetLogLevel(unsigned int level)
 {
+  // Levels beyond the most verbose one have no name of their own
+  level = std::min(level, static_cast<unsigned int>(LogLevel::DEBUG));
+
   if ((m_log_level <= LogLevel::INFO) ||
     (static_cast<LogLevel>(level) <= LogLevel::INFO))
   {
-- 
2.43.0


From b2008bed7776c46fee92361803cd56aaa040ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:40 +0000
Subject: [PATCH 43/85] Add guarded observation points for runtime monitors

---
 src/ekf/update/fiducial_updater.cpp |  6 +++
 src/ekf/update/msckf_updater.cpp    |  6 +++
 src/trackers/feature_tracker.cpp    |  6 +++
 src/trackers/fiducial_tracker.cpp   |  6 +++
 src/utility/monitor_hooks.hpp       | 58 +++++++++++++++++++++++++++++
 5 files changed, 82 insertions(+)
 create mode 100644 src/utility/monitor_hooks.hpp

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 181c63e..6896a6b 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -33,6 +33,7 @@
 #include "ekf/types.hpp"
 #include "infrastructure/debug_logger.hpp"
 #include "utility/math_helper.hpp"
+#include "utility/monitor_hooks.hpp"
 #include "utility/string_helper.hpp"
 #include "utility/type_helper.hpp"
 
@@ -151,6 +152,11 @@ void FiducialUpdater::UpdateEKF(
   const double time,
   const BoardDetection & board_detection)
 {
+#ifdef EKF_CAL_MONITOR
+  if (monitor_hooks::Get().board) {
+    monitor_hooks::Get().board(m_id, m_camera_id, time, board_detection);
+  }
+#endif
   m_logger->Log(
     LogLevel::DEBUG, "Called Fiducial Update for camera ID: " + std::to_string(m_camera_id));
 
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index df06662..f265dbc 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -33,6 +33,7 @@
 #include "ekf/types.hpp"
 #include "infrastructure/debug_logger.hpp"
 #include "utility/math_helper.hpp"
+#include "utility/monitor_hooks.hpp"
 #include "utility/string_helper.hpp"
 #include "utility/type_helper.hpp"
 
@@ -264,6 +265,11 @@ void MsckfUpdater::UpdateEKF(
   double px_error
 )
 {
+#ifdef EKF_CAL_MONITOR
+  if (monitor_hooks::Get().feature_tracks) {
+    monitor_hooks::Get().feature_tracks(m_id, time, feature_tracks);
+  }
+#endif
   double local_time = ekf.CalculateLocalTime(time);
   ekf.PredictModel(local_time);
 
diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index cb7d4be..d9aa453 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -29,6 +29,7 @@
 
 #include "ekf/types.hpp"
 #include "trackers/tracker.hpp"
+#include "utility/monitor_hooks.hpp"
 
 
 /// @todo add detector/extractor parameters to input
@@ -166,6 +167,11 @@ std::vector<cv::KeyPoint> FeatureTracker::GridFeatures(
 void FeatureTracker::Track(
   double time, unsigned int frame_id, const cv::Mat & img_in, cv::Mat & img_out)
 {
+#ifdef EKF_CAL_MONITOR
+  if (monitor_hooks::Get().image) {
+    monitor_hooks::Get().image(m_id, time, frame_id, img_in);
+  }
+#endif
   // Down sample image
   /// @todo: Get down-sample parameters from input
   cv::Mat img_down;
diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index 338c1ce..20089fd 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -21,6 +21,7 @@
 #include <opencv2/opencv.hpp>
 
 #include "trackers/tracker.hpp"
+#include "utility/monitor_hooks.hpp"
 #include "utility/type_helper.hpp"
 
 FiducialTracker::FiducialTracker(FiducialTracker::Parameters params)
@@ -136,6 +137,11 @@ void FiducialTracker::Track(
   const cv::Mat & img_in,
   cv::Mat & img_out)
 {
+#ifdef EKF_CAL_MONITOR
+  if (monitor_hooks::Get().image) {
+    monitor_hooks::Get().image(m_id, time, frame_id, img_in);
+  }
+#endif
   cv::Ptr<cv::aruco::DetectorParameters> params = cv::makePtr<cv::aruco::DetectorParameters>();
   std::vector<int> marker_ids;
   cv::Mat camera_matrix = m_ekf->m_state.cam_states[m_camera_id].intrinsics.ToCameraMatrix();
diff --git a/src/utility/monitor_hooks.hpp b/src/utility/monitor_hooks.hpp
new file mode 100644
index 0000000..cd8c6fc
--- /dev/null
+++ b/src/utility/monitor_hooks.hpp
@@ -0,0 +1,58 @@
+// Copyright 2022 Jacob Hartzer
+//
+// This program is free software: you can redistribute it and/or modify
+// it under the terms of the GNU General Public License as published by
+// the Free Software Foundation, either version 3 of the License, or
+// (at your option) any later version.
+//
+// This program is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU General Public License for more details.
+//
+// You should have received a copy of the GNU General Public License
+// along with this program.  If not, see <https://www.gnu.org/licenses/>.
+
+#ifndef UTILITY__MONITOR_HOOKS_HPP_
+#define UTILITY__MONITOR_HOOKS_HPP_
+
+// Observation points for runtime monitors. Nothing here exists unless EKF_CAL_MONITOR is defined.
+#ifdef EKF_CAL_MONITOR
+
+#include <functional>
+
+#include <opencv2/opencv.hpp>
+
+#include "ekf/types.hpp"
+
+namespace monitor_hooks
+{
+
+///
+/// @brief Functions called at the observation points, unless empty
+///
+struct Hooks
+{
+  /// @brief A tracker was given an image: tracker ID, time, frame ID, image
+  std::function<void(unsigned int, double, unsigned int, const cv::Mat &)> image;
+  /// @brief Feature tracks were given to the filter: camera ID, time, tracks
+  std::function<void(unsigned int, double, const FeatureTracks &)> feature_tracks;
+  /// @brief A board detection was given to the filter: board ID, camera ID, time, detection
+  std::function<void(unsigned int, unsigned int, double, const BoardDetection &)> board;
+};
+
+///
+/// @brief The hooks in use
+/// @return Reference to the only instance
+///
+inline Hooks & Get()
+{
+  static Hooks hooks;
+  return hooks;
+}
+
+}  // namespace monitor_hooks
+
+#endif  // EKF_CAL_MONITOR
+
+#endif  // UTILITY__MONITOR_HOOKS_HPP_
-- 
2.43.0


From 4fbc06af390674552bffae165b7348a2b96c8078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:16 +0000
Subject: [PATCH 44/85] fix: use the bias variances of IMUs calibrated only
 intrinsically

---
 src/sensors/imu.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sensors/imu.cpp b/src/sensors/imu.cpp
index 43b46c0..43b769b 100644
--- a/src/sensors/imu.cpp
+++ b/src/sensors/imu.cpp
@@ -52,8 +52,11 @@ IMU::IMU(IMU::Parameters params)
   Eigen::MatrixXd cov;
   if (imu_state.GetIsExtrinsic() && imu_state.GetIsIntrinsic()) {
     cov = params.variance.segment<12>(0).asDiagonal();
-  } else if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+  } else if (imu_state.GetIsExtrinsic()) {
     cov = params.variance.segment<6>(0).asDiagonal();
+  } else if (imu_state.GetIsIntrinsic()) {
+    // The bias variances follow those of the extrinsics, if any
+    cov = params.variance.tail<6>().asDiagonal();
   }
 
   m_ekf->RegisterIMU(m_id, imu_state, cov);
-- 
2.43.0


From 13a9c956a4168df7d8e46ca2dc53b3343c89657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:16 +0000
Subject: [PATCH 45/85] fix: ignore boards whose pose cannot be estimated

---
 src/trackers/fiducial_tracker.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index 20089fd..5cb4b3f 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -171,19 +171,19 @@ void FiducialTracker::Track(
       // if marker pose is valid
       if (valid) {
         cv::drawFrameAxes(img_out, camera_matrix, distortion, r_vec, t_vec, 0.5);
-      }
 
-      Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
-      Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
+        Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
+        Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
 
-      BoardDetection board_detection;
-      board_detection.frame_id = frame_id;
-      board_detection.pos_f_in_c = pos_f_in_c;
-      board_detection.ang_f_to_c = ang_f_to_c;
-      board_detection.pos_error = m_pos_error;
-      board_detection.ang_error = m_ang_error;
+        BoardDetection board_detection;
+        board_detection.frame_id = frame_id;
+        board_detection.pos_f_in_c = pos_f_in_c;
+        board_detection.ang_f_to_c = ang_f_to_c;
+        board_detection.pos_error = m_pos_error;
+        board_detection.ang_error = m_ang_error;
 
-      m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+        m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+      }
     }
   }
 }
-- 
2.43.0


From 33f922b7055e443466210edefcec10d389eb6eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:16 +0000
Subject: [PATCH 46/85] fix: use detections of ArUco grid boards

---
 src/trackers/fiducial_tracker.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index 5cb4b3f..257ba6a 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -88,6 +88,7 @@ int FiducialTracker::InterpolateCorners(
       marker_corners, marker_ids, image, temp_board,
       corners, ids, camera_matrix, dist_coefficients);
   } else if (m_detector_type == FiducialType::ARUCO_BOARD) {
+    ids = marker_ids;
     corners_found = static_cast<int>(marker_ids.size());
   }
   return corners_found;
-- 
2.43.0


From 671544b01ad8b96a9961783cb772a8fff933c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:35 +0000
Subject: [PATCH 47/85] fix: track down-sampled features in the pixels of the
 camera

---
 src/trackers/feature_tracker.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index d9aa453..8a7979c 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -202,6 +202,16 @@ void FeatureTracker::Track(
   m_descriptor_extractor->compute(img_down, curr_key_points, curr_descriptors);
   curr_descriptors.convertTo(curr_descriptors, CV_32F);
 
+  // The filter and the output image use the pixels of the input image
+  if (m_down_sample) {
+    float scale_x = static_cast<float>(img_in.cols) / static_cast<float>(img_down.cols);
+    float scale_y = static_cast<float>(img_in.rows) / static_cast<float>(img_down.rows);
+    for (auto & key_point : curr_key_points) {
+      key_point.pt.x = (key_point.pt.x + 0.5F) * scale_x - 0.5F;
+      key_point.pt.y = (key_point.pt.y + 0.5F) * scale_y - 0.5F;
+    }
+  }
+
   m_logger->Log(LogLevel::DEBUG, "Called Tracker for frame ID: " + std::to_string(frame_id));
 
   if (m_prev_descriptors.rows > 0 && curr_descriptors.rows > 0) {
-- 
2.43.0


From f6bbf1bf31ad997f23b5aee4993f41b777ed4068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:32 +0000
Subject: [PATCH 48/85] fix: describe SIFT key points with ORB at the image
 scale

---
 src/trackers/feature_tracker.cpp | 9 +++++++++
 src/trackers/feature_tracker.hpp | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index 8a7979c..d176278 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -43,6 +43,8 @@ FeatureTracker::FeatureTracker(FeatureTracker::Parameters params)
     params.min_feat_dist,
     params.logger
   ),
+  m_reset_octaves(
+    params.detector == Detector::SIFT && params.descriptor != Descriptor::SIFT),
   m_px_error(params.px_error),
   m_down_sample(params.down_sample),
   m_down_sample_height(params.down_sample_height),
@@ -198,6 +200,13 @@ void FeatureTracker::Track(
   //     down_sample_size.width * down_sample_size.width
   //   ));
 
+  // Other extractors would take the packed octaves of SIFT for pyramid levels
+  if (m_reset_octaves) {
+    for (auto & key_point : curr_key_points) {
+      key_point.octave = 0;
+    }
+  }
+
   cv::Mat curr_descriptors;
   m_descriptor_extractor->compute(img_down, curr_key_points, curr_descriptors);
   curr_descriptors.convertTo(curr_descriptors, CV_32F);
diff --git a/src/trackers/feature_tracker.hpp b/src/trackers/feature_tracker.hpp
index 235537b..dca3ef2 100644
--- a/src/trackers/feature_tracker.hpp
+++ b/src/trackers/feature_tracker.hpp
@@ -185,6 +185,7 @@ private:
 
   static int GenerateFeatureID();
 
+  bool m_reset_octaves;
   double m_px_error;
   bool m_down_sample;
   int m_down_sample_height;
-- 
2.43.0


From 09c3bc00530e12eb302a0955c2c1513be2baa3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:09 +0000
Subject: [PATCH 49/85] fix: simulate boards of the configured type instead of
 an uninitialised one

---
 src/application/sim/simulation.cpp | 6 ++++--
 src/trackers/fiducial_tracker.hpp  | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/application/sim/simulation.cpp b/src/application/sim/simulation.cpp
index a3fa3de..1a0a64d 100644
--- a/src/application/sim/simulation.cpp
+++ b/src/application/sim/simulation.cpp
@@ -368,10 +368,12 @@ int main(int argc, char * argv[])
     fiducial_params.ang_f_to_l =
       StdToEigQuat(fid_node["ang_f_to_l"].as<std::vector<double>>(def_quat));
     fiducial_params.variance = StdToEigVec(fid_node["variance"].as<std::vector<double>>(def_vec));
+    fiducial_params.detector_type =
+      static_cast<FiducialType>(fid_node["fiducial_type"].as<unsigned int>(0));
     fiducial_params.squares_x = fid_node["squares_x"].as<unsigned int>(1);
     fiducial_params.squares_y = fid_node["squares_y"].as<unsigned int>(1);
-    fiducial_params.square_length = fid_node["square_length"].as<double>(0.0);
-    fiducial_params.marker_length = fid_node["marker_length"].as<double>(0.0);
+    fiducial_params.square_length = fid_node["square_length"].as<double>(1.0);
+    fiducial_params.marker_length = fid_node["marker_length"].as<double>(1.0);
     fiducial_params.id = fid_node["id"].as<unsigned int>(0);
     fiducial_params.is_extrinsic = fid_node["is_extrinsic"].as<bool>(false);
     fiducial_params.ekf = ekf;
diff --git a/src/trackers/fiducial_tracker.hpp b/src/trackers/fiducial_tracker.hpp
index 524f7cd..0f03a6d 100644
--- a/src/trackers/fiducial_tracker.hpp
+++ b/src/trackers/fiducial_tracker.hpp
@@ -52,7 +52,7 @@ public:
   ///
   typedef struct Parameters : public Tracker::Parameters
   {
-    FiducialType detector_type;                     ///< @brief Detector type
+    FiducialType detector_type {FiducialType::ARUCO_BOARD};  ///< @brief Detector type
     unsigned int predefined_dict{0};                ///< @brief Predefined dictionary
     unsigned int squares_x {1};                     ///< @brief Number of squares in the x direction
     unsigned int squares_y {1};                     ///< @brief Number of squares in the y direction
-- 
2.43.0


From a750075a1684d752ed444f2c34831fbe9ce586a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:26 +0000
Subject: [PATCH 50/85] fix: default variances of simulated sensors have an
 entry for every state

---
 src/application/sim/simulation.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/application/sim/simulation.cpp b/src/application/sim/simulation.cpp
index 1a0a64d..255e8f8 100644
--- a/src/application/sim/simulation.cpp
+++ b/src/application/sim/simulation.cpp
@@ -157,6 +157,8 @@ int main(int argc, char * argv[])
   // Define default values
   std::vector<double> def_vec{0.0, 0.0, 0.0};
   std::vector<double> def_quat{1.0, 0.0, 0.0, 0.0};
+  std::vector<double> def_pose_var(6, 1.0);
+  std::vector<double> def_imu_var(12, 1.0);
 
   // Logging parameters
   EKF::Parameters ekf_params;
@@ -292,7 +294,7 @@ int main(int argc, char * argv[])
     LoadSensorParams(imu_params, imu_node, imus[i], log_directory, ekf, debug_logger);
     imu_params.is_extrinsic = imu_node["is_extrinsic"].as<bool>(false);
     imu_params.is_intrinsic = imu_node["is_intrinsic"].as<bool>(false);
-    imu_params.variance = StdToEigVec(imu_node["variance"].as<std::vector<double>>(def_vec));
+    imu_params.variance = StdToEigVec(imu_node["variance"].as<std::vector<double>>(def_imu_var));
     imu_params.pos_i_in_b = StdToEigVec(imu_node["pos_i_in_b"].as<std::vector<double>>(def_vec));
     imu_params.ang_i_to_b = StdToEigQuat(imu_node["ang_i_to_b"].as<std::vector<double>>(def_quat));
     imu_params.acc_bias = StdToEigVec(imu_node["acc_bias"].as<std::vector<double>>(def_vec));
@@ -367,7 +369,8 @@ int main(int argc, char * argv[])
       StdToEigVec(fid_node["pos_f_in_l"].as<std::vector<double>>(def_vec));
     fiducial_params.ang_f_to_l =
       StdToEigQuat(fid_node["ang_f_to_l"].as<std::vector<double>>(def_quat));
-    fiducial_params.variance = StdToEigVec(fid_node["variance"].as<std::vector<double>>(def_vec));
+    fiducial_params.variance =
+      StdToEigVec(fid_node["variance"].as<std::vector<double>>(def_pose_var));
     fiducial_params.detector_type =
       static_cast<FiducialType>(fid_node["fiducial_type"].as<unsigned int>(0));
     fiducial_params.squares_x = fid_node["squares_x"].as<unsigned int>(1);
@@ -403,7 +406,7 @@ int main(int argc, char * argv[])
 
     Camera::Parameters cam_params;
     LoadSensorParams(cam_params, cam_node, cameras[i], log_directory, ekf, debug_logger);
-    cam_params.variance = StdToEigVec(cam_node["variance"].as<std::vector<double>>(def_vec));
+    cam_params.variance = StdToEigVec(cam_node["variance"].as<std::vector<double>>(def_pose_var));
     cam_params.pos_c_in_b = StdToEigVec(cam_node["pos_c_in_b"].as<std::vector<double>>(def_vec));
     cam_params.ang_c_to_b = StdToEigQuat(cam_node["ang_c_to_b"].as<std::vector<double>>(def_quat));
     cam_params.is_extrinsic = cam_node["is_extrinsic"].as<bool>(false);
-- 
2.43.0


From 064a995339db42e375e690228eaacb0d0f1744f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:26 +0000
Subject: [PATCH 51/85] fix: stop the simulation when the truth type is unknown

---
 src/application/sim/simulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/application/sim/simulation.cpp b/src/application/sim/simulation.cpp
index 255e8f8..d73393a 100644
--- a/src/application/sim/simulation.cpp
+++ b/src/application/sim/simulation.cpp
@@ -253,6 +253,7 @@ int main(int argc, char * argv[])
     std::stringstream msg;
     msg << "Unknown truth engine type: " << truth_type;
     debug_logger->Log(LogLevel::ERROR, msg.str());
+    return 1;
   }
 
   // Local Position Error
-- 
2.43.0


From 22073819862592375a65e13aade1152da161969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:26 +0000
Subject: [PATCH 52/85] fix: stop the simulation when a camera names a tracker
 that is not listed

---
 src/application/sim/simulation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/application/sim/simulation.cpp b/src/application/sim/simulation.cpp
index d73393a..ca1b9ca 100644
--- a/src/application/sim/simulation.cpp
+++ b/src/application/sim/simulation.cpp
@@ -432,6 +432,15 @@ int main(int argc, char * argv[])
     sim_cam_params.ang_error = StdToEigVec(sim_node["ang_error"].as<std::vector<double>>(def_vec));
     sim_cam_params.cam_params = cam_params;
 
+    if (!cam_params.tracker.empty() && tracker_map.count(cam_params.tracker) == 0) {
+      debug_logger->Log(LogLevel::ERROR, "Unknown tracker: " + cam_params.tracker);
+      return 1;
+    }
+    if (!cam_params.fiducial.empty() && fiducial_map.count(cam_params.fiducial) == 0) {
+      debug_logger->Log(LogLevel::ERROR, "Unknown fiducial: " + cam_params.fiducial);
+      return 1;
+    }
+
     // Add sensor to map
     auto cam = std::make_shared<SimCamera>(sim_cam_params, truth_engine);
     if (!cam_params.tracker.empty()) {
-- 
2.43.0


From f85082f2d61a9a543b5925f609bcfbfdd7a16adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:24 +0000
Subject: [PATCH 53/85] fix: feature tracks with a single observation are not
 used

---
 src/ekf/update/msckf_updater.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index f265dbc..ec54479 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -308,6 +308,11 @@ void MsckfUpdater::UpdateEKF(
     m_logger->Log(
       LogLevel::DEBUG, "Feature Track size: " + std::to_string(feature_track.track.size()));
 
+    // A single observation holds nothing that is independent of the feature position
+    if (feature_track.track.size() < 2) {
+      continue;
+    }
+
     /// @todo: Add threshold for total distance/angle before triangulating
 
     // Get triangulated estimate of feature pos
-- 
2.43.0


From b037f067b9a32ce6858e28b26730c65119184f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:24 +0000
Subject: [PATCH 54/85] fix: draw errors with zero standard deviation from a
 valid distribution

---
 src/utility/sim/sim_rng.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/sim/sim_rng.cpp b/src/utility/sim/sim_rng.cpp
index 00d02fe..2228ff3 100644
--- a/src/utility/sim/sim_rng.cpp
+++ b/src/utility/sim/sim_rng.cpp
@@ -28,8 +28,9 @@ void SimRNG::SetSeed(unsigned int seed)
 
 double SimRNG::NormRand(double mean, double std_dev)
 {
-  std::normal_distribution<double> normal_distribution(mean, std_dev);
-  return normal_distribution(m_generator);
+  // The standard deviation of a distribution object may not be zero
+  std::normal_distribution<double> normal_distribution(0.0, 1.0);
+  return normal_distribution(m_generator) * std_dev + mean;
 }
 
 double SimRNG::UniRand(double min, double max)
-- 
2.43.0


From 2f4cb87c6c7796553f982110d883e413b89c8336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:07 +0000
Subject: [PATCH 55/85] fix: negative rates and times of a simulation are taken
 as zero

---
 src/application/sim/simulation.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/application/sim/simulation.cpp b/src/application/sim/simulation.cpp
index ca1b9ca..1718e15 100644
--- a/src/application/sim/simulation.cpp
+++ b/src/application/sim/simulation.cpp
@@ -74,8 +74,9 @@ void LoadSensorParams(
 )
 {
   params.topic = node["topic"].as<std::string>("");
-  params.rate = node["rate"].as<double>(1.0);
-  params.data_log_rate = node["data_log_rate"].as<double>(0.0);
+  // Neither rates nor times can be negative (or not a number)
+  params.rate = std::max(0.0, node["rate"].as<double>(1.0));
+  params.data_log_rate = std::max(0.0, node["data_log_rate"].as<double>(0.0));
   params.name = name;
   params.log_directory = log_directory;
   params.ekf = ekf;
@@ -168,7 +169,7 @@ int main(int argc, char * argv[])
   debug_logger->Log(LogLevel::INFO, "EKF CAL Version: " + std::string(EKF_CAL_VERSION));
 
   // EKF parameters
-  double data_log_rate = ros_params["data_log_rate"].as<double>(0.0);
+  double data_log_rate = std::max(0.0, ros_params["data_log_rate"].as<double>(0.0));
   ekf_params.debug_logger = debug_logger;
   ekf_params.data_log_rate = data_log_rate;
   ekf_params.log_directory = log_directory;
@@ -202,7 +203,7 @@ int main(int argc, char * argv[])
   /// @todo: Add overriding no_errors option
   YAML::Node sim_params = ros_params["sim_params"];
   unsigned int rng_seed = sim_params["seed"].as<unsigned int>(1);
-  double max_time = sim_params["max_time"].as<double>(10.0);
+  double max_time = std::max(0.0, sim_params["max_time"].as<double>(10.0));
 
   if (rng_seed > 0) {
     SimRNG::SetSeed(rng_seed);
@@ -210,7 +211,7 @@ int main(int argc, char * argv[])
 
   // Truth parameters
   std::string truth_type = sim_params["truth_type"].as<std::string>("cyclic");
-  double stationary_time = std::max(sim_params["stationary_time"].as<double>(0.1), 0.1);
+  double stationary_time = std::max(0.1, sim_params["stationary_time"].as<double>(0.1));
   std::shared_ptr<TruthEngine> truth_engine;
   if (truth_type == "cyclic") {
     auto pos_frequency = StdToEigVec(sim_params["pos_frequency"].as<std::vector<double>>(def_vec));
-- 
2.43.0


From 25ec018c042ab022bd7c95cc1cb966cab8ba053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:23 +0000
Subject: [PATCH 56/85] fix: the maximum distance skips points that are not
 finite

---
 src/utility/math_helper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 28ad62a..595d478 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -272,6 +272,10 @@ double maximum_distance(const std::vector<Eigen::Vector3d> & eigen_points)
   std::vector<cv::Point> points;
   std::vector<cv::Point> hull;
   for (auto eigen_point : eigen_points) {
+    // Skip points that are not finite or cannot be expressed as integers
+    if (!(std::abs(eigen_point.x()) < 1.0e9 && std::abs(eigen_point.y()) < 1.0e9)) {
+      continue;
+    }
     cv::Point cv_point;
     cv_point.x = static_cast<int>(eigen_point.x());
     cv_point.y = static_cast<int>(eigen_point.y());
-- 
2.43.0


From cd3e70484c75ba302c51999c402a15851a2826cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:23 +0000
Subject: [PATCH 57/85] fix: a spline with fewer than two distinct waypoints is
 held at its start

---
 src/infrastructure/sim/truth_engine_spline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_spline.cpp b/src/infrastructure/sim/truth_engine_spline.cpp
index 839fb10..877d329 100644
--- a/src/infrastructure/sim/truth_engine_spline.cpp
+++ b/src/infrastructure/sim/truth_engine_spline.cpp
@@ -140,7 +140,8 @@ Eigen::MatrixXd RemoveRepeatedWaypoints(const Eigen::MatrixXd & waypoints)
     }
   }
   if (n_distinct < 2) {
-    return waypoints;
+    // Without a second waypoint there is no spline, and the pose is held
+    return Eigen::MatrixXd::Zero(3, 3);
   }
   return distinct.leftCols(n_distinct);
 }
-- 
2.43.0


From 35bebe116204f38d6518c61ff357b8c7895ad411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:03 +0000
Subject: [PATCH 58/85] fix: negative image sizes of a simulated camera are
 taken as zero

---
 src/application/sim/simulation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/application/sim/simulation.cpp b/src/application/sim/simulation.cpp
index 1718e15..b7431e6 100644
--- a/src/application/sim/simulation.cpp
+++ b/src/application/sim/simulation.cpp
@@ -422,8 +422,10 @@ int main(int argc, char * argv[])
     cam_params.intrinsics.k_2 = cam_node["intrinsics"]["k_2"].as<double>(0.0);
     cam_params.intrinsics.p_1 = cam_node["intrinsics"]["p_1"].as<double>(0.0);
     cam_params.intrinsics.p_2 = cam_node["intrinsics"]["p_2"].as<double>(0.0);
-    cam_params.intrinsics.width = cam_node["intrinsics"]["width"].as<double>(640.0);
-    cam_params.intrinsics.height = cam_node["intrinsics"]["height"].as<double>(480.0);
+    cam_params.intrinsics.width =
+      std::max(0.0, cam_node["intrinsics"]["width"].as<double>(640.0));
+    cam_params.intrinsics.height =
+      std::max(0.0, cam_node["intrinsics"]["height"].as<double>(480.0));
     cam_params.intrinsics.pixel_size = cam_node["intrinsics"]["pixel_size"].as<double>(5.0e-6);
 
     // SimCamera::Parameters
-- 
2.43.0


From 56945bfdbeaa01c745f9a3d2ebbd4875edf78555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:33 +0000
Subject: [PATCH 59/85] fix: no frame is cloned when the configured track
 length is zero

---
 src/ekf/ekf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index c2c023c..75a039a 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -549,6 +549,10 @@ void EKF::AugmentStateIfNeeded()
 void EKF::AugmentStateIfNeeded(unsigned int camera_id, unsigned int frame_id)
 {
   m_frame_received_since_last_aug = true;
+  if (m_max_track_length == 0) {
+    // There is no window to hold the frame
+    return;
+  }
   if (m_augmenting_type == AugmentationType::ALL ||
     (m_augmenting_type == AugmentationType::PRIMARY && camera_id == m_primary_camera_id))
   {
-- 
2.43.0


From 5d1945dae43e0d6164e7b6359c90ea1e72c4c06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:24 +0000
Subject: [PATCH 60/85] fix: the search for a waypoint interval stays inside
 the list of waypoints

---
 src/infrastructure/sim/truth_engine_smoother.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/sim/truth_engine_smoother.cpp b/src/infrastructure/sim/truth_engine_smoother.cpp
index e8e3a43..b1515d1 100644
--- a/src/infrastructure/sim/truth_engine_smoother.cpp
+++ b/src/infrastructure/sim/truth_engine_smoother.cpp
@@ -127,12 +127,12 @@ std::vector<Eigen::Vector3d> InterpolateVectors(
       out_vectors.push_back(vec);
       continue;
     }
-    if (m_time[i] <= times[0]) {
+    if (n_vectors == 1 || m_time[i] <= times[0]) {
       vec = vectors[0];
     } else if (m_time[i] >= times[n_vectors - 1]) {
       vec = vectors[n_vectors - 1];
     } else {
-      while (m_time[i] > times[j + 1]) {
+      while (j + 2 < n_vectors && m_time[i] > times[j + 1]) {
         ++j;
       }
       double alpha = (times[j + 1] - m_time[i]) / (times[j + 1] - times[j]);
-- 
2.43.0


From 2e7a5bffc169154f130f924c616cd3cfb0ca7272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:59 +0000
Subject: [PATCH 61/85] fix: report the body rates of the smoothed truth, not
 its Euler angle rates

---
 src/infrastructure/sim/truth_engine_smoother.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infrastructure/sim/truth_engine_smoother.cpp b/src/infrastructure/sim/truth_engine_smoother.cpp
index b1515d1..129323c 100644
--- a/src/infrastructure/sim/truth_engine_smoother.cpp
+++ b/src/infrastructure/sim/truth_engine_smoother.cpp
@@ -19,6 +19,7 @@
 #include <memory>
 #include <vector>
 
+#include "infrastructure/sim/truth_engine_cyclic.hpp"
 #include "utility/sim/sim_rng.hpp"
 #include "utility/type_helper.hpp"
 
@@ -244,6 +245,10 @@ TruthEngineSmoother::TruthEngineSmoother(
   m_acc = Derivative(m_time, m_vel);
 
   m_ang_vel = Derivative(m_time, m_ang);
+  for (unsigned int i = 0; i < m_ang_vel.size(); ++i) {
+    // The body rotates at the rate of its roll-pitch-yaw angles seen in the body frame
+    m_ang_vel[i] = TruthEngineCyclic::EulerDerivativeTransform(m_ang[i]) * m_ang_vel[i];
+  }
   m_ang_acc = Derivative(m_time, m_ang_vel);
 
   m_stationary_time = stationary_time;
-- 
2.43.0


From 4957c06f1a75aab3ce017e9809e1aed1f7b51081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 62/85] fix: measure the largest distance between points
 without cutting them to whole metres

---
 src/utility/math_helper.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 595d478..aa5fea3 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -269,16 +269,16 @@ bool kabsch_2d(
 /// @todo This method uses integers for distance, where doubles would be more accurate
 double maximum_distance(const std::vector<Eigen::Vector3d> & eigen_points)
 {
-  std::vector<cv::Point> points;
-  std::vector<cv::Point> hull;
+  std::vector<cv::Point2f> points;
+  std::vector<cv::Point2f> hull;
   for (auto eigen_point : eigen_points) {
-    // Skip points that are not finite or cannot be expressed as integers
+    // Skip points that are not finite or far from any reference
     if (!(std::abs(eigen_point.x()) < 1.0e9 && std::abs(eigen_point.y()) < 1.0e9)) {
       continue;
     }
-    cv::Point cv_point;
-    cv_point.x = static_cast<int>(eigen_point.x());
-    cv_point.y = static_cast<int>(eigen_point.y());
+    cv::Point2f cv_point;
+    cv_point.x = static_cast<float>(eigen_point.x());
+    cv_point.y = static_cast<float>(eigen_point.y());
     points.push_back(cv_point);
   }
   cv::convexHull(points, hull);
-- 
2.43.0


From ecbd1f54cb7e479797d714d75a59ccb565cfbc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 63/85] fix: the ROS logger prints messages verbatim and names
 the level that is set

---
 src/infrastructure/ros/ros_debug_logger.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/infrastructure/ros/ros_debug_logger.cpp b/src/infrastructure/ros/ros_debug_logger.cpp
index 054bbbe..abc2c0a 100644
--- a/src/infrastructure/ros/ros_debug_logger.cpp
+++ b/src/infrastructure/ros/ros_debug_logger.cpp
@@ -15,6 +15,7 @@
 
 #include <stddef.h>
 
+#include <algorithm>
 #include <string>
 #include <type_traits>
 
@@ -29,13 +30,16 @@ void DebugLogger::SetLogLevel(LogLevel level)
     RCLCPP_INFO_STREAM(
       rclcpp::get_logger(
         "Logger"), "Log level set to: " <<
-        m_log_level_names[static_cast<std::underlying_type<LogLevel>::type>(m_log_level)]);
+        m_log_level_names[static_cast<std::underlying_type<LogLevel>::type>(level)]);
   }
   m_log_level = level;
 }
 
 void DebugLogger::SetLogLevel(unsigned int level)
 {
+  // Levels beyond the most verbose one have no name of their own
+  level = std::min(level, static_cast<unsigned int>(LogLevel::DEBUG));
+
   if ((m_log_level <= LogLevel::INFO) || (static_cast<LogLevel>(level) <= LogLevel::INFO)) {
     RCLCPP_INFO_STREAM(
       rclcpp::get_logger("Logger"),
@@ -47,27 +51,26 @@ void DebugLogger::SetLogLevel(unsigned int level)
 
 void DebugLogger::Log(LogLevel level, const std::string & message)
 {
-  const char * message_c_str = message.c_str();
   if (m_log_level >= level) {
     switch (level) {
       case LogLevel::DEBUG:
-        RCLCPP_DEBUG(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_DEBUG_STREAM(rclcpp::get_logger("Logger"), message);
         break;
 
       case LogLevel::INFO:
-        RCLCPP_INFO(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_INFO_STREAM(rclcpp::get_logger("Logger"), message);
         break;
 
       case LogLevel::WARN:
-        RCLCPP_WARN(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_WARN_STREAM(rclcpp::get_logger("Logger"), message);
         break;
 
       case LogLevel::ERROR:
-        RCLCPP_ERROR(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_ERROR_STREAM(rclcpp::get_logger("Logger"), message);
         break;
 
       case LogLevel::FATAL:
-        RCLCPP_FATAL(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_FATAL_STREAM(rclcpp::get_logger("Logger"), message);
         break;
     }
   }
-- 
2.43.0


From 2f83b0b44987dc09c56ecfb57b2290eda983f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 64/85] fix: the ROS node sets the process noise of every body
 state

---
 src/application/ros/node/ekf_cal_node.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index b912515..8f51c6b 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -64,7 +64,10 @@ EkfCalNode::EkfCalNode()
   declare_parameter("augmenting_ang_error", 0.0);
   declare_parameter("process_noise.pos", 1.0e-2);
   declare_parameter("process_noise.vel", 1.0e-2);
+  declare_parameter("process_noise.acc", 1.0e-2);
   declare_parameter("process_noise.ang_pos", 1.0e-2);
+  declare_parameter("process_noise.ang_vel", 1.0e-2);
+  declare_parameter("process_noise.ang_acc", 1.0e-2);
   declare_parameter("pos_b_in_l", std::vector<double>{0, 0, 0});
   declare_parameter("ang_b_to_l", std::vector<double>{0, 0, 0, 0});
   declare_parameter("pos_e_in_g", std::vector<double>{0, 0, 0});
@@ -623,12 +626,18 @@ Eigen::VectorXd EkfCalNode::LoadProcessNoise()
 {
   double pos_noise = get_parameter("process_noise.pos").as_double();
   double vel_noise = get_parameter("process_noise.vel").as_double();
+  double acc_noise = get_parameter("process_noise.acc").as_double();
   double ang_pos_noise = get_parameter("process_noise.ang_pos").as_double();
+  double ang_vel_noise = get_parameter("process_noise.ang_vel").as_double();
+  double ang_acc_noise = get_parameter("process_noise.ang_acc").as_double();
 
   Eigen::VectorXd process_noise(g_body_state_size);
   process_noise.segment<3>(0) = Eigen::Vector3d::Ones() * pos_noise;
   process_noise.segment<3>(3) = Eigen::Vector3d::Ones() * vel_noise;
-  process_noise.segment<3>(6) = Eigen::Vector3d::Ones() * ang_pos_noise;
+  process_noise.segment<3>(6) = Eigen::Vector3d::Ones() * acc_noise;
+  process_noise.segment<3>(9) = Eigen::Vector3d::Ones() * ang_pos_noise;
+  process_noise.segment<3>(12) = Eigen::Vector3d::Ones() * ang_vel_noise;
+  process_noise.segment<3>(15) = Eigen::Vector3d::Ones() * ang_acc_noise;
 
   return process_noise;
 }
-- 
2.43.0


From eff3e3c51cfec77ff4181db3adac48d0372e596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 65/85] fix: the ROS node starts from a valid orientation by
 default

---
 src/application/ros/node/ekf_cal_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 8f51c6b..c5d230e 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -69,7 +69,7 @@ EkfCalNode::EkfCalNode()
   declare_parameter("process_noise.ang_vel", 1.0e-2);
   declare_parameter("process_noise.ang_acc", 1.0e-2);
   declare_parameter("pos_b_in_l", std::vector<double>{0, 0, 0});
-  declare_parameter("ang_b_to_l", std::vector<double>{0, 0, 0, 0});
+  declare_parameter("ang_b_to_l", std::vector<double>{1, 0, 0, 0});
   declare_parameter("pos_e_in_g", std::vector<double>{0, 0, 0});
   declare_parameter("ang_l_to_e", 0.0);
   declare_parameter("gps_init_type", 0);
-- 
2.43.0


From 59ae6e1272e27d0f9d58617cbd38e7c4e02f24e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 66/85] fix: ROS GPS messages carry the position covariance

---
 src/sensors/ros/ros_gps_message.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sensors/ros/ros_gps_message.cpp b/src/sensors/ros/ros_gps_message.cpp
index de33eae..f8640c9 100644
--- a/src/sensors/ros/ros_gps_message.cpp
+++ b/src/sensors/ros/ros_gps_message.cpp
@@ -24,5 +24,6 @@ RosGpsMessage::RosGpsMessage(const sensor_msgs::msg::NavSatFix::SharedPtr msg)
 {
   time = RosHeaderToTime(msg->header);
   gps_lla = Eigen::Vector3d{msg->latitude, msg->longitude, msg->altitude};
+  pos_covariance = RosToEigen(msg->position_covariance);
   sensor_type = SensorType::GPS;
 }
-- 
2.43.0


From cffcbac8d5abb9728ef0cb8db17873813c93ea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 67/85] fix: the ROS node reads whether a GPS antenna is
 calibrated

---
 src/application/ros/node/ekf_cal_node.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index c5d230e..3d5b884 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -444,6 +444,7 @@ void EkfCalNode::DeclareGpsParameters(const std::string & gps_name)
   declare_parameter(gps_prefix + ".pos_a_in_b", std::vector<double>{0, 0, 0});
   declare_parameter(gps_prefix + ".pos_stability", 1e-9);
   declare_parameter(gps_prefix + ".variance", std::vector<double>{1, 1, 1});
+  declare_parameter(gps_prefix + ".is_extrinsic", false);
 }
 
 GPS::Parameters EkfCalNode::GetGpsParameters(const std::string & gps_name)
@@ -453,12 +454,14 @@ GPS::Parameters EkfCalNode::GetGpsParameters(const std::string & gps_name)
   std::vector<double> pos_a_in_b = get_parameter(gps_prefix + ".pos_a_in_b").as_double_array();
   std::vector<double> variance = get_parameter(gps_prefix + ".variance").as_double_array();
   double pos_stability = get_parameter(gps_prefix + ".pos_stability").as_double();
+  bool is_extrinsic = get_parameter(gps_prefix + ".is_extrinsic").as_bool();
 
   GPS::Parameters gps_params;
   LoadSensorParameters(gps_params, gps_prefix, gps_name);
   gps_params.pos_a_in_b = StdToEigVec(pos_a_in_b);
   gps_params.variance = StdToEigVec(variance);
   gps_params.pos_stability = pos_stability;
+  gps_params.is_extrinsic = is_extrinsic;
   return gps_params;
 }
 
-- 
2.43.0


From 18dec0b1152c4ce84e57f0e180e923f2ef20d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 68/85] fix: the ROS node gives its trackers the parameters of
 their camera

---
 src/application/ros/node/ekf_cal_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 3d5b884..1f8fb1a 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -501,6 +501,8 @@ void EkfCalNode::LoadCamera(const std::string & camera_name)
   if (!camera_params.tracker.empty()) {
     FeatureTracker::Parameters trk_params = GetTrackerParameters(camera_params.tracker);
     trk_params.camera_id = camera_ptr->GetId();
+    trk_params.intrinsics = camera_params.intrinsics;
+    trk_params.is_cam_extrinsic = camera_params.is_extrinsic;
     trk_params.data_log_rate = camera_params.data_log_rate;
     std::shared_ptr<FeatureTracker> trk_ptr = std::make_shared<FeatureTracker>(trk_params);
     camera_ptr->AddTracker(trk_ptr);
@@ -509,6 +511,8 @@ void EkfCalNode::LoadCamera(const std::string & camera_name)
   if (!camera_params.fiducial.empty()) {
     FiducialTracker::Parameters fid_params = GetFiducialParameters(camera_params.fiducial);
     fid_params.camera_id = camera_ptr->GetId();
+    fid_params.intrinsics = camera_params.intrinsics;
+    fid_params.is_cam_extrinsic = camera_params.is_extrinsic;
     fid_params.data_log_rate = camera_params.data_log_rate;
     std::shared_ptr<FiducialTracker> fid_ptr = std::make_shared<FiducialTracker>(fid_params);
     camera_ptr->AddFiducial(fid_ptr);
-- 
2.43.0


From e89c74b2f95f257e42a1e34b5b71bc860fb62e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 69/85] fix: the ROS node keeps camera frames for the
 configured track length

---
 src/application/ros/node/ekf_cal_node.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 1f8fb1a..49c4176 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -17,6 +17,7 @@
 
 #include <eigen3/Eigen/Eigen>
 
+#include <algorithm>
 #include <array>
 #include <chrono>
 #include <functional>
@@ -193,6 +194,18 @@ void EkfCalNode::LoadSensors()
     LoadImu(imu_name);
   }
 
+  // Keep camera frames for as long as the longest tracks
+  unsigned int max_track_length {0};
+  for (std::string & tracker_name : m_tracker_list) {
+    max_track_length = std::max(
+      max_track_length, GetTrackerParameters(tracker_name).max_track_length);
+  }
+  for (std::string & fiducial_name : m_fiducial_list) {
+    max_track_length = std::max(
+      max_track_length, GetFiducialParameters(fiducial_name).max_track_length);
+  }
+  m_ekf->SetMaxTrackLength(max_track_length);
+
   // Load Camera sensor parameters
   for (std::string & cam_name : m_camera_list) {
     LoadCamera(cam_name);
-- 
2.43.0


From 889490cfd45cc1fb08e1e0e706c87d057766f4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 70/85] fix: cameras accept color images

---
 src/sensors/camera.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sensors/camera.cpp b/src/sensors/camera.cpp
index 25a843e..5c28643 100644
--- a/src/sensors/camera.cpp
+++ b/src/sensors/camera.cpp
@@ -68,7 +68,11 @@ void Camera::Callback(const CameraMessage & camera_message)
       unsigned int frameID = GenerateFrameID();
 
       m_ekf->AugmentStateIfNeeded(m_id, frameID);
-      cv::cvtColor(camera_message.image, m_out_img, cv::COLOR_GRAY2RGB);
+      if (camera_message.image.channels() == 1) {
+        cv::cvtColor(camera_message.image, m_out_img, cv::COLOR_GRAY2RGB);
+      } else {
+        camera_message.image.copyTo(m_out_img);
+      }
 
       if (!m_trackers.empty()) {
         for (auto const & track_iter : m_trackers) {
-- 
2.43.0


From f578a2e61e96b9a0d632d5e449fcaf504bc03826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:17 +0000
Subject: [PATCH 71/85] fix: frames with a single feature are not matched

---
 src/trackers/feature_tracker.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index d176278..c01d91d 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -228,8 +228,11 @@ void FeatureTracker::Track(
     std::vector<std::vector<cv::DMatch>> matches_backward;
 
     /// @todo Mask using maximum distance from predicted IMU rotations
-    m_descriptor_matcher->knnMatch(m_prev_descriptors, curr_descriptors, matches_forward, 2);
-    m_descriptor_matcher->knnMatch(curr_descriptors, m_prev_descriptors, matches_backward, 2);
+    // The two nearest neighbors of a descriptor are looked for
+    if (m_prev_descriptors.rows > 1 && curr_descriptors.rows > 1) {
+      m_descriptor_matcher->knnMatch(m_prev_descriptors, curr_descriptors, matches_forward, 2);
+      m_descriptor_matcher->knnMatch(curr_descriptors, m_prev_descriptors, matches_backward, 2);
+    }
 
     // Perform test on matches
     RatioTest(matches_forward);
-- 
2.43.0


From e1d87ea2d580e6f4250f04610fba96ffd471d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 72/85] fix: number the runs of a Monte Carlo set consecutively

---
 eval/run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eval/run.py b/eval/run.py
index bd96f24..82048ce 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -110,6 +110,7 @@ def generate_mc_from_yaml(
                 if (seed):
                     random.seed(seed)
 
+                run_number = sim_yaml['run_number']
                 n_digits = math.ceil(math.log10(num_runs))
                 for i in range(num_runs):
                     sub_yaml = top_yaml
@@ -117,7 +118,7 @@ def generate_mc_from_yaml(
                         new_seed = random.randint(0, 1000000000)
                         sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['seed'] = new_seed
                     sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['number_of_runs'] = 1
-                    sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['run_number'] += i
+                    sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['run_number'] = run_number + i
                     if (time):
                         sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['max_time'] = time
                     sub_file = os.path.join(
-- 
2.43.0


From 17aee12ead9e644a12dfa0f1a4e42f041c413fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 73/85] fix: the evaluation tools read the logs of sensors with
 ids above nine

---
 eval/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/utilities.py b/eval/utilities.py
index 4c2196d..7379760 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -189,7 +189,7 @@ def find_and_read_data_frames(directories, prefix):
     data_frame_sets = collections.defaultdict(list)
     for directory in directories:
         file_paths_id = glob.glob(os.path.join(directory, prefix + '.csv'))
-        file_paths_id.extend(glob.glob(os.path.join(directory, prefix + '_[0-9].csv')))
+        file_paths_id.extend(glob.glob(os.path.join(directory, prefix + '_[0-9]*.csv')))
         for file_path in file_paths_id:
             file_name = os.path.basename(file_path)
             df = pd.read_csv(file_path).dropna()
-- 
2.43.0


From 318024f584c1c4af4080aabb1ed88a3b609ff39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 74/85] fix: the evaluation tools index rows by position after
 dropping incomplete ones

---
 eval/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/utilities.py b/eval/utilities.py
index 7379760..04898df 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -192,7 +192,7 @@ def find_and_read_data_frames(directories, prefix):
         file_paths_id.extend(glob.glob(os.path.join(directory, prefix + '_[0-9]*.csv')))
         for file_path in file_paths_id:
             file_name = os.path.basename(file_path)
-            df = pd.read_csv(file_path).dropna()
+            df = pd.read_csv(file_path).dropna().reset_index(drop=True)
             df.attrs['prefix'] = format_prefix(prefix)
             matches = re.findall(r'_[0-9]*\.csv', file_name)
             if matches:
-- 
2.43.0


From 6843f9632d3a877a6044ba2b74c935e9f2ba57ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 75/85] fix: the evaluation tools compare each log with the
 truth of its own run

---
 eval/report.py    | 20 ++++++++------------
 eval/stats.py     | 10 +++++-----
 eval/utilities.py |  9 +++++++++
 3 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/eval/report.py b/eval/report.py
index 8c33ae8..4f1d8d1 100755
--- a/eval/report.py
+++ b/eval/report.py
@@ -42,7 +42,7 @@ from tab_fiducial import tab_fiducial
 from tab_gps import tab_gps
 from tab_imu import tab_imu
 from tab_msckf import tab_msckf
-from utilities import find_and_read_data_frames, generate_mc_lists
+from utilities import find_and_read_data_frames, generate_mc_lists, match_runs
 
 
 # TODO(jhartzer): Split for loop into thread pool
@@ -68,36 +68,32 @@ def plot_sim_results(config_sets, args):
             body_state_dfs = body_state_dfs_dict[key]
             aug_state_dfs = aug_state_dfs_dict[key]
             body_truth_dfs = body_truth_dfs_dict[key]
+            body_state_dfs, body_truth_dfs = match_runs(body_state_dfs, body_truth_dfs)
             tabs.append(tab_body(body_state_dfs, aug_state_dfs, body_truth_dfs, args).get_tab())
 
         imu_dfs_dict = find_and_read_data_frames(data_dirs, 'imu')
         for key in sorted(imu_dfs_dict.keys()):
-            imu_dfs = imu_dfs_dict[key]
-            body_truth_dfs = body_truth_dfs_dict[0]
+            imu_dfs, body_truth_dfs = match_runs(imu_dfs_dict[key], body_truth_dfs_dict[0])
             tabs.append(tab_imu(imu_dfs, body_truth_dfs, args).get_tab())
 
         mskcf_dfs_dict = find_and_read_data_frames(data_dirs, 'msckf')
         tri_dfs_dict = find_and_read_data_frames(data_dirs, 'triangulation')
         feat_dfs_dict = find_and_read_data_frames(data_dirs, 'feature_points')
         for key in sorted(mskcf_dfs_dict.keys()):
-            mskcf_dfs = mskcf_dfs_dict[key]
-            tri_dfs = tri_dfs_dict[key]
-            feat_dfs = feat_dfs_dict[0]
-            body_truth_dfs = body_truth_dfs_dict[0]
+            mskcf_dfs, body_truth_dfs = match_runs(mskcf_dfs_dict[key], body_truth_dfs_dict[0])
+            tri_dfs, feat_dfs = match_runs(tri_dfs_dict[key], feat_dfs_dict[0])
             tabs.append(tab_msckf(mskcf_dfs, tri_dfs, feat_dfs, body_truth_dfs, args).get_tab())
 
         fiducial_dfs_dict = find_and_read_data_frames(data_dirs, 'fiducial')
         board_truth_dfs_dict = find_and_read_data_frames(data_dirs, 'board_truth')
         for key in sorted(fiducial_dfs_dict.keys()):
-            fiducial_dfs = fiducial_dfs_dict[key]
-            board_dfs = board_truth_dfs_dict[0]
-            body_truth_dfs = body_truth_dfs_dict[0]
+            fiducial_dfs, board_dfs = match_runs(fiducial_dfs_dict[key], board_truth_dfs_dict[0])
+            fiducial_dfs, body_truth_dfs = match_runs(fiducial_dfs, body_truth_dfs_dict[0])
             tabs.append(tab_fiducial(fiducial_dfs, board_dfs, body_truth_dfs, args).get_tab())
 
         gps_dfs_dict = find_and_read_data_frames(data_dirs, 'gps')
         for key in sorted(gps_dfs_dict.keys()):
-            gps_dfs = gps_dfs_dict[key]
-            body_truth_dfs = body_truth_dfs_dict[0]
+            gps_dfs, body_truth_dfs = match_runs(gps_dfs_dict[key], body_truth_dfs_dict[0])
             tabs.append(tab_gps(gps_dfs, body_truth_dfs, args).get_tab())
 
         # Hide legends on click
diff --git a/eval/stats.py b/eval/stats.py
index 1e96398..53e50dc 100755
--- a/eval/stats.py
+++ b/eval/stats.py
@@ -33,7 +33,7 @@ import os
 
 from input_parser import InputParser
 import numpy as np
-from utilities import find_and_read_data_frames, generate_mc_lists, interpolate_error
+from utilities import find_and_read_data_frames, generate_mc_lists, interpolate_error, match_runs
 
 
 def RMSE_from_vectors(x_list, y_list, z_list):
@@ -329,6 +329,7 @@ def calc_sim_stats(config_sets, args):
         for key in body_state_dfs_dict:
             body_state_dfs = body_state_dfs_dict[key]
             body_truth_dfs = body_truth_dfs_dict[key]
+            body_state_dfs, body_truth_dfs = match_runs(body_state_dfs, body_truth_dfs)
             stats[f'body_{key}_err_pos'] = body_err_pos(body_state_dfs, body_truth_dfs)
             stats[f'body_{key}_err_vel'] = body_err_vel(body_state_dfs, body_truth_dfs)
             stats[f'body_{key}_err_acc'] = body_err_acc(body_state_dfs, body_truth_dfs)
@@ -338,9 +339,8 @@ def calc_sim_stats(config_sets, args):
             stats[f'body_{key}_states'] = body_states(body_state_dfs)
 
         imu_dfs_dict = find_and_read_data_frames(data_dirs, 'imu')
-        body_truth_dfs = body_truth_dfs_dict[0]
         for key in sorted(imu_dfs_dict.keys()):
-            imu_dfs = imu_dfs_dict[key]
+            imu_dfs, body_truth_dfs = match_runs(imu_dfs_dict[key], body_truth_dfs_dict[0])
             stats[f'imu_{key}_err_pos'] = sensor_err_pos(imu_dfs, body_truth_dfs, 'imu')
             stats[f'imu_{key}_err_ang'] = sensor_err_ang(imu_dfs, body_truth_dfs, 'imu')
             stats[f'imu_{key}_err_acc_bias'] = imu_err_bias(imu_dfs, body_truth_dfs, 'acc')
@@ -349,7 +349,7 @@ def calc_sim_stats(config_sets, args):
 
         mskcf_dfs_dict = find_and_read_data_frames(data_dirs, 'msckf')
         for key in sorted(mskcf_dfs_dict.keys()):
-            mskcf_dfs = mskcf_dfs_dict[key]
+            mskcf_dfs, body_truth_dfs = match_runs(mskcf_dfs_dict[key], body_truth_dfs_dict[0])
             stats[f'mskcf_{key}_err_pos'] = sensor_err_pos(mskcf_dfs, body_truth_dfs, 'cam')
             stats[f'mskcf_{key}_err_ang'] = sensor_err_ang(mskcf_dfs, body_truth_dfs, 'cam')
 
@@ -362,7 +362,7 @@ def calc_sim_stats(config_sets, args):
 
         gps_dfs_dict = find_and_read_data_frames(data_dirs, 'gps')
         for key in sorted(gps_dfs_dict.keys()):
-            gps_dfs = gps_dfs_dict[key]
+            gps_dfs, body_truth_dfs = match_runs(gps_dfs_dict[key], body_truth_dfs_dict[0])
             stats[f'gps_{key}_err_init_pos'] = gps_err_pos(gps_dfs, body_truth_dfs)
             stats[f'gps_{key}_err_init_ang'] = gps_err_ang(gps_dfs, body_truth_dfs)
             stats[f'gps_{key}_init_count'] = gps_init_count(gps_dfs)
diff --git a/eval/utilities.py b/eval/utilities.py
index 04898df..dd84d84 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -200,10 +200,19 @@ def find_and_read_data_frames(directories, prefix):
             else:
                 file_id = 0
             df.attrs['id'] = file_id
+            df.attrs['directory'] = directory
             data_frame_sets[file_id].append(df)
     return data_frame_sets
 
 
+def match_runs(data_frames, reference_data_frames):
+    """Pair data frames with reference (e.g. truth) data frames of the same run, unpaired last."""
+    references = {df.attrs['directory']: df for df in reference_data_frames}
+    paired = [df for df in data_frames if df.attrs['directory'] in references]
+    unpaired = [df for df in data_frames if df.attrs['directory'] not in references]
+    return paired + unpaired, [references[df.attrs['directory']] for df in paired]
+
+
 def generate_mc_lists(args):
     """Generate sets of yaml configuration files to plot."""
     mc_lists = []
-- 
2.43.0


From 4365e2574e83528a1c1c09cacb370741204a9188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 76/85] fix: plot the bias errors of every run over its own
 time

---
 eval/tab_imu.py | 55 ++++++++++++++++++++-----------------------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/eval/tab_imu.py b/eval/tab_imu.py
index 22b3d2f..b18e09b 100644
--- a/eval/tab_imu.py
+++ b/eval/tab_imu.py
@@ -174,30 +174,25 @@ class tab_imu:
             x_axis_label='Time [s]',
             y_axis_label='Bias Error [m]',
             title='Accelerometer Bias Error')
-        n = np.max([len(imu_df) for imu_df in self.imu_dfs])
-        a_bias_err_x = np.zeros([len(self.imu_dfs), n])
-        a_bias_err_y = np.zeros([len(self.imu_dfs), n])
-        a_bias_err_z = np.zeros([len(self.imu_dfs), n])
 
-        for i, (imu_df, body_truth) in enumerate(zip(self.imu_dfs, self.body_truth_dfs)):
-            m = len(self.imu_dfs[i]['time'])
-            time = self.imu_dfs[i]['time']
-            est_x = np.array(self.imu_dfs[i]['imu_acc_bias_0'])
-            est_y = np.array(self.imu_dfs[i]['imu_acc_bias_1'])
-            est_z = np.array(self.imu_dfs[i]['imu_acc_bias_2'])
+        for imu_df, body_truth in zip(self.imu_dfs, self.body_truth_dfs):
+            time = imu_df['time']
+            est_x = imu_df['imu_acc_bias_0']
+            est_y = imu_df['imu_acc_bias_1']
+            est_z = imu_df['imu_acc_bias_2']
 
             true_t = body_truth['time']
             true_x = body_truth[f"imu_acc_bias_{imu_df.attrs['id']}_0"]
             true_y = body_truth[f"imu_acc_bias_{imu_df.attrs['id']}_1"]
             true_z = body_truth[f"imu_acc_bias_{imu_df.attrs['id']}_2"]
 
-            a_bias_err_x[i, 0:m] = interpolate_error(true_t, true_x, time, est_x)
-            a_bias_err_y[i, 0:m] = interpolate_error(true_t, true_y, time, est_y)
-            a_bias_err_z[i, 0:m] = interpolate_error(true_t, true_z, time, est_z)
+            err_x = interpolate_error(true_t, true_x, time, est_x)
+            err_y = interpolate_error(true_t, true_y, time, est_y)
+            err_z = interpolate_error(true_t, true_z, time, est_z)
 
-            fig.line(time, a_bias_err_x[i, :], color=self.colors[0], alpha=self.alpha)
-            fig.line(time, a_bias_err_y[i, :], color=self.colors[1], alpha=self.alpha)
-            fig.line(time, a_bias_err_z[i, :], color=self.colors[2], alpha=self.alpha)
+            fig.line(time, err_x, color=self.colors[0], alpha=self.alpha)
+            fig.line(time, err_y, color=self.colors[1], alpha=self.alpha)
+            fig.line(time, err_z, color=self.colors[2], alpha=self.alpha)
 
         return fig
 
@@ -209,31 +204,25 @@ class tab_imu:
             x_axis_label='Time [s]',
             y_axis_label='Bias Error [m]',
             title='Gyroscope Bias Error')
-        n = np.max([len(imu_df) for imu_df in self.imu_dfs])
-        w_bias_t = np.zeros([len(self.imu_dfs), n])
-        w_bias_err_x = np.zeros([len(self.imu_dfs), n])
-        w_bias_err_y = np.zeros([len(self.imu_dfs), n])
-        w_bias_err_z = np.zeros([len(self.imu_dfs), n])
 
-        for i, (imu_df, body_truth) in enumerate(zip(self.imu_dfs, self.body_truth_dfs)):
-            m = len(self.imu_dfs[i]['time'])
-            w_bias_t[i, 0:m] = self.imu_dfs[i]['time']
-            w_bias_x = np.array(self.imu_dfs[i]['imu_gyr_bias_0'])
-            w_bias_y = np.array(self.imu_dfs[i]['imu_gyr_bias_1'])
-            w_bias_z = np.array(self.imu_dfs[i]['imu_gyr_bias_2'])
+        for imu_df, body_truth in zip(self.imu_dfs, self.body_truth_dfs):
+            time = imu_df['time']
+            est_x = imu_df['imu_gyr_bias_0']
+            est_y = imu_df['imu_gyr_bias_1']
+            est_z = imu_df['imu_gyr_bias_2']
 
             true_t = body_truth['time']
             true_x = body_truth[f"imu_gyr_bias_{imu_df.attrs['id']}_0"]
             true_y = body_truth[f"imu_gyr_bias_{imu_df.attrs['id']}_1"]
             true_z = body_truth[f"imu_gyr_bias_{imu_df.attrs['id']}_2"]
 
-            w_bias_err_x[i, 0:m] = interpolate_error(true_t, true_x, w_bias_err_x[i, :], w_bias_x)
-            w_bias_err_y[i, 0:m] = interpolate_error(true_t, true_y, w_bias_err_y[i, :], w_bias_y)
-            w_bias_err_z[i, 0:m] = interpolate_error(true_t, true_z, w_bias_err_z[i, :], w_bias_z)
+            err_x = interpolate_error(true_t, true_x, time, est_x)
+            err_y = interpolate_error(true_t, true_y, time, est_y)
+            err_z = interpolate_error(true_t, true_z, time, est_z)
 
-            fig.line(w_bias_t[i, :], w_bias_err_x[i, :], color=self.colors[0], alpha=self.alpha)
-            fig.line(w_bias_t[i, :], w_bias_err_y[i, :], color=self.colors[1], alpha=self.alpha)
-            fig.line(w_bias_t[i, :], w_bias_err_z[i, :], color=self.colors[2], alpha=self.alpha)
+            fig.line(time, err_x, color=self.colors[0], alpha=self.alpha)
+            fig.line(time, err_y, color=self.colors[1], alpha=self.alpha)
+            fig.line(time, err_z, color=self.colors[2], alpha=self.alpha)
 
         return fig
 
-- 
2.43.0


From cedd1cd1b57c8b111dfd73fe78bc8eb94199b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 77/85] fix: normalized estimation errors divide by the logged
 variances, angles in radians

---
 eval/tab_body.py     | 37 +++++++++++++++++++------------------
 eval/tab_fiducial.py | 18 +++++++++---------
 eval/tab_gps.py      |  6 +++---
 eval/tab_imu.py      | 39 ++++++++++++++++++++-------------------
 eval/tab_msckf.py    | 13 +++++++------
 5 files changed, 58 insertions(+), 55 deletions(-)

diff --git a/eval/tab_body.py b/eval/tab_body.py
index b252b6e..8e1d0ed 100644
--- a/eval/tab_body.py
+++ b/eval/tab_body.py
@@ -457,6 +457,7 @@ class tab_body:
             e07 = interpolate_error(tt, t07, xt, x07)
             e08 = interpolate_error(tt, t08, xt, x08)
             e09, e10, e11 = interpolate_quat_error(tt, tw, tx, ty, tz, xt, xw, xx, xy, xz)
+            e09, e10, e11 = e09 * 1e-3, e10 * 1e-3, e11 * 1e-3
             e12 = interpolate_error(tt, t12, xt, x12)
             e13 = interpolate_error(tt, t13, xt, x13)
             e14 = interpolate_error(tt, t14, xt, x14)
@@ -465,24 +466,24 @@ class tab_body:
             e17 = interpolate_error(tt, t17, xt, x17)
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02 + \
-                e03 * e03 / c03 / c03 + \
-                e04 * e04 / c04 / c04 + \
-                e05 * e05 / c05 / c05 + \
-                e06 * e06 / c06 / c06 + \
-                e07 * e07 / c07 / c07 + \
-                e08 * e08 / c08 / c08 + \
-                e09 * e09 / c09 / c09 + \
-                e10 * e10 / c10 / c10 + \
-                e11 * e11 / c11 / c11 + \
-                e12 * e12 / c12 / c12 + \
-                e13 * e13 / c13 / c13 + \
-                e14 * e14 / c14 / c14 + \
-                e15 * e15 / c15 / c15 + \
-                e16 * e16 / c16 / c16 + \
-                e17 * e17 / c17 / c17
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02 + \
+                e03 * e03 / c03 + \
+                e04 * e04 / c04 + \
+                e05 * e05 / c05 + \
+                e06 * e06 / c06 + \
+                e07 * e07 / c07 + \
+                e08 * e08 / c08 + \
+                e09 * e09 / c09 + \
+                e10 * e10 / c10 + \
+                e11 * e11 / c11 + \
+                e12 * e12 / c12 + \
+                e13 * e13 / c13 + \
+                e14 * e14 / c14 + \
+                e15 * e15 / c15 + \
+                e16 * e16 / c16 + \
+                e17 * e17 / c17
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_fiducial.py b/eval/tab_fiducial.py
index 2387908..ddf0a80 100644
--- a/eval/tab_fiducial.py
+++ b/eval/tab_fiducial.py
@@ -252,9 +252,9 @@ class tab_fiducial:
                 qe = Rotation.from_quat([ew, ex, ey, ez], scalar_first=True)
                 q_err = qt * qe.inv()
                 error_euler = q_err.as_euler('XYZ')
-                e03.append(error_euler[0] * 1e3)
-                e04.append(error_euler[1] * 1e3)
-                e05.append(error_euler[2] * 1e3)
+                e03.append(error_euler[0])
+                e04.append(error_euler[1])
+                e05.append(error_euler[2])
             e03 = np.array(e03)
             e04 = np.array(e04)
             e05 = np.array(e05)
@@ -267,12 +267,12 @@ class tab_fiducial:
             c05 = fiducial_df['fid_cov_5']
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02 + \
-                e03 * e03 / c03 / c03 + \
-                e04 * e04 / c04 / c04 + \
-                e05 * e05 / c05 / c05
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02 + \
+                e03 * e03 / c03 + \
+                e04 * e04 / c04 + \
+                e05 * e05 / c05
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_gps.py b/eval/tab_gps.py
index 772e767..9bb7dad 100644
--- a/eval/tab_gps.py
+++ b/eval/tab_gps.py
@@ -152,9 +152,9 @@ class tab_gps:
             e02 = interpolate_error(tt, t02, xt, x02)
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_imu.py b/eval/tab_imu.py
index b18e09b..9408281 100644
--- a/eval/tab_imu.py
+++ b/eval/tab_imu.py
@@ -352,26 +352,27 @@ class tab_imu:
                 c04 = imu_df['imu_ext_cov_4']
                 c05 = imu_df['imu_ext_cov_5']
 
-                t00 = body_truth[f"imu_pos_{self.imu_dfs[0].attrs['id']}_0"]
-                t01 = body_truth[f"imu_pos_{self.imu_dfs[0].attrs['id']}_1"]
-                t02 = body_truth[f"imu_pos_{self.imu_dfs[0].attrs['id']}_2"]
-                tw = body_truth[f"imu_ang_pos_{self.imu_dfs[0].attrs['id']}_0"]
-                tx = body_truth[f"imu_ang_pos_{self.imu_dfs[0].attrs['id']}_1"]
-                ty = body_truth[f"imu_ang_pos_{self.imu_dfs[0].attrs['id']}_2"]
-                tz = body_truth[f"imu_ang_pos_{self.imu_dfs[0].attrs['id']}_3"]
+                t00 = body_truth[f"imu_pos_{imu_df.attrs['id']}_0"]
+                t01 = body_truth[f"imu_pos_{imu_df.attrs['id']}_1"]
+                t02 = body_truth[f"imu_pos_{imu_df.attrs['id']}_2"]
+                tw = body_truth[f"imu_ang_pos_{imu_df.attrs['id']}_0"]
+                tx = body_truth[f"imu_ang_pos_{imu_df.attrs['id']}_1"]
+                ty = body_truth[f"imu_ang_pos_{imu_df.attrs['id']}_2"]
+                tz = body_truth[f"imu_ang_pos_{imu_df.attrs['id']}_3"]
 
                 e00 = interpolate_error(tt, t00, xt, x00)
                 e01 = interpolate_error(tt, t01, xt, x01)
                 e02 = interpolate_error(tt, t02, xt, x02)
                 e03, e04, e05 = interpolate_quat_error(tt, tw, tx, ty, tz, xt, xw, xx, xy, xz)
+                e03, e04, e05 = e03 * 1e-3, e04 * 1e-3, e05 * 1e-3
 
                 nees += \
-                    e00 * e00 / c00 / c00 + \
-                    e01 * e01 / c01 / c01 + \
-                    e02 * e02 / c02 / c02 + \
-                    e03 * e03 / c03 / c03 + \
-                    e04 * e04 / c04 / c04 + \
-                    e05 * e05 / c05 / c05
+                    e00 * e00 / c00 + \
+                    e01 * e01 / c01 + \
+                    e02 * e02 / c02 + \
+                    e03 * e03 / c03 + \
+                    e04 * e04 / c04 + \
+                    e05 * e05 / c05
 
             if self.is_intrinsic:
                 dof += 6
@@ -404,12 +405,12 @@ class tab_imu:
                 e11 = interpolate_error(tt, t11, xt, x11)
 
                 nees += \
-                    e06 * e06 / c06 / c06 + \
-                    e07 * e07 / c07 / c07 + \
-                    e08 * e08 / c08 / c08 + \
-                    e09 * e09 / c09 / c09 + \
-                    e10 * e10 / c10 / c10 + \
-                    e11 * e11 / c11 / c11
+                    e06 * e06 / c06 + \
+                    e07 * e07 / c07 + \
+                    e08 * e08 / c08 + \
+                    e09 * e09 / c09 + \
+                    e10 * e10 / c10 + \
+                    e11 * e11 / c11
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_msckf.py b/eval/tab_msckf.py
index 86c3973..2536a1b 100644
--- a/eval/tab_msckf.py
+++ b/eval/tab_msckf.py
@@ -320,14 +320,15 @@ class tab_msckf:
             e01 = interpolate_error(tt, t01, xt, x01)
             e02 = interpolate_error(tt, t02, xt, x02)
             e03, e04, e05 = interpolate_quat_error(tt, tw, tx, ty, tz, xt, xw, xx, xy, xz)
+            e03, e04, e05 = e03 * 1e-3, e04 * 1e-3, e05 * 1e-3
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02 + \
-                e03 * e03 / c03 / c03 + \
-                e04 * e04 / c04 / c04 + \
-                e05 * e05 / c05 / c05
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02 + \
+                e03 * e03 / c03 + \
+                e04 * e04 / c04 + \
+                e05 * e05 / c05
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
-- 
2.43.0


From d21f7cb1ea3274e08614cd6e1a886fbfe60fd565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 78/85] fix: compare the estimated board pose with the pose of
 that board

---
 eval/tab_fiducial.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/eval/tab_fiducial.py b/eval/tab_fiducial.py
index ddf0a80..e724e9e 100644
--- a/eval/tab_fiducial.py
+++ b/eval/tab_fiducial.py
@@ -227,13 +227,14 @@ class tab_fiducial:
         fig = figure(width=800, height=300, x_axis_label='Time [s]',
                      y_axis_label='NEES', title='Normalized Estimation Error Squared')
         for fiducial_df, board_truth in zip(self.fiducial_dfs, self.board_truth_dfs):
-            t00 = np.array(board_truth['pos_x'])[0]
-            t01 = np.array(board_truth['pos_y'])[0]
-            t02 = np.array(board_truth['pos_z'])[0]
-            tw = np.array(board_truth['quat_w'])[0]
-            tx = np.array(board_truth['quat_x'])[0]
-            ty = np.array(board_truth['quat_y'])[0]
-            tz = np.array(board_truth['quat_z'])[0]
+            row = np.argmax(np.array(board_truth['board']) == fiducial_df['board'][0])
+            t00 = np.array(board_truth['pos_x'])[row]
+            t01 = np.array(board_truth['pos_y'])[row]
+            t02 = np.array(board_truth['pos_z'])[row]
+            tw = np.array(board_truth['quat_w'])[row]
+            tx = np.array(board_truth['quat_x'])[row]
+            ty = np.array(board_truth['quat_y'])[row]
+            tz = np.array(board_truth['quat_z'])[row]
 
             xt = fiducial_df['time']
             e00 = fiducial_df['fid_pos_0'] - t00
-- 
2.43.0


From 1d68ac013c06b040e269208a1b6acd984d3db2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 79/85] fix: name the GPS in the title of its update times

---
 eval/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eval/utilities.py b/eval/utilities.py
index dd84d84..a343853 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -152,6 +152,8 @@ def format_prefix(prefix):
         return 'Fiducial'
     elif (prefix == 'msckf'):
         return 'MSCKF'
+    elif (prefix == 'gps'):
+        return 'GPS'
     else:
         return ''
 
-- 
2.43.0


From 9f80ede29de0312459ac2954e3549339ba61af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:16 +0000
Subject: [PATCH 80/85] fix: report orientation errors of the whole quaternion
 in the statistics

---
 eval/stats.py | 42 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/eval/stats.py b/eval/stats.py
index 53e50dc..b2b1dc7 100755
--- a/eval/stats.py
+++ b/eval/stats.py
@@ -33,7 +33,8 @@ import os
 
 from input_parser import InputParser
 import numpy as np
-from utilities import find_and_read_data_frames, generate_mc_lists, interpolate_error, match_runs
+from utilities import calculate_rotation_errors, find_and_read_data_frames, generate_mc_lists, \
+    interpolate_error, lists_to_rot, match_runs
 
 
 def RMSE_from_vectors(x_list, y_list, z_list):
@@ -110,25 +111,17 @@ def body_err_acc(body_state_dfs, body_truth_dfs):
 
 def body_err_ang_pos(body_state_dfs, body_truth_dfs):
     """Calculate the body state angular error."""
-    # TODO: Calculate quaternion error
     RMSE_list = []
     for body_state, body_truth in zip(body_state_dfs, body_truth_dfs):
         true_time = body_truth['time'].to_list()
-        true_ang_pos_0 = body_truth['body_ang_pos_0'].to_list()
-        true_ang_pos_1 = body_truth['body_ang_pos_1'].to_list()
-        true_ang_pos_2 = body_truth['body_ang_pos_2'].to_list()
-        # true_ang_pos_3 = body_truth['body_ang_pos_3'].to_list()
-
+        true_quat = [body_truth[f'body_ang_pos_{i}'].to_list() for i in range(4)]
         est_time = body_state['time'].to_list()
-        est_ang_pos_0 = body_state['body_ang_pos_0'].to_list()
-        est_ang_pos_1 = body_state['body_ang_pos_1'].to_list()
-        est_ang_pos_2 = body_state['body_ang_pos_2'].to_list()
-        # est_ang_pos_3 = body_state['body_ang_pos_3'].to_list()
-
-        err_ang_vel_0 = interpolate_error(true_time, true_ang_pos_0, est_time, est_ang_pos_0)
-        err_ang_vel_1 = interpolate_error(true_time, true_ang_pos_1, est_time, est_ang_pos_1)
-        err_ang_vel_2 = interpolate_error(true_time, true_ang_pos_2, est_time, est_ang_pos_2)
-        RMSE_list.append(RMSE_from_vectors(err_ang_vel_0, err_ang_vel_1, err_ang_vel_2))
+        est_quat = [body_state[f'body_ang_pos_{i}'].to_list() for i in range(4)]
+
+        interp_quat = [np.interp(est_time, true_time, true) for true in true_quat]
+        err_0, err_1, err_2 = calculate_rotation_errors(
+            lists_to_rot(*est_quat), lists_to_rot(*interp_quat))
+        RMSE_list.append(RMSE_from_vectors(err_0, err_1, err_2))
     return RMSE_list
 
 
@@ -210,19 +203,14 @@ def sensor_err_ang(sensor_dfs, body_truth_dfs_dict, prefix):
     for sensor_state, body_truth in zip(sensor_dfs, body_truth_dfs_dict):
         sensor_id = sensor_state.attrs['id']
         true_time = body_truth['time'].to_list()
-        true_ang_vel_0 = body_truth[f'{prefix}_ang_pos_{sensor_id}_0'].to_list()
-        true_ang_vel_1 = body_truth[f'{prefix}_ang_pos_{sensor_id}_1'].to_list()
-        true_ang_vel_2 = body_truth[f'{prefix}_ang_pos_{sensor_id}_2'].to_list()
-
+        true_quat = [body_truth[f'{prefix}_ang_pos_{sensor_id}_{i}'].to_list() for i in range(4)]
         est_time = sensor_state['time'].to_list()
-        est_ang_vel_0 = sensor_state[f'{prefix}_ang_pos_0'].to_list()
-        est_ang_vel_1 = sensor_state[f'{prefix}_ang_pos_1'].to_list()
-        est_ang_vel_2 = sensor_state[f'{prefix}_ang_pos_2'].to_list()
+        est_quat = [sensor_state[f'{prefix}_ang_pos_{i}'].to_list() for i in range(4)]
 
-        err_ang_vel_0 = interpolate_error(true_time, true_ang_vel_0, est_time, est_ang_vel_0)
-        err_ang_vel_1 = interpolate_error(true_time, true_ang_vel_1, est_time, est_ang_vel_1)
-        err_ang_vel_2 = interpolate_error(true_time, true_ang_vel_2, est_time, est_ang_vel_2)
-        RMSE_list.append(RMSE_from_vectors(err_ang_vel_0, err_ang_vel_1, err_ang_vel_2))
+        interp_quat = [np.interp(est_time, true_time, true) for true in true_quat]
+        err_0, err_1, err_2 = calculate_rotation_errors(
+            lists_to_rot(*est_quat), lists_to_rot(*interp_quat))
+        RMSE_list.append(RMSE_from_vectors(err_0, err_1, err_2))
     return RMSE_list
 
 
-- 
2.43.0


From f3eacafd9f8a222deeeea1c19c0a448e44c24299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:16 +0000
Subject: [PATCH 81/85] fix: run simulations on machines with a single
 processor

---
 eval/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/run.py b/eval/run.py
index 82048ce..34a6c39 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -136,7 +136,7 @@ def generate_mc_from_yaml(
 
 def add_jobs(args):
     """Add simulation jobs to pool given list of top-level input yaml files."""
-    cpu_count = args.jobs if (args.jobs) else multiprocessing.cpu_count() - 1
+    cpu_count = args.jobs if (args.jobs) else max(multiprocessing.cpu_count() - 1, 1)
     pool = multiprocessing.Pool(cpu_count)
 
     for yaml_file in args.inputs:
-- 
2.43.0


From fe02f75fafcaf0246880285e269f2fe1ed85572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:50 +0000
Subject: [PATCH 82/85] fix: apply the given time to a single run too

---
 eval/run.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/eval/run.py b/eval/run.py
index 34a6c39..b0d6bec 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -53,8 +53,8 @@ def print_err(err):
     traceback.print_exception(type(err), err, err.__traceback__)
 
 
-def run_sim(yaml_path: str):
-    """Run simulation given an input yaml."""
+def run_sim(yaml_path: str, time=None):
+    """Run simulation given an input yaml and, optionally, another maximum time."""
     # Get (and create) yaml directory
     yaml_dir = yaml_path.split('.yaml')[0] + os.sep
     if (not os.path.isdir(yaml_dir)):
@@ -62,10 +62,20 @@ def run_sim(yaml_path: str):
         with open(os.path.join(yaml_dir, '.gitignore'), 'w') as f_git_ignore:
             f_git_ignore.write('*\n')
 
+    # Override the maximum time
+    config_path = yaml_path
+    if (time):
+        with open(yaml_path, 'r') as yaml_stream:
+            config = yaml.safe_load(yaml_stream)
+        config['/EkfCalNode']['ros__parameters']['sim_params']['max_time'] = time
+        config_path = os.path.join(yaml_dir, os.path.basename(yaml_path))
+        with open(config_path, 'w') as f:
+            yaml.dump(config, f)
+
     # Run simulation
     base_path = os.path.join(os.path.dirname(os.path.realpath(__file__)), '..')
     sim_path = os.path.join(base_path, '..', '..', 'build', 'ekf_cal', 'sim')
-    proc = subprocess.run([sim_path, yaml_path, yaml_dir],
+    proc = subprocess.run([sim_path, config_path, yaml_dir],
                           stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE)
 
@@ -146,8 +156,10 @@ def add_jobs(args):
             runs=args.runs,
             time=args.time
         )
+        # The configurations of a Monte Carlo set already hold the time
+        time = args.time if (len(list_of_runs) == 1) else None
         for single_run in list_of_runs:
-            pool.apply_async(run_sim, args=(single_run,), error_callback=print_err)
+            pool.apply_async(run_sim, args=(single_run, time), error_callback=print_err)
 
     pool.close()
     pool.join()
-- 
2.43.0


From 87ff0d18a0847d8b17db5865b3dd34dfd760355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:43 +0000
Subject: [PATCH 83/85] fix: reset the octaves of key points for SIFT
 descriptors

The octave of an ORB or BRISK key point is a level of its own pyramid. The SIFT
descriptor took it for one of its packed octaves and, for a small image, wrote
outside of its buffers.
---
 src/trackers/feature_tracker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index c01d91d..88e0e52 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -44,7 +44,7 @@ FeatureTracker::FeatureTracker(FeatureTracker::Parameters params)
     params.logger
   ),
   m_reset_octaves(
-    params.detector == Detector::SIFT && params.descriptor != Descriptor::SIFT),
+    (params.detector == Detector::SIFT) != (params.descriptor == Descriptor::SIFT)),
   m_px_error(params.px_error),
   m_down_sample(params.down_sample),
   m_down_sample_height(params.down_sample_height),
@@ -200,7 +200,7 @@ void FeatureTracker::Track(
   //     down_sample_size.width * down_sample_size.width
   //   ));
 
-  // Other extractors would take the packed octaves of SIFT for pyramid levels
+  // SIFT packs its octaves, which other extractors would take for pyramid levels and vice versa
   if (m_reset_octaves) {
     for (auto & key_point : curr_key_points) {
       key_point.octave = 0;
-- 
2.43.0


From c99a9d51e5d099bc6531a28367296fef1bad7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:43 +0000
Subject: [PATCH 84/85] fix: give every key point at least the size of a pixel

MSER key points of flat regions have a size of almost zero, for which the SIFT
descriptor writes outside of its buffers.
---
 src/trackers/feature_tracker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index 88e0e52..fabbb04 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -207,6 +207,11 @@ void FeatureTracker::Track(
     }
   }
 
+  // MSER finds regions without width, which the SIFT extractor has no buffers for
+  for (auto & key_point : curr_key_points) {
+    key_point.size = std::max(key_point.size, 1.0F);
+  }
+
   cv::Mat curr_descriptors;
   m_descriptor_extractor->compute(img_down, curr_key_points, curr_descriptors);
   curr_descriptors.convertTo(curr_descriptors, CV_32F);
-- 
2.43.0


From bfe85e65608f20f1b1f90f1291bbdbe278a108cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:58 +0000
Subject: [PATCH 85/85] fix: compare measurements with the current calibration
 in first estimate mode

---
 src/ekf/update/fiducial_updater.cpp | 14 +++++++++-----
 src/ekf/update/gps_updater.cpp      |  9 +++------
 src/ekf/update/msckf_updater.cpp    | 22 ++++++++++++++++------
 src/ekf/update/msckf_updater.hpp    |  2 ++
 4 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 6896a6b..aa9f7e6 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -128,11 +128,15 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
 
 Eigen::VectorXd FiducialUpdater::PredictMeasurement(EKF & ekf)
 {
-  RefreshStates(ekf);
+  // Only Jacobians are held at the first estimate
+  Eigen::Vector3d pos_c_in_b = ekf.m_state.cam_states[m_camera_id].pos_c_in_b;
+  Eigen::Quaterniond ang_c_to_b = ekf.m_state.cam_states[m_camera_id].ang_c_to_b;
+  Eigen::Vector3d pos_f_in_l = ekf.m_state.fid_states[m_id].pos_f_in_l;
+  Eigen::Quaterniond ang_f_to_l = ekf.m_state.fid_states[m_id].ang_f_to_l;
   Eigen::VectorXd predicted_measurement = Eigen::VectorXd::Zero(6);
   Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
   Eigen::Vector3d pos_b_in_l = ekf.m_state.body_state.pos_b_in_l;
-  Eigen::Matrix3d rot_b_to_c = m_ang_c_to_b.toRotationMatrix().transpose();
+  Eigen::Matrix3d rot_b_to_c = ang_c_to_b.toRotationMatrix().transpose();
   Eigen::Matrix3d rot_b_to_l = ang_b_to_l.toRotationMatrix();
   Eigen::Matrix3d rot_l_to_b = rot_b_to_l.transpose();
   Eigen::Quaterniond ang_l_to_c(rot_b_to_c * rot_l_to_b);
@@ -141,9 +145,9 @@ Eigen::VectorXd FiducialUpdater::PredictMeasurement(EKF & ekf)
   Eigen::Quaterniond ang_predicted, ang_measured, ang_residual;
 
   // Project the current feature into the current frame of reference
-  Eigen::Vector3d pos_f_in_b = rot_l_to_b * (m_pos_f_in_l - pos_b_in_l);
-  predicted_measurement.segment<3>(0) = rot_b_to_c * (pos_f_in_b - m_pos_c_in_b);
-  predicted_measurement.segment<3>(3) = QuatToRotVec(ang_l_to_c * m_ang_f_to_l);
+  Eigen::Vector3d pos_f_in_b = rot_l_to_b * (pos_f_in_l - pos_b_in_l);
+  predicted_measurement.segment<3>(0) = rot_b_to_c * (pos_f_in_b - pos_c_in_b);
+  predicted_measurement.segment<3>(3) = QuatToRotVec(ang_l_to_c * ang_f_to_l);
   return predicted_measurement;
 }
 
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index 225a7e1..205a073 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -79,12 +79,9 @@ Eigen::MatrixXd GpsUpdater::GetMeasurementJacobian(EKF & ekf)
 
 Eigen::Vector3d GpsUpdater::PredictMeasurement(EKF & ekf)
 {
-  if (!ekf.GetUseFirstEstimateJacobian() || m_is_first_estimate) {
-    m_pos_a_in_b = ekf.m_state.gps_states[m_id].pos_a_in_b;
-    m_is_first_estimate = false;
-  }
-
-  return ekf.m_state.body_state.pos_b_in_l + ekf.m_state.body_state.ang_b_to_l * m_pos_a_in_b;
+  // Only Jacobians are held at the first estimate
+  return ekf.m_state.body_state.pos_b_in_l +
+         ekf.m_state.body_state.ang_b_to_l * ekf.m_state.gps_states[m_id].pos_a_in_b;
 }
 
 void GpsUpdater::UpdateEKF(
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index ec54479..713a9ee 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -281,10 +281,14 @@ void MsckfUpdater::UpdateEKF(
     return;
   }
 
+  m_intrinsics = ekf.m_state.cam_states[m_id].intrinsics;
+  m_pos_c_in_b = ekf.m_state.cam_states[m_id].pos_c_in_b;
+  m_ang_c_to_b = ekf.m_state.cam_states[m_id].ang_c_to_b;
+
+  // Only Jacobians are held at the first estimate
   if (!ekf.GetUseFirstEstimateJacobian() || m_is_first_estimate) {
-    m_intrinsics = ekf.m_state.cam_states[m_id].intrinsics;
-    m_pos_c_in_b = ekf.m_state.cam_states[m_id].pos_c_in_b;
-    m_ang_c_to_b = ekf.m_state.cam_states[m_id].ang_c_to_b;
+    m_jacobian_pos_c_in_b = m_pos_c_in_b;
+    m_jacobian_ang_c_to_b = m_ang_c_to_b;
     m_is_first_estimate = false;
   }
 
@@ -333,8 +337,6 @@ void MsckfUpdater::UpdateEKF(
 
       Eigen::Matrix3d rot_ci_to_b = m_ang_c_to_b.toRotationMatrix();
       Eigen::Matrix3d rot_bi_to_l = aug_state_i.ang_b_to_l.toRotationMatrix();
-      Eigen::Matrix3d rot_b_to_ci = rot_ci_to_b.transpose();
-      Eigen::Matrix3d rot_l_to_ci = rot_b_to_ci * rot_bi_to_l.transpose();
 
       Eigen::Vector3d pos_bi_in_l = aug_state_i.pos_b_in_l;
 
@@ -352,6 +354,13 @@ void MsckfUpdater::UpdateEKF(
       Eigen::Vector2d xz_residual = xy_measured - xy_predicted;
       res_f.segment<2>(2 * i) = xz_residual;
 
+      // Linearization point of the Jacobians
+      rot_ci_to_b = m_jacobian_ang_c_to_b.toRotationMatrix();
+      Eigen::Matrix3d rot_b_to_ci = rot_ci_to_b.transpose();
+      Eigen::Matrix3d rot_l_to_ci = rot_b_to_ci * rot_bi_to_l.transpose();
+      pos_f_in_ci = rot_b_to_ci * (pos_f_in_bi - m_jacobian_pos_c_in_b);
+      xy_projected = Project(pos_f_in_ci);
+
       // Projection Jacobian
       Eigen::MatrixXd H_p(2, 3);
       ProjectionJacobian(pos_f_in_ci, H_p);
@@ -372,7 +381,8 @@ void MsckfUpdater::UpdateEKF(
       if (m_is_cam_extrinsic) {
         H_c.block<2, 3>(2 * i, cam_index + 0) = -H_d * H_p * rot_b_to_ci;
         H_c.block<2, 3>(2 * i, cam_index + 3) = H_d * H_p * rot_b_to_ci *
-          SkewSymmetric(rot_bi_to_l.transpose() * (pos_f_in_l - pos_bi_in_l) - m_pos_c_in_b) *
+          SkewSymmetric(
+          rot_bi_to_l.transpose() * (pos_f_in_l - pos_bi_in_l) - m_jacobian_pos_c_in_b) *
           rot_ci_to_b;
       }
 
diff --git a/src/ekf/update/msckf_updater.hpp b/src/ekf/update/msckf_updater.hpp
index 2216846..796dd10 100644
--- a/src/ekf/update/msckf_updater.hpp
+++ b/src/ekf/update/msckf_updater.hpp
@@ -122,6 +122,8 @@ private:
   Intrinsics m_intrinsics;
   Eigen::Vector3d m_pos_c_in_b{0.0, 0.0, 0.0};
   Eigen::Quaterniond m_ang_c_to_b{1.0, 0.0, 0.0, 0.0};
+  Eigen::Vector3d m_jacobian_pos_c_in_b{0.0, 0.0, 0.0};
+  Eigen::Quaterniond m_jacobian_ang_c_to_b{1.0, 0.0, 0.0, 0.0};
 };
 
 #endif  // EKF__UPDATE__MSCKF_UPDATER_HPP_
-- 
2.43.0

