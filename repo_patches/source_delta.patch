From 8e00e640c9888bdc07f5aade626bb462c8a37612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 01/37] fix: export the cameras of every group, not only of the
 first one

---
 McCalib/src/McCalib.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index c2eda02..f5fcba3 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -378,9 +378,9 @@ void Calibration::saveCamerasParams() {
           ? save_path_ / camera_params_file_name_
           : save_path_ / "calibrated_cameras_data.yml";
   cv::FileStorage fs(save_path_camera_params, cv::FileStorage::WRITE);
+  fs << "nb_camera" << static_cast<int>(nb_camera_);
   for (const auto &it_cam_group : cam_group_) {
     std::shared_ptr<CameraGroup> cur_cam_group = it_cam_group.second;
-    fs << "nb_camera" << static_cast<int>(nb_camera_);
     for (const auto &it_cam : cur_cam_group->cameras_) {
       std::shared_ptr<Camera> cur_cam = it_cam.second.lock();
       if (cur_cam) {
@@ -399,9 +399,8 @@ void Calibration::saveCamerasParams() {
            << cur_cam_group->getCameraPoseMat(cur_cam->cam_idx_).inv() << "}";
       }
     }
-
-    fs.release();
   }
+  fs.release();
 }
 
 /**
-- 
2.43.0


From 64e4a940c4661bfc90092a0ade5aa39a3ea3b335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 02/37] fix: hand-eye fallback uses the poses of both groups

---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index a4af8b6..b35cad3 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -680,7 +680,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
     return pose_g1_g2;
   } else {
     LOG_INFO << "Run the normal handeye calibration on all the samples";
-    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_1);
+    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_2);
     return pose_g1_g2;
   }
 }
-- 
2.43.0


From e985050349376b71f8966bb408694098459a847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 03/37] fix: hand-eye consistency check compares different
 poses

---
 McCalib/src/geometrytools.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index b35cad3..a4f6993 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -583,18 +583,20 @@ double checkSetConsistency(const std::vector<cv::Mat> &pose_abs_1,
     cv::Mat pose_cam_group_2_1 = pose_abs_2[selected_poses_idxs[i]];
     for (unsigned int j = 0; j < selected_poses_idxs.size(); j++) {
       if (i != j) {
-        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[i]];
-        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[i]];
-        cv::Mat PP1 = pose_cam_group_1_2.inv() * pose_cam_group_1_1;
-        cv::Mat PP2 = pose_cam_group_2_1.inv() * pose_cam_group_2_2;
-        cv::Mat ErrMat = PP2.inv() * pose_g1_g2 * PP1 * pose_g1_g2;
+        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[j]];
+        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[j]];
+        // relative displacements between the two poses: PP1 * X = X * PP2
+        cv::Mat PP1 = pose_cam_group_1_2 * pose_cam_group_1_1.inv();
+        cv::Mat PP2 = pose_cam_group_2_2 * pose_cam_group_2_1.inv();
+        cv::Mat ErrMat = PP1 * pose_g1_g2 * PP2.inv() * pose_g1_g2.inv();
         cv::Mat ErrRot, ErrTrans;
         Proj2RT(ErrMat, ErrRot, ErrTrans);
         cv::Mat ErrRotMat;
         cv::Rodrigues(ErrRot, ErrRotMat);
         double traceRot =
             cv::trace(ErrRotMat)[0] - std::numeric_limits<double>::epsilon();
-        double err_degree = std::acos(0.5 * (traceRot - 1.0)) * 180.0 / M_PI;
+        double cos_err = std::min(1.0, std::max(-1.0, 0.5 * (traceRot - 1.0)));
+        double err_degree = std::acos(cos_err) * 180.0 / M_PI;
         max_rotational_error = std::max(max_rotational_error, err_degree);
       }
     }
-- 
2.43.0


From 440acdaeaf99e4482b7ec56531941c6c1ad2ccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 04/37] fix: do not pick more pose clusters than there are

---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index a4f6993..5135b3e 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -637,7 +637,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
 
   std::vector<double> r1_he, r2_he, r3_he; // structure to save valid rot
   std::vector<double> t1_he, t2_he, t3_he; // structure to save valid trans
-  const unsigned int nb_clust_pick = 6;
+  const unsigned int nb_clust_pick = std::min(6u, num_clusters);
   unsigned int nb_success = 0;
   for (unsigned int iter = 0; iter < nb_it; iter++) {
     std::vector<cv::Mat> r_cam_group_1, t_cam_group_1, r_cam_group_2,
-- 
2.43.0


From f720cd7578ad056d0dd06424f86ab65b47e3118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 05/37] fix: read the quaternion_averaging setting under its
 documented name

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index f5fcba3..4642f69 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -54,7 +54,7 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   fs["number_y_square"] >> nb_y_square;
   root_path_ = convertStrToPath(fs["root_path"]);
   fs["cam_prefix"] >> cam_prefix_;
-  fs["quaternion_averaging:"] >> quaternion_averaging_;
+  fs["quaternion_averaging"] >> quaternion_averaging_;
   fs["ransac_threshold"] >> ransac_thresh_;
   fs["number_iterations"] >> nb_iterations_;
   fs["distortion_model"] >> distortion_model;
-- 
2.43.0


From 56d0da9bb8666ef97d666b60f2c35cba84513392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 06/37] fix: initialise the kernel element count of the corner
 refinement

---
 McCalib/include/point_refinement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/include/point_refinement.h b/McCalib/include/point_refinement.h
index d932aae..6985cfb 100644
--- a/McCalib/include/point_refinement.h
+++ b/McCalib/include/point_refinement.h
@@ -205,7 +205,7 @@ void saddleSubpixelRefinement(const cv::Mat &input,
 
   cv::Mat smoothingKernel;
   cv::Mat mask;
-  int nnz;
+  int nnz = 0;
   initConeSmoothingKernel(window_half_size, smoothingKernel, mask, nnz);
 
   cv::Mat invAtAAt;
-- 
2.43.0


From 0e317f9078163535fc8eef8c6777f4b284f3a0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 07/37] fix: take the image size from the first readable image

---
 McCalib/src/McCalib.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 4642f69..e35a2f8 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -238,14 +238,15 @@ void Calibration::detectBoardsWithCamera(const std::vector<cv::String> &fn,
   LOG_INFO << "Number of threads for board detection :: " << num_threads;
 
   std::size_t num_frames = fn.size();
-  if (num_frames > 0u) {
-    cv::Mat image = cv::imread(fn[0]);
-    if (image.empty()) {
-      LOG_ERROR << "Could not read the image :: " << fn[0];
-      assert((!image.empty()) && "Calibration cannot be done");
+  // take the image size from the first image which can be read
+  for (const cv::String &image_path : fn) {
+    cv::Mat image = cv::imread(image_path);
+    if (!image.empty()) {
+      cams_[cam_idx]->im_cols_ = image.cols;
+      cams_[cam_idx]->im_rows_ = image.rows;
+      break;
     }
-    cams_[cam_idx]->im_cols_ = image.cols;
-    cams_[cam_idx]->im_rows_ = image.rows;
+    LOG_ERROR << "Could not read the image :: " << image_path;
   }
   for (std::size_t frame_idx = 0u; frame_idx < num_frames; ++frame_idx) {
     LOG_DEBUG << "Frame index :: " << frame_idx;
-- 
2.43.0


From 616467cc1dc96545654110090d82f7e26afb71d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 08/37] fix: refuse a keypoints file which is incomplete or
 does not fit the boards

---
 McCalib/src/McCalib.cpp | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index e35a2f8..86d32e9 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -171,11 +171,23 @@ void Calibration::detectBoards() {
 
 void Calibration::loadDetectedKeypoints() {
   cv::FileStorage fs;
-  fs.open(keypoints_path_, cv::FileStorage::READ);
+  if (!fs.open(keypoints_path_, cv::FileStorage::READ)) {
+    throw std::runtime_error("Keypoints file '" + keypoints_path_.string() +
+                             "' can't be opened.");
+  }
   LOG_INFO << "Loading keypoints from " << keypoints_path_;
   for (unsigned int cam_idx = 0u; cam_idx < nb_camera_; ++cam_idx) {
     // extract camera matrix and distortion coefficients from the file
     cv::FileNode data_per_camera = fs["camera_" + std::to_string(cam_idx)];
+    for (const char *key : {"img_width", "img_height", "frame_idxs",
+                            "frame_paths", "board_idxs", "pts_2d",
+                            "charuco_idxs"}) {
+      if (!data_per_camera.isMap() || data_per_camera[key].empty()) {
+        throw std::runtime_error("Keypoints of camera " +
+                                 std::to_string(cam_idx) + " lack '" + key +
+                                 "'.");
+      }
+    }
 
     int img_cols;
     int img_rows;
@@ -199,12 +211,27 @@ void Calibration::loadDetectedKeypoints() {
 
     cams_[cam_idx]->im_cols_ = img_cols;
     cams_[cam_idx]->im_rows_ = img_rows;
-    assert(frame_idxs.size() != 0 && frame_idxs.size() == frame_paths.size() &&
-           frame_paths.size() == board_idxs.size() &&
-           board_idxs.size() == points.size() &&
-           points.size() == charuco_idxs.size());
+    if (frame_idxs.size() != frame_paths.size() ||
+        frame_paths.size() != board_idxs.size() ||
+        board_idxs.size() != points.size() ||
+        points.size() != charuco_idxs.size()) {
+      throw std::runtime_error("Keypoints of camera " +
+                               std::to_string(cam_idx) + " are incomplete.");
+    }
 
     for (unsigned int i = 0u; i < frame_idxs.size(); ++i) {
+      const auto board = boards_3d_.find(board_idxs[i]);
+      bool is_valid = board != boards_3d_.end() &&
+                      points[i].size() == charuco_idxs[i].size();
+      for (const int charuco_idx : charuco_idxs[i]) {
+        is_valid = is_valid && charuco_idx >= 0 &&
+                   charuco_idx < static_cast<int>(board->second->nb_pts_);
+      }
+      if (!is_valid) {
+        throw std::runtime_error("Keypoints of camera " +
+                                 std::to_string(cam_idx) +
+                                 " do not fit the configured boards.");
+      }
       insertNewBoard(cam_idx, frame_idxs[i], board_idxs[i], points[i],
                      charuco_idxs[i], frame_paths[i]);
     }
-- 
2.43.0


From 98e4641d270ade1724faa9dc505f22be0a10f188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 09/37] fix: refuse missing or invalid camera parameters

---
 McCalib/src/McCalib.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 86d32e9..be5c316 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -693,11 +693,14 @@ void Calibration::initializeCalibrationAllCam() {
                                    cam_params_path_.has_filename() &&
                                    cam_params_path_.extension() == ".yml";
     if (!is_file_available) {
-      LOG_FATAL << "Camera parameters path '" << cam_params_path_
-                << "' doesn't exist.";
-      return;
+      throw std::runtime_error("Camera parameters path '" +
+                               cam_params_path_.string() + "' doesn't exist.");
+    }
+    if (!fs.open(cam_params_path_, cv::FileStorage::READ)) {
+      throw std::runtime_error("Camera parameters '" +
+                               cam_params_path_.string() +
+                               "' can't be opened.");
     }
-    fs.open(cam_params_path_, cv::FileStorage::READ);
 
     LOG_INFO << "Initializing camera calibration from " << cam_params_path_;
 
@@ -707,8 +710,21 @@ void Calibration::initializeCalibrationAllCam() {
 
       cv::Mat camera_matrix;
       cv::Mat distortion_coeffs;
-      loaded_cam_params["camera_matrix"] >> camera_matrix;
-      loaded_cam_params["distortion_vector"] >> distortion_coeffs;
+      if (loaded_cam_params.isMap()) {
+        loaded_cam_params["camera_matrix"] >> camera_matrix;
+        loaded_cam_params["distortion_vector"] >> distortion_coeffs;
+      }
+      const std::size_t nb_coeffs = it.second->distortion_model_ == 1 ? 4u : 5u;
+      if (camera_matrix.size() != cv::Size(3, 3) ||
+          camera_matrix.type() != CV_64F ||
+          distortion_coeffs.total() != nb_coeffs ||
+          distortion_coeffs.type() != CV_64F ||
+          !cv::checkRange(camera_matrix) || !cv::checkRange(distortion_coeffs)) {
+        throw std::runtime_error("Parameters of camera " +
+                                 std::to_string(it.first) +
+                                 " are missing or invalid in '" +
+                                 cam_params_path_.string() + "'.");
+      }
 
       it.second->setIntrinsics(camera_matrix, distortion_coeffs);
     }
-- 
2.43.0


From 25da7fbca699b1fc6655fca610b0c0f3b3df7ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 10/37] fix: report a failed calibration through the exit
 status

---
 apps/calibrate/src/calibrate.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/calibrate/src/calibrate.cpp b/apps/calibrate/src/calibrate.cpp
index 3834662..3e0163f 100644
--- a/apps/calibrate/src/calibrate.cpp
+++ b/apps/calibrate/src/calibrate.cpp
@@ -96,7 +96,12 @@ int main(int argc, char *argv[]) {
   }
 
   auto start = std::chrono::high_resolution_clock::now();
-  runCalibrationWorkflow(config_path);
+  try {
+    runCalibrationWorkflow(config_path);
+  } catch (const std::exception &e) {
+    LOG_FATAL << "Calibration failed: " << e.what();
+    return -1;
+  }
   auto stop = std::chrono::high_resolution_clock::now();
   auto duration =
       std::chrono::duration_cast<std::chrono::seconds>(stop - start);
-- 
2.43.0


From ca64ff04845bf77f4a8f74459844da5e8b8983a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 11/37] fix: create each object observation once when objects
 are merged

---
 McCalib/src/McCalib.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index be5c316..4c95ce3 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1894,12 +1894,8 @@ void Calibration::mergeAllObjectObs() {
   object_observations_.clear();
 
   // Reinitialize all the 3D object
-  for (const auto &it_object : object_3d_) {
-    (void)it_object;
-    // Reinitialize all object obserations
-    for (const auto &it : object_3d_)
-      this->init3DObjectObs(it.first);
-  }
+  for (const auto &it : object_3d_)
+    this->init3DObjectObs(it.first);
 }
 
 /**
-- 
2.43.0


From 70eb2c59fec98c1860719bc14e095eecf62630c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 12/37] fix: list only a camera group's own frames in its
 reprojection errors

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 4c95ce3..478203b 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -2291,7 +2291,6 @@ void Calibration::saveReprojectionErrorToFile() {
   const std::filesystem::path save_reprojection_error =
       save_path_ / "reprojection_error_data.yml";
   cv::FileStorage fs(save_reprojection_error, cv::FileStorage::WRITE);
-  cv::Mat frame_list;
   int nb_cam_group = cam_group_.size();
   fs << "nb_camera_group" << nb_cam_group;
 
@@ -2299,6 +2298,7 @@ void Calibration::saveReprojectionErrorToFile() {
     int cam_group_idx = it.second->cam_group_idx_;
     fs << "camera_group_" + std::to_string(cam_group_idx);
     fs << "{";
+    cv::Mat frame_list;
     std::shared_ptr<CameraGroup> cur_cam_group = it.second;
     // iterate through frames
     for (const auto &it_frame : cur_cam_group->frames_) {
-- 
2.43.0


From 67d09f3ffcde0f3ecb318725c71a61467beb0b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 13/37] fix: fail when a result file or an overlay image cannot
 be written

---
 McCalib/src/McCalib.cpp          | 56 +++++++++++++++++++++++++-------
 apps/calibrate/src/calibrate.cpp | 12 +++----
 2 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 478203b..2ea4ac1 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1,4 +1,5 @@
 #include "opencv2/core/core.hpp"
+#include <fstream>
 #include <iostream>
 #include <opencv2/aruco/charuco.hpp>
 #include <opencv2/opencv.hpp>
@@ -16,6 +17,24 @@
 
 namespace McCalib {
 
+/**
+ * @brief Write the results gathered in memory to a file
+ *
+ * @param fs storage opened in memory
+ * @param path path of the result file
+ */
+static void writeResultFile(cv::FileStorage &fs,
+                            const std::filesystem::path &path) {
+  const std::string content = fs.releaseAndGetString();
+  std::ofstream file(path, std::ios::binary);
+  file << content;
+  file.close();
+  if (!file) {
+    throw std::runtime_error("Results can't be written to '" + path.string() +
+                             "'.");
+  }
+}
+
 /**
  * @brief Initialize the number of cameras and the 3D Boards
  *
@@ -405,7 +424,8 @@ void Calibration::saveCamerasParams() {
       (!camera_params_file_name_.empty())
           ? save_path_ / camera_params_file_name_
           : save_path_ / "calibrated_cameras_data.yml";
-  cv::FileStorage fs(save_path_camera_params, cv::FileStorage::WRITE);
+  cv::FileStorage fs(save_path_camera_params,
+                     cv::FileStorage::WRITE | cv::FileStorage::MEMORY);
   fs << "nb_camera" << static_cast<int>(nb_camera_);
   for (const auto &it_cam_group : cam_group_) {
     std::shared_ptr<CameraGroup> cur_cam_group = it_cam_group.second;
@@ -428,7 +448,7 @@ void Calibration::saveCamerasParams() {
       }
     }
   }
-  fs.release();
+  writeResultFile(fs, save_path_camera_params);
 }
 
 /**
@@ -440,7 +460,8 @@ void Calibration::saveCamerasParams() {
 void Calibration::save3DObj() {
   const std::filesystem::path save_path_object =
       save_path_ / "calibrated_objects_data.yml";
-  cv::FileStorage fs(save_path_object, cv::FileStorage::WRITE);
+  cv::FileStorage fs(save_path_object,
+                     cv::FileStorage::WRITE | cv::FileStorage::MEMORY);
 
   for (const auto &it_obj : object_3d_) {
     unsigned int obj_pts_count = 0;
@@ -472,7 +493,7 @@ void Calibration::save3DObj() {
        << "points" << pts_mat;
     fs << "}";
   }
-  fs.release();
+  writeResultFile(fs, save_path_object);
 }
 
 /**
@@ -482,7 +503,8 @@ void Calibration::save3DObj() {
 void Calibration::save3DObjPose() {
   const std::filesystem::path save_path_object_pose =
       save_path_ / "calibrated_objects_pose_data.yml";
-  cv::FileStorage fs(save_path_object_pose, cv::FileStorage::WRITE);
+  cv::FileStorage fs(save_path_object_pose,
+                     cv::FileStorage::WRITE | cv::FileStorage::MEMORY);
   for (const auto &it_obj : object_3d_) {
     std::shared_ptr<Object3D> cur_object = it_obj.second;
     fs << "object_" + std::to_string(cur_object->obj_id_);
@@ -506,7 +528,7 @@ void Calibration::save3DObjPose() {
     fs << "poses" << pose_mat;
     fs << "}";
   }
-  fs.release();
+  writeResultFile(fs, save_path_object_pose);
 }
 
 /**
@@ -520,7 +542,8 @@ void Calibration::save3DObjPose() {
 void Calibration::saveDetectedKeypoints() const {
   const std::filesystem::path save_keypoint_path =
       save_path_ / "detected_keypoints_data.yml";
-  cv::FileStorage fs(save_keypoint_path, cv::FileStorage::WRITE);
+  cv::FileStorage fs(save_keypoint_path,
+                     cv::FileStorage::WRITE | cv::FileStorage::MEMORY);
 
   fs << "nb_camera" << static_cast<int>(cams_.size());
   for (const auto &it_cam : cams_) {
@@ -571,7 +594,7 @@ void Calibration::saveDetectedKeypoints() const {
     fs << "}";
   }
 
-  fs.release();
+  writeResultFile(fs, save_keypoint_path);
 }
 
 /**
@@ -2023,7 +2046,11 @@ void Calibration::saveReprojectionImages(const int cam_id) {
       std::stringstream ss1;
       ss1 << std::setw(6) << std::setfill('0') << it_frame.second->frame_idx_;
       const std::string image_name = ss1.str() + ".jpg";
-      cv::imwrite(path_save / image_name, image);
+      if (!cv::imwrite(path_save / image_name, image)) {
+        throw std::runtime_error("Image '" +
+                                 (path_save / image_name).string() +
+                                 "' can't be written.");
+      }
     }
   }
 }
@@ -2102,7 +2129,11 @@ void Calibration::saveDetectionImages(const int cam_id) {
       std::stringstream ss1;
       ss1 << std::setw(6) << std::setfill('0') << it_frame.second->frame_idx_;
       std::string image_name = ss1.str() + ".jpg";
-      cv::imwrite(path_save / image_name, image);
+      if (!cv::imwrite(path_save / image_name, image)) {
+        throw std::runtime_error("Image '" +
+                                 (path_save / image_name).string() +
+                                 "' can't be written.");
+      }
     }
   }
 }
@@ -2290,7 +2321,8 @@ double Calibration::computeAvgReprojectionError() {
 void Calibration::saveReprojectionErrorToFile() {
   const std::filesystem::path save_reprojection_error =
       save_path_ / "reprojection_error_data.yml";
-  cv::FileStorage fs(save_reprojection_error, cv::FileStorage::WRITE);
+  cv::FileStorage fs(save_reprojection_error,
+                     cv::FileStorage::WRITE | cv::FileStorage::MEMORY);
   int nb_cam_group = cam_group_.size();
   fs << "nb_camera_group" << nb_cam_group;
 
@@ -2376,7 +2408,7 @@ void Calibration::saveReprojectionErrorToFile() {
     }
     fs << "frame_list" << frame_list << "}";
   }
-  fs.release();
+  writeResultFile(fs, save_reprojection_error);
 }
 
 /**
diff --git a/apps/calibrate/src/calibrate.cpp b/apps/calibrate/src/calibrate.cpp
index 3e0163f..6bd85fd 100644
--- a/apps/calibrate/src/calibrate.cpp
+++ b/apps/calibrate/src/calibrate.cpp
@@ -66,12 +66,6 @@ void runCalibrationWorkflow(const std::filesystem::path &config_path) {
   Calib.reproErrorAllCamGroup();
   LOG_INFO << "Final refinement done";
 
-  // Save images reprojection
-  if (Calib.save_detect_ == 1)
-    Calib.saveDetectionImagesAllCam();
-  if (Calib.save_repro_ == 1)
-    Calib.saveReprojectionImagesAllCam();
-
   // Save camera parameters
   LOG_INFO << "Save parameters";
   Calib.saveCamerasParams();
@@ -82,6 +76,12 @@ void runCalibrationWorkflow(const std::filesystem::path &config_path) {
            << Calib.computeAvgReprojectionError() << std::endl;
 
   Calib.saveDetectedKeypoints();
+
+  // Save images reprojection
+  if (Calib.save_detect_ == 1)
+    Calib.saveDetectionImagesAllCam();
+  if (Calib.save_repro_ == 1)
+    Calib.saveReprojectionImagesAllCam();
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From 3dc1dc4c1efbb3634a9e51a55f0c2720804037cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 14/37] fix: create the result directory also when its path
 ends with a slash

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 2ea4ac1..32679a8 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -116,7 +116,7 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
            << "   Distortion mode : " << distortion_model;
 
   // check if the save dir exist and create it if it does not
-  if (!std::filesystem::exists(save_path_) && save_path_.has_filename()) {
+  if (!save_path_.empty() && !std::filesystem::exists(save_path_)) {
     std::filesystem::create_directories(save_path_);
   }
 
-- 
2.43.0


From 4dcb9d66131e267bc370c4d69d7a54e54e5d83e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 15/37] fix: initialise the intrinsic parameters and image size
 of a camera

---
 McCalib/include/Camera.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/McCalib/include/Camera.hpp b/McCalib/include/Camera.hpp
index dba3284..b27454f 100644
--- a/McCalib/include/Camera.hpp
+++ b/McCalib/include/Camera.hpp
@@ -43,11 +43,11 @@ public:
   // intrinsics
   // fx,fy,u0,v0,r1,r2,t1,t2,r3 (perspective)
   // fx,fy,u0,v0,k1,k2,k3,k4 (Kannala)
-  std::array<double, 9> intrinsics_;
+  std::array<double, 9> intrinsics_ = {};
 
   int cam_idx_ = 0; // camera index
   int distortion_model_ = 0;
-  int im_cols_, im_rows_;
+  int im_cols_ = 0, im_rows_ = 0;
 
   // Functions
   Camera() = delete;
-- 
2.43.0


From ce9a65791737db462dbcea4603e944c0ab31420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 16/37] fix: a camera which saw no board does not stop the
 calibration of the others

---
 McCalib/src/Camera.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/McCalib/src/Camera.cpp b/McCalib/src/Camera.cpp
index 79305a4..0ea0287 100644
--- a/McCalib/src/Camera.cpp
+++ b/McCalib/src/Camera.cpp
@@ -164,6 +164,11 @@ void Camera::initializeCalibration() {
            << board_observations_.size();
   LOG_INFO << "NB of frames where this camera saw a board :: "
            << frames_.size();
+  if (board_observations_.empty()) {
+    LOG_WARNING << "Camera " << cam_idx_
+                << " saw no board and can't be calibrated";
+    return;
+  }
 
   // Subsample the total number of images (because the OpenCV function is
   // significantly too slow...)
-- 
2.43.0


From f2174ff98c84840dbeee1f1e0edaf295d8141eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 17/37] fix: no P3P with fewer than four points, no
 uninitialised pose without inliers

---
 McCalib/src/geometrytools.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 5135b3e..ce611d0 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -243,8 +243,14 @@ cv::Mat ransacP3P(const std::vector<cv::Point3f> &scenePoints,
   int countit = 0;
   int BestInNb = 0;
   double myepsilon = 0.00001; // small value for numerical problem
-  cv::Mat Rot(1, 3, CV_64F);
-  cv::Mat Trans(1, 3, CV_64F);
+  cv::Mat Rot = cv::Mat::zeros(1, 3, CV_64F);
+  cv::Mat Trans = cv::Mat::zeros(1, 3, CV_64F);
+  BestR = cv::Mat::zeros(1, 3, CV_64F);
+  BestT = cv::Mat::zeros(1, 3, CV_64F);
+
+  // P3P needs four points
+  if (imagePoints.size() < 4)
+    return InliersR;
 
   // Vector of index to shuffle
   std::srand(unsigned(std::time(0)));
-- 
2.43.0


From 63b1e900804c7b5fdae08e398979f0a1b88336db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 18/37] fix: do not use a board observation whose pose could
 not be estimated

---
 McCalib/src/BoardObs.cpp | 1 +
 McCalib/src/McCalib.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/BoardObs.cpp b/McCalib/src/BoardObs.cpp
index dd83468..b77362d 100644
--- a/McCalib/src/BoardObs.cpp
+++ b/McCalib/src/BoardObs.cpp
@@ -148,6 +148,7 @@ void BoardObs::estimatePose(const float ransac_thresh,
     std::shared_ptr<Board> board_3d_ptr = board_3d_.lock();
     if (board_3d_ptr && inliers.rows < 4) {
       valid_ = false;
+      inliers.release(); // too few to be relied on
     }
 
     // remove outliers
diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 32679a8..28f30fc 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -808,11 +808,11 @@ void Calibration::computeBoardsPairPose() {
     {
       for (const auto &it1 : current_board->board_observations_) {
         auto board1_obs_ptr = it1.second.lock();
-        if (board1_obs_ptr) {
+        if (board1_obs_ptr && board1_obs_ptr->valid_) {
           int boardid1 = board1_obs_ptr->board_id_;
           for (const auto &it2 : current_board->board_observations_) {
             auto board2_obs_ptr = it2.second.lock();
-            if (board2_obs_ptr) {
+            if (board2_obs_ptr && board2_obs_ptr->valid_) {
               int boardid2 = board2_obs_ptr->board_id_;
               cv::Mat proj_1 = board1_obs_ptr->getPoseMat();
               if (boardid1 != boardid2) // We do not care about the
-- 
2.43.0


From cbe1b352ccf72c50130793a8997ac3707bac74e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 19/37] fix: forget the inter-group poses once the camera
 groups are merged

---
 McCalib/src/McCalib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 28f30fc..3c42195 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1673,6 +1673,9 @@ void Calibration::mergeCameraGroup() {
   // Erase previous camera group and replace it with the merged one
   cam_group_.clear();
   cam_group_ = cam_group;
+  // The inter-group poses refer to the groups which have just been merged
+  no_overlap_camgroup_pair_pose_.clear();
+  no_overlap__camgroup_pair_common_cnt_.clear();
 }
 
 /**
-- 
2.43.0


From ff07c127910abdaad829db0a27a6bbe152d6398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 20/37] fix: no reprojection of a board observation without
 points

---
 McCalib/src/BoardObs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/BoardObs.cpp b/McCalib/src/BoardObs.cpp
index b77362d..879f834 100644
--- a/McCalib/src/BoardObs.cpp
+++ b/McCalib/src/BoardObs.cpp
@@ -176,7 +176,7 @@ float BoardObs::computeReprojectionError() {
   std::vector<cv::Point2f> repro_pts;
   std::vector<float> error_board_vec;
   std::shared_ptr<Camera> cam_ptr = cam_.lock();
-  if (cam_ptr) {
+  if (cam_ptr && !board_pts_temp.empty()) {
     projectPointsWithDistortion(board_pts_temp, getRotVec(), getTransVec(),
                                 cam_ptr->getCameraMat(),
                                 cam_ptr->getDistortionVectorVector(),
-- 
2.43.0


From fe8c0003726d948a4870a739f4cc40821f16c86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 21/37] fix: honour the number of squares and the square size
 per board independently

---
 McCalib/src/Board.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/McCalib/src/Board.cpp b/McCalib/src/Board.cpp
index ab8e854..faf5f35 100644
--- a/McCalib/src/Board.cpp
+++ b/McCalib/src/Board.cpp
@@ -45,17 +45,21 @@ Board::Board(const std::filesystem::path &config_path, const int board_idx,
     std::iota(boards_index.begin(), boards_index.end(), 0);
   }
 
-  if (square_size_per_board.size() == 0) {
+  fs["length_square"] >> length_square_;
+  fs["length_marker"] >> length_marker_;
+  fs["resolution_x"] >> res_x_;
+  fs["resolution_y"] >> res_y_;
+  // the number of squares and their size can be set per board independently
+  if (number_x_square_per_board.size() == 0) {
     fs["number_x_square"] >> nb_x_square_;
     fs["number_y_square"] >> nb_y_square_;
-    fs["length_square"] >> length_square_;
-    fs["length_marker"] >> length_marker_;
-    fs["resolution_x"] >> res_x_;
-    fs["resolution_y"] >> res_y_;
-    fs["square_size"] >> square_size_;
   } else {
     nb_x_square_ = number_x_square_per_board[boards_index[board_idx]];
     nb_y_square_ = number_y_square_per_board[boards_index[board_idx]];
+  }
+  if (square_size_per_board.size() == 0) {
+    fs["square_size"] >> square_size_;
+  } else {
     square_size_ = square_size_per_board[boards_index[board_idx]];
   }
 
-- 
2.43.0


From eff3cbe312522011d939871f4ef76de53f893c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 22/37] fix: export the object poses in the frame of the
 reference camera

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 3c42195..058161a 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -515,7 +515,7 @@ void Calibration::save3DObjPose() {
       std::shared_ptr<Object3DObs> cur_object_obs = it_obj_obs.second.lock();
       if (cur_object_obs) {
         cv::Mat rot, trans;
-        cur_object_obs->getPoseVec(rot, trans);
+        cur_object_obs->getPoseInGroupVec(rot, trans);
         pose_mat.at<double>(0, a) = rot.at<double>(0);
         pose_mat.at<double>(1, a) = rot.at<double>(1);
         pose_mat.at<double>(2, a) = rot.at<double>(2);
-- 
2.43.0


From 7bb1df2231c793233a3631394fa0e17079a8bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 23/37] fix: compose the camera pair poses of a path in the
 right order

camera_pose_pairs_[(c1,c2)] maps camera c1 to camera c2, so a path
ref -> c1 -> c2 must be composed as T(c1,c2) * T(ref,c1). The reversed
product is only right when all rotations of the path commute: groups in
which a camera is reached through another one were initialised wrongly and
the optimisation could end in a wrong minimum.
---
 McCalib/src/McCalib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 058161a..6cd37bb 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1195,8 +1195,8 @@ void Calibration::initCameraGroup() {
           std::pair<int, int> cam_pair_idx =
               std::make_pair(current_cam, next_cam);
           cv::Mat current_trans = inter_camera_transform_[cam_pair_idx];
-          // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          // the pair pose maps the current camera to the next one
+          transform = current_trans * transform;
         }
       }
       // Store the relative camera transformation in the object
-- 
2.43.0


From 1fbfffef49110aa903f2fc317fa4cff93b8238d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:33 +0000
Subject: [PATCH 24/37] fix: compose the camera group pair poses of a path in
 the right order

no_overlap_camgroup_pair_pose_[(g1,g2)] maps group g1 to group g2, so a path
ref -> g1 -> g2 must be composed as T(g1,g2) * T(ref,g1), as for the cameras
inside a group.
---
 McCalib/src/McCalib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 6cd37bb..9c30591 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1631,8 +1631,8 @@ void Calibration::mergeCameraGroup() {
               std::make_pair(current_group, next_group);
           cv::Mat current_trans =
               no_overlap_camgroup_pair_pose_[group_pair_idx];
-          // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          // the pair pose maps the current group to the next one
+          transform = current_trans * transform;
         }
       }
       // Store the poses
-- 
2.43.0


From 9c740aaf08af793a1d2814cfbc1b2efea14be2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 25/37] fix: average rotation vectors on one side of the 180
 degree cut

Without quaternion averaging, the rotation vectors are combined by the median
of each component. Rotations by about 180 degrees have vectors close to
+pi*axis as well as -pi*axis, and the median of the mixture is far away from
all of them (cameras mounted upside down were initialised wrongly).
---
 McCalib/src/geometrytools.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index ce611d0..d872d33 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -891,6 +891,20 @@ cv::Mat getAverageRotation(std::vector<double> &r1, std::vector<double> &r2,
     cv::Mat rot_matrix = convertQuaternionToRotationMatrix(average_quaternion);
     cv::Rodrigues(rot_matrix, average_rotation);
   } else {
+    // the rotation vectors r and (|r| - 2 pi) r / |r| are the same rotation:
+    // use the one closest to the first vector, else rotations by about 180
+    // degrees scatter over two opposite clusters
+    for (std::size_t i = 1u; i < r1.size(); ++i) {
+      const double norm =
+          std::sqrt(r1[i] * r1[i] + r2[i] * r2[i] + r3[i] * r3[i]);
+      const double dot = r1[0] * r1[i] + r2[0] * r2[i] + r3[0] * r3[i];
+      if (norm > 0 && dot < norm * (norm - M_PI)) {
+        const double scale = (norm - 2 * M_PI) / norm;
+        r1[i] *= scale;
+        r2[i] *= scale;
+        r3[i] *= scale;
+      }
+    }
     average_rotation.at<double>(0) = median(r1);
     average_rotation.at<double>(1) = median(r2);
     average_rotation.at<double>(2) = median(r3);
-- 
2.43.0


From 5957751acd16bb11b20ac69b3954c5f847aa3e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 26/37] fix: generate each board with its own number of squares
 and resolution

The lists with the number of squares and with the resolution of every board
were only used when the square sizes were listed, too, and were required then.
A list that is given applies now on its own, as in the calibration.
---
 .../src/create_charuco_boards.cpp               | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/apps/create_charuco_boards/src/create_charuco_boards.cpp b/apps/create_charuco_boards/src/create_charuco_boards.cpp
index b0fabec..760bd86 100644
--- a/apps/create_charuco_boards/src/create_charuco_boards.cpp
+++ b/apps/create_charuco_boards/src/create_charuco_boards.cpp
@@ -70,14 +70,15 @@ int main(int argc, char *argv[]) {
 
   fs.release(); // close the input file
 
-  // Check if multi-size boards are used or not
-  if (square_size_per_board.size() == 0) {
-    for (std::size_t i = 0; i < num_board; i++) {
-      number_x_square_per_board.push_back(num_x_square);
-      number_y_square_per_board.push_back(num_y_square);
-      resolution_x_per_board.push_back(res_x);
-      resolution_y_per_board.push_back(res_y);
-    }
+  // Check if multi-size boards are used or not, the number of squares and the
+  // resolution can be set per board independently
+  if (number_x_square_per_board.size() == 0) {
+    number_x_square_per_board.assign(num_board, num_x_square);
+    number_y_square_per_board.assign(num_board, num_y_square);
+  }
+  if (resolution_x_per_board.size() == 0) {
+    resolution_x_per_board.assign(num_board, res_x);
+    resolution_y_per_board.assign(num_board, res_y);
   }
 
   const std::vector<cv::Mat> charuco_boards_images =
-- 
2.43.0


From 49a61e940f9f89d895523ec8d30df6f2c78e9760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 27/37] fix: fail when a board image can't be written

The generator ended with success on a full disk, and left an incomplete image.
---
 .../src/create_charuco_boards.cpp              | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/apps/create_charuco_boards/src/create_charuco_boards.cpp b/apps/create_charuco_boards/src/create_charuco_boards.cpp
index 760bd86..76d9eaf 100644
--- a/apps/create_charuco_boards/src/create_charuco_boards.cpp
+++ b/apps/create_charuco_boards/src/create_charuco_boards.cpp
@@ -1,4 +1,5 @@
 #include <filesystem>
+#include <fstream>
 #include <iomanip>
 #include <stdio.h>
 
@@ -7,7 +8,7 @@
 #include "McCalib.hpp"
 #include "utilities.hpp"
 
-void saveBoards(const std::vector<cv::Mat> boards) {
+bool saveBoards(const std::vector<cv::Mat> boards) {
   std::filesystem::path charuco_boards_path = "charuco_boards";
   std::string char_name = "charuco_board_";
   std::string ext_name = ".bmp";
@@ -22,8 +23,17 @@ void saveBoards(const std::vector<cv::Mat> boards) {
     std::string save_name = char_name + s1 + ext_name;
     std::filesystem::path save_path = charuco_boards_path / save_name;
     std::cout << "save_name: " << save_path << std::endl;
-    cv::imwrite(save_path, boards[board_idx]);
+    std::vector<uchar> buffer;
+    cv::imencode(ext_name, boards[board_idx], buffer);
+    std::ofstream file(save_path, std::ios::binary);
+    file.write(reinterpret_cast<const char *>(buffer.data()), buffer.size());
+    file.close();
+    if (!file) {
+      std::cout << "Board " << save_path << " can't be written." << std::endl;
+      return false;
+    }
   }
+  return true;
 }
 
 int main(int argc, char *argv[]) {
@@ -86,7 +96,9 @@ int main(int argc, char *argv[]) {
           num_board, number_x_square_per_board, number_y_square_per_board,
           length_square, length_marker, resolution_x_per_board,
           resolution_y_per_board);
-  saveBoards(charuco_boards_images);
+  if (!saveBoards(charuco_boards_images)) {
+    return -1;
+  }
 
   return 0;
 }
-- 
2.43.0


From 9fc59899ab58f972dd815bfa2278905f38d87ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 28/37] fix: detect boards also when the number of processors
 is unknown

hardware_concurrency() may return 0. No image was processed then.
---
 McCalib/src/McCalib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 9c30591..173e618 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -279,7 +279,8 @@ void Calibration::boardExtraction() {
  */
 void Calibration::detectBoardsWithCamera(const std::vector<cv::String> &fn,
                                          const int cam_idx) {
-  const unsigned int num_threads = std::thread::hardware_concurrency();
+  const unsigned int num_threads =
+      std::max(1u, std::thread::hardware_concurrency());
   boost::asio::thread_pool pool(num_threads);
   LOG_INFO << "Number of threads for board detection :: " << num_threads;
 
-- 
2.43.0


From f977bbc1511e62756f2a709a9ae07725c9ff8356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:00 +0000
Subject: [PATCH 29/37] fix: go on with fewer workers when a detection thread
 can't be started

The constructor of the thread pool never returned when the system refused one
of its threads, and an exception in a worker aborted the program.
---
 McCalib/src/McCalib.cpp | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 173e618..41710fc 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1,5 +1,7 @@
 #include "opencv2/core/core.hpp"
+#include <atomic>
 #include <fstream>
+#include <future>
 #include <iostream>
 #include <opencv2/aruco/charuco.hpp>
 #include <opencv2/opencv.hpp>
@@ -11,8 +13,6 @@
 #include "point_refinement.h"
 #include "utilities.hpp"
 
-#include <boost/asio/post.hpp>
-#include <boost/asio/thread_pool.hpp>
 #include <thread>
 
 namespace McCalib {
@@ -281,9 +281,6 @@ void Calibration::detectBoardsWithCamera(const std::vector<cv::String> &fn,
                                          const int cam_idx) {
   const unsigned int num_threads =
       std::max(1u, std::thread::hardware_concurrency());
-  boost::asio::thread_pool pool(num_threads);
-  LOG_INFO << "Number of threads for board detection :: " << num_threads;
-
   std::size_t num_frames = fn.size();
   // take the image size from the first image which can be read
   for (const cv::String &image_path : fn) {
@@ -295,17 +292,31 @@ void Calibration::detectBoardsWithCamera(const std::vector<cv::String> &fn,
     }
     LOG_ERROR << "Could not read the image :: " << image_path;
   }
-  for (std::size_t frame_idx = 0u; frame_idx < num_frames; ++frame_idx) {
-    LOG_DEBUG << "Frame index :: " << frame_idx;
+  // detect the checkerboard on one image after the other
+  std::atomic<std::size_t> next_frame_idx{0u};
+  const auto detect_boards = [&]() {
+    for (std::size_t frame_idx = next_frame_idx++; frame_idx < num_frames;
+         frame_idx = next_frame_idx++) {
+      LOG_DEBUG << "Frame index :: " << frame_idx;
+      detectBoardsInImageWithCamera(fn[frame_idx], cam_idx, frame_idx);
+    }
+  };
 
-    // detect the checkerboard on this image
-    const std::string frame_path = fn[frame_idx];
-    boost::asio::post(pool,
-                      std::bind(&Calibration::detectBoardsInImageWithCamera,
-                                this, frame_path, cam_idx, frame_idx));
-    // displayBoards(currentIm, cam, frameind); // Display frame
+  // this thread works, too, next to as many others as can be started
+  std::vector<std::future<void>> workers;
+  try {
+    while (workers.size() + 1u < num_threads) {
+      workers.push_back(std::async(std::launch::async, detect_boards));
+    }
+  } catch (const std::system_error &e) {
+    LOG_WARNING << "A detection thread could not be started: " << e.what();
+  }
+  LOG_INFO << "Number of threads for board detection :: "
+           << workers.size() + 1u;
+  detect_boards();
+  for (std::future<void> &worker : workers) {
+    worker.get();
   }
-  pool.join();
 }
 
 /**
-- 
2.43.0


From a3fd4999e5b19159cf98ab083c4d5f7d41d264be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:00 +0000
Subject: [PATCH 30/37] fix: refuse an unreadable, incomplete or contradictory
 configuration

Missing settings were replaced by zeros or memory contents, and short lists
were read out of range, which led to a crash or to wrong results.
---
 McCalib/src/Board.cpp   | 10 ++++++++++
 McCalib/src/McCalib.cpp | 44 ++++++++++++++++++++++++++++++++++++++---
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/Board.cpp b/McCalib/src/Board.cpp
index faf5f35..ee6e416 100644
--- a/McCalib/src/Board.cpp
+++ b/McCalib/src/Board.cpp
@@ -34,6 +34,10 @@ Board::Board(const std::filesystem::path &config_path, const int board_idx,
     return;
   }
   fs.open(config_path, cv::FileStorage::READ);
+  if (!fs.isOpened()) {
+    throw std::runtime_error("Config file '" + config_path.string() +
+                             "' can't be read.");
+  }
   fs["number_board"] >> nb_board;
   fs["number_x_square_per_board"] >> number_x_square_per_board;
   fs["number_y_square_per_board"] >> number_y_square_per_board;
@@ -65,6 +69,12 @@ Board::Board(const std::filesystem::path &config_path, const int board_idx,
 
   fs.release(); // close the input file
 
+  if (!(square_size_ > 0)) {
+    throw std::runtime_error("The square size of board " +
+                             std::to_string(board_idx) +
+                             " has to be positive.");
+  }
+
   nb_pts_ = (nb_x_square_ - 1) * (nb_y_square_ - 1);
 
   // Prepare the 3D pts of the boards
diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 41710fc..cc1dd2d 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -35,6 +35,18 @@ static void writeResultFile(cv::FileStorage &fs,
   }
 }
 
+/**
+ * @brief Refuse a configuration which does not meet a requirement
+ *
+ * @param is_met whether the requirement is met
+ * @param requirement description of the requirement
+ */
+static void requireConfig(const bool is_met, const std::string &requirement) {
+  if (!is_met) {
+    throw std::runtime_error("Invalid configuration: " + requirement + ".");
+  }
+}
+
 /**
  * @brief Initialize the number of cameras and the 3D Boards
  *
@@ -56,15 +68,20 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
     return;
   }
   fs.open(config_path, cv::FileStorage::READ);
+  requireConfig(fs.isOpened(), "the file can't be read");
+  for (const char *setting :
+       {"number_camera", "min_perc_pts", "length_square", "length_marker",
+        "ransac_threshold", "number_iterations"}) {
+    requireConfig(!fs[setting].empty(), std::string(setting) + " is missing");
+  }
 
   int nb_camera;
   fs["number_camera"] >> nb_camera;
-  assert(nb_camera > 0);
+  requireConfig(nb_camera > 0, "number_camera has to be positive");
   nb_camera_ = static_cast<unsigned int>(nb_camera);
 
   int nb_board;
   fs["number_board"] >> nb_board;
-  assert(nb_board > 0);
   nb_board_ = static_cast<unsigned int>(nb_board);
 
   fs["refine_corner"] >> refine_corner_;
@@ -77,6 +94,7 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   fs["ransac_threshold"] >> ransac_thresh_;
   fs["number_iterations"] >> nb_iterations_;
   fs["distortion_model"] >> distortion_model;
+  const bool has_distortion_model = !fs["distortion_model"].empty();
   fs["distortion_per_camera"] >> distortion_per_camera;
   fs["boards_index"] >> boards_index;
   fs["length_square"] >> length_square;
@@ -100,11 +118,23 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   // Check if multi-size boards are used or not
   if (boards_index.size() != 0) {
     nb_board_ = boards_index.size();
+    requireConfig(*min_element(boards_index.begin(), boards_index.end()) >= 0,
+                  "boards_index can't be negative");
+  } else {
+    requireConfig(nb_board > 0, "number_board has to be positive");
   }
   int max_board_idx = nb_board_ - 1;
   if (boards_index.size() != 0) {
     max_board_idx = *max_element(boards_index.begin(), boards_index.end());
   }
+  const std::size_t nb_board_settings = max_board_idx + 1;
+  requireConfig(number_x_square_per_board_.empty() ||
+                    (number_x_square_per_board_.size() >= nb_board_settings &&
+                     number_y_square_per_board_.size() >= nb_board_settings),
+                "the number of squares is not given for every board");
+  requireConfig(square_size_per_board_.empty() ||
+                    square_size_per_board_.size() >= nb_board_settings,
+                "the square size is not given for every board");
   if (number_x_square_per_board_.size() == 0) {
     number_x_square_per_board_.assign(max_board_idx + 1, nb_x_square);
     number_y_square_per_board_.assign(max_board_idx + 1, nb_y_square);
@@ -121,8 +151,16 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   }
 
   // prepare the distortion type per camera
-  if (distortion_per_camera.size() == 0)
+  if (distortion_per_camera.size() == 0) {
+    requireConfig(has_distortion_model, "distortion_model is missing");
     distortion_per_camera.assign(nb_camera_, distortion_model);
+  }
+  requireConfig(distortion_per_camera.size() >= nb_camera_,
+                "the distortion model is not given for every camera");
+  for (const int cam_distortion_model : distortion_per_camera) {
+    requireConfig(cam_distortion_model == 0 || cam_distortion_model == 1,
+                  "the distortion model has to be 0 or 1");
+  }
 
   // Initialize Cameras
   for (std::size_t i = 0; i < nb_camera_; i++) {
-- 
2.43.0


From 07ff4d5529782a9d6e39c1f47394976512d6797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:19 +0000
Subject: [PATCH 31/37] fix: skip an image with a damaged header

Reading it throws, which ended the whole calibration.
---
 McCalib/src/McCalib.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index cc1dd2d..b78c0cd 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -35,6 +35,21 @@ static void writeResultFile(cv::FileStorage &fs,
   }
 }
 
+/**
+ * @brief Read an image, which is empty if that is not possible
+ *
+ * @param path path of the image
+ */
+static cv::Mat readImage(const std::string &path) {
+  try {
+    return cv::imread(path);
+  } catch (const cv::Exception &e) {
+    // e.g. a damaged header
+    LOG_ERROR << "Damaged image :: " << path << ": " << e.what();
+    return cv::Mat();
+  }
+}
+
 /**
  * @brief Refuse a configuration which does not meet a requirement
  *
@@ -322,7 +337,7 @@ void Calibration::detectBoardsWithCamera(const std::vector<cv::String> &fn,
   std::size_t num_frames = fn.size();
   // take the image size from the first image which can be read
   for (const cv::String &image_path : fn) {
-    cv::Mat image = cv::imread(image_path);
+    cv::Mat image = readImage(image_path);
     if (!image.empty()) {
       cams_[cam_idx]->im_cols_ = image.cols;
       cams_[cam_idx]->im_rows_ = image.rows;
@@ -367,7 +382,7 @@ void Calibration::detectBoardsWithCamera(const std::vector<cv::String> &fn,
 void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
                                                 const int cam_idx,
                                                 const int frame_idx) {
-  cv::Mat image = cv::imread(frame_path);
+  cv::Mat image = readImage(frame_path);
   if (image.empty()) {
     LOG_ERROR << "Could not read the image :: " << frame_path;
     return;
@@ -2027,7 +2042,7 @@ void Calibration::saveReprojectionImages(const int cam_id) {
   for (const auto &it_frame : frames_) {
     // Open the image
     const std::filesystem::path im_path = it_frame.second->frame_path_[cam_id];
-    cv::Mat image = cv::imread(im_path);
+    cv::Mat image = readImage(im_path);
 
     // Iterate through the camera group observations
     std::map<int, std::weak_ptr<CameraGroupObs>> cam_group_obs =
@@ -2143,7 +2158,7 @@ void Calibration::saveDetectionImages(const int cam_id) {
   for (const auto &it_frame : frames_) {
     // Open the image
     const std::filesystem::path im_path = it_frame.second->frame_path_[cam_id];
-    cv::Mat image = cv::imread(im_path);
+    cv::Mat image = readImage(im_path);
 
     // Iterate through the camera group observations
     std::map<int, std::weak_ptr<CameraGroupObs>> cam_group_obs =
-- 
2.43.0


From 141df5ebfa50326b05d7eb253257c63e65c4316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 32/37] fix: don't crash when groups of cameras have no pair of
 objects in common

Looking up the objects of a pair that doesn't exist created an empty entry in
the list of objects when the first board was never observed.
---
 McCalib/src/McCalib.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index b78c0cd..1d9de07 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1481,10 +1481,6 @@ void Calibration::initNonOverlapPair(const int cam_group_id1,
   int object_cam_1 = object_pair.first;
   int object_cam_2 = object_pair.second;
 
-  // Prepare the 3D objects
-  std::shared_ptr<Object3D> object_3D_1 = object_3d_[object_cam_1];
-  std::shared_ptr<Object3D> object_3D_2 = object_3d_[object_cam_2];
-
   // std::vector to store data for non-overlapping calibration
   std::vector<cv::Mat> pose_abs_1,
       pose_abs_2; // absolute pose stored to compute relative displacements
-- 
2.43.0


From 983844337856bf130561116da18ca3baa0e4d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 33/37] fix: keep the pose of the RANSAC when its refinement
 diverges

For degenerate configurations of points solvePnP can return poses which are not
a number. They spread to the whole rig and were exported as a success.
---
 McCalib/src/geometrytools.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index d872d33..70bf9ec 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -325,8 +325,15 @@ cv::Mat ransacP3P(const std::vector<cv::Point3f> &scenePoints,
       imagePointsInliers[j] = imagePoints[InliersR.at<int>(j)];
       scenePointsInliers[j] = scenePoints[InliersR.at<int>(j)];
     }
+    cv::Mat refinedR = BestR.clone();
+    cv::Mat refinedT = BestT.clone();
     cv::solvePnP(scenePointsInliers, imagePointsInliers, Intrinsic, Disto,
-                 BestR, BestT, true, 0); // CV_ITERATIVE = 0 non linear
+                 refinedR, refinedT, true, 0); // CV_ITERATIVE = 0 non linear
+    // the refinement can diverge for degenerate configurations of points
+    if (cv::checkRange(refinedR) && cv::checkRange(refinedT)) {
+      BestR = refinedR;
+      BestT = refinedT;
+    }
   }
   return InliersR;
 }
-- 
2.43.0


From f4638f16ad780c5f6a76c32e812bdfd1f58de0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:01 +0000
Subject: [PATCH 34/37] fix: don't crash when no configuration file is named

---
 apps/calibrate/src/calibrate.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/calibrate/src/calibrate.cpp b/apps/calibrate/src/calibrate.cpp
index 6bd85fd..b015f7c 100644
--- a/apps/calibrate/src/calibrate.cpp
+++ b/apps/calibrate/src/calibrate.cpp
@@ -85,7 +85,11 @@ void runCalibrationWorkflow(const std::filesystem::path &config_path) {
 }
 
 int main(int argc, char *argv[]) {
-  (void)argc; // casting to fix -Werror=unused-parameter
+  if (argc < 2) {
+    LOG_FATAL << "Usage: calibrate path_to_config_file.yml";
+    return -1;
+  }
+
   const std::filesystem::path config_path = argv[1];
   const bool is_file_available = std::filesystem::exists(config_path) &&
                                  config_path.has_filename() &&
-- 
2.43.0


From de013ada61307d64deb59172b9d0b8bb37f31de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:40 +0000
Subject: [PATCH 35/37] fix: refuse initial intrinsics without a positive focal
 length

---
 McCalib/src/McCalib.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 1d9de07..da0c08f 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -807,7 +807,9 @@ void Calibration::initializeCalibrationAllCam() {
           camera_matrix.type() != CV_64F ||
           distortion_coeffs.total() != nb_coeffs ||
           distortion_coeffs.type() != CV_64F ||
-          !cv::checkRange(camera_matrix) || !cv::checkRange(distortion_coeffs)) {
+          !cv::checkRange(camera_matrix) || !cv::checkRange(distortion_coeffs) ||
+          camera_matrix.at<double>(0, 0) <= 0 ||
+          camera_matrix.at<double>(1, 1) <= 0) {
         throw std::runtime_error("Parameters of camera " +
                                  std::to_string(it.first) +
                                  " are missing or invalid in '" +
-- 
2.43.0


From 8ac16e11ed72d66dff470d3063d867949b46bc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:55 +0000
Subject: [PATCH 36/37] fix: report a diverged calibration as a failure

The parameters of a diverged calibration overflow. They were saved as
infinite or not-a-number and the calibration ended with success.
---
 McCalib/src/McCalib.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index da0c08f..77c5379 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -35,6 +35,19 @@ static void writeResultFile(cv::FileStorage &fs,
   }
 }
 
+/**
+ * @brief Refuse results of a calibration which diverged
+ *
+ * @param values values to be saved
+ * @param name name of these values
+ */
+static void requireFinite(const cv::Mat &values, const std::string &name) {
+  if (!cv::checkRange(values)) {
+    throw std::runtime_error("The calibration diverged: the " + name +
+                             " can't be determined.");
+  }
+}
+
 /**
  * @brief Read an image, which is empty if that is not possible
  *
@@ -501,6 +514,13 @@ void Calibration::saveCamerasParams() {
         cv::Mat cam_matrix;
         cv::Mat distortion_vector;
         cur_cam->getIntrinsics(cam_matrix, distortion_vector);
+        const cv::Mat cam_pose =
+            cur_cam_group->getCameraPoseMat(cur_cam->cam_idx_).inv();
+        const std::string cam_name =
+            " of camera " + std::to_string(cur_cam->cam_idx_);
+        requireFinite(cam_matrix, "camera matrix" + cam_name);
+        requireFinite(distortion_vector, "distortion" + cam_name);
+        requireFinite(cam_pose, "pose" + cam_name);
         fs << "{"
            << "camera_matrix" << cam_matrix;
         fs << "distortion_vector" << distortion_vector;
@@ -508,8 +528,7 @@ void Calibration::saveCamerasParams() {
         fs << "camera_group" << it_cam_group.first;
         fs << "img_width" << cur_cam->im_cols_;
         fs << "img_height" << cur_cam->im_rows_;
-        fs << "camera_pose_matrix"
-           << cur_cam_group->getCameraPoseMat(cur_cam->cam_idx_).inv() << "}";
+        fs << "camera_pose_matrix" << cam_pose << "}";
       }
     }
   }
@@ -554,6 +573,8 @@ void Calibration::save3DObj() {
         }
       }
     }
+    requireFinite(pts_mat,
+                  "points of object " + std::to_string(cur_object->obj_id_));
     fs << "{"
        << "points" << pts_mat;
     fs << "}";
@@ -590,6 +611,8 @@ void Calibration::save3DObjPose() {
         a = a + 1;
       }
     }
+    requireFinite(pose_mat,
+                  "poses of object " + std::to_string(cur_object->obj_id_));
     fs << "poses" << pose_mat;
     fs << "}";
   }
-- 
2.43.0


From 6f44427dc79695d551164c4e0bc354155143d577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:40 +0000
Subject: [PATCH 37/37] fix: replace a result file as a whole or not at all

A run that was resumed from the keypoints in its own save directory and was
killed while saving (or found the disk full) destroyed the keypoints.
---
 McCalib/src/McCalib.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 77c5379..b963e83 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -26,10 +26,17 @@ namespace McCalib {
 static void writeResultFile(cv::FileStorage &fs,
                             const std::filesystem::path &path) {
   const std::string content = fs.releaseAndGetString();
-  std::ofstream file(path, std::ios::binary);
+  // the file may be an input as well: it is replaced as a whole or not at all
+  const std::filesystem::path path_temp = path.string() + ".tmp";
+  std::ofstream file(path_temp, std::ios::binary);
   file << content;
   file.close();
-  if (!file) {
+  std::error_code error;
+  if (file) {
+    std::filesystem::rename(path_temp, path, error);
+  }
+  if (!file || error) {
+    std::filesystem::remove(path_temp, error);
     throw std::runtime_error("Results can't be written to '" + path.string() +
                              "'.");
   }
-- 
2.43.0

