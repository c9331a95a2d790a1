From e05e8d26df34628fbffdcde461174434d7b0a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 01/19] fix: create each object observation once when objects
 are merged

---
 McCalib/src/McCalib.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index c2eda02..a2d9aa8 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1850,13 +1850,9 @@ void Calibration::mergeAllObjectObs() {
 
   object_observations_.clear();
 
-  // Reinitialize all the 3D object
-  for (const auto &it_object : object_3d_) {
-    (void)it_object;
-    // Reinitialize all object obserations
-    for (const auto &it : object_3d_)
-      this->init3DObjectObs(it.first);
-  }
+  // Reinitialize all object observations
+  for (const auto &it : object_3d_)
+    this->init3DObjectObs(it.first);
 }
 
 /**
-- 
2.43.0


From 270d12410436364738878ffa6d3f56aa1d83bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 02/19] fix: empty path instead of an endless loop when the end
 is unreachable

---
 McCalib/src/Graph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index a985791..f889f19 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -143,6 +143,10 @@ std::vector<int> Graph::getPath(const std::vector<Vertex> &p_map,
   std::vector<int> path;
   Vertex current = destination;
   while (current != source) {
+    if (p_map[current] == current) { // the destination is not reachable
+      path.clear();
+      return path;
+    }
     path.push_back(std::stoi(boost::get(boost::vertex_name, graph_, current)));
     current = p_map[current];
   }
-- 
2.43.0


From 8e33676220aa1c80e830f43b6dea1fbc26e8d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 03/19] fix: accumulate path lengths as real numbers, edge
 weights are fractional

---
 McCalib/src/Graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index f889f19..4507693 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -115,7 +115,7 @@ std::vector<int> Graph::shortestPathBetween(const int v1, const int v2) {
   std::vector<int> d(boost::num_vertices(graph_));
 
   const int num_vertices = boost::num_vertices(graph_);
-  std::vector<int> distances(num_vertices);
+  std::vector<double> distances(num_vertices);
   std::vector<Vertex> p_map(num_vertices);
 
   auto distance_map =
-- 
2.43.0


From 4e6f898772c5dae2c113d3947f23e97e13da5063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 04/19] fix: an edge from a new vertex to itself creates the
 vertex once

---
 McCalib/src/Graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index 4507693..e397473 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -19,10 +19,10 @@ void Graph::addEdge(const int v1, const int v2, const double weight) {
   Vertex vertex1 = (idx_to_vertex_.find(v1) != idx_to_vertex_.end())
                        ? idx_to_vertex_[v1]
                        : boost::add_vertex(std::to_string(v1), graph_);
+  idx_to_vertex_[v1] = vertex1;
   Vertex vertex2 = (idx_to_vertex_.find(v2) != idx_to_vertex_.end())
                        ? idx_to_vertex_[v2]
                        : boost::add_vertex(std::to_string(v2), graph_);
-  idx_to_vertex_[v1] = vertex1;
   idx_to_vertex_[v2] = vertex2;
 
   boost::add_edge(vertex1, vertex2, EdgeWeightProperty(weight), graph_);
-- 
2.43.0


From 24f1dc977159b92c09e19f2b816a8957b547dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 05/19] fix: chain camera poses along the path in composition
 order

inter_camera_transform_[(a, b)] maps coordinates of camera a to camera b, and
the pose of a camera in its group maps the reference camera to it. For a path
ref, a, b the pose of b is T(a, b) * T(ref, a); the product was formed in the
reverse order, so the initial pose of every camera more than one step away
from the reference was wrong.
---
 McCalib/src/McCalib.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index a2d9aa8..92acad7 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1129,8 +1129,7 @@ void Calibration::initCameraGroup() {
           std::pair<int, int> cam_pair_idx =
               std::make_pair(current_cam, next_cam);
           cv::Mat current_trans = inter_camera_transform_[cam_pair_idx];
-          // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          transform = current_trans * transform;
         }
       }
       // Store the relative camera transformation in the object
-- 
2.43.0


From b32b7a61ad11557eb2c60c29deda22de0701c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 06/19] fix: chain camera group poses along the path in
 composition order

Same as for cameras in a group: no_overlap_camgroup_pair_pose_[(a, b)] maps
coordinates of group a to group b, so along a path of several groups each new
relative pose is multiplied from the left.
---
 McCalib/src/McCalib.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 92acad7..97b4c55 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1564,8 +1564,7 @@ void Calibration::mergeCameraGroup() {
               std::make_pair(current_group, next_group);
           cv::Mat current_trans =
               no_overlap_camgroup_pair_pose_[group_pair_idx];
-          // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          transform = current_trans * transform;
         }
       }
       // Store the poses
-- 
2.43.0


From 2ab60c80056de84befd2fe8f9b46e6cf80080d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 07/19] fix: do not sample four correspondences in ransacP3P
 when fewer are given

---
 McCalib/src/geometrytools.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index a4af8b6..30a34bf 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -246,6 +246,10 @@ cv::Mat ransacP3P(const std::vector<cv::Point3f> &scenePoints,
   cv::Mat Rot(1, 3, CV_64F);
   cv::Mat Trans(1, 3, CV_64F);
 
+  // P3P requires four correspondences
+  if (scenePoints.size() < 4)
+    return InliersR;
+
   // Vector of index to shuffle
   std::srand(unsigned(std::time(0)));
   std::vector<int> myvector(imagePoints.size());
-- 
2.43.0


From bc8163a6778829daa1ba0291096fd69232c5c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 08/19] fix: sample only the two existing observations in
 ransacTriangulation

---
 McCalib/src/geometrytools.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 30a34bf..eb2caca 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -163,6 +163,10 @@ void ransacTriangulation(const std::vector<cv::Point2f> &point2d,
   unsigned int BestInNb = 0;
   double myepsilon = 0.00001; // small value for numerical problem
 
+  // Triangulation requires two observations
+  if (point2d.size() < 2)
+    return;
+
   // Vector of index to shuffle
   std::srand(unsigned(std::time(0)));
   std::vector<int> myvector(point2d.size());
@@ -174,8 +178,7 @@ void ransacTriangulation(const std::vector<cv::Point2f> &point2d,
     std::random_device rd;
     std::mt19937 g(rd());
     std::shuffle(myvector.begin(), myvector.end(), g);
-    std::array<int, 4> idx = {myvector[0], myvector[1], myvector[2],
-                              myvector[3]};
+    std::array<int, 2> idx = {myvector[0], myvector[1]};
 
     // Select the corresponding sample of 2D pts and corresponding rot and trans
     std::vector<cv::Point2f> image2Pts = {point2d[idx[0]], point2d[idx[1]]};
-- 
2.43.0


From c3a366e695a796f05cdec179bb62681061d2883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 09/19] fix: read quaternion_averaging under its documented key

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 97b4c55..b4efee1 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -54,7 +54,7 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   fs["number_y_square"] >> nb_y_square;
   root_path_ = convertStrToPath(fs["root_path"]);
   fs["cam_prefix"] >> cam_prefix_;
-  fs["quaternion_averaging:"] >> quaternion_averaging_;
+  fs["quaternion_averaging"] >> quaternion_averaging_;
   fs["ransac_threshold"] >> ransac_thresh_;
   fs["number_iterations"] >> nb_iterations_;
   fs["distortion_model"] >> distortion_model;
-- 
2.43.0


From 07506daa04d3b7911b58f6ac6a65fa6641d52d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 10/19] fix: per-board square counts and square sizes apply
 independently of each other

---
 McCalib/src/Board.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/McCalib/src/Board.cpp b/McCalib/src/Board.cpp
index ab8e854..bce36f7 100644
--- a/McCalib/src/Board.cpp
+++ b/McCalib/src/Board.cpp
@@ -45,17 +45,21 @@ Board::Board(const std::filesystem::path &config_path, const int board_idx,
     std::iota(boards_index.begin(), boards_index.end(), 0);
   }
 
-  if (square_size_per_board.size() == 0) {
-    fs["number_x_square"] >> nb_x_square_;
-    fs["number_y_square"] >> nb_y_square_;
-    fs["length_square"] >> length_square_;
-    fs["length_marker"] >> length_marker_;
-    fs["resolution_x"] >> res_x_;
-    fs["resolution_y"] >> res_y_;
-    fs["square_size"] >> square_size_;
-  } else {
+  // values common to all boards
+  fs["number_x_square"] >> nb_x_square_;
+  fs["number_y_square"] >> nb_y_square_;
+  fs["length_square"] >> length_square_;
+  fs["length_marker"] >> length_marker_;
+  fs["resolution_x"] >> res_x_;
+  fs["resolution_y"] >> res_y_;
+  fs["square_size"] >> square_size_;
+
+  // values given per board take precedence, each on its own
+  if (number_x_square_per_board.size() != 0) {
     nb_x_square_ = number_x_square_per_board[boards_index[board_idx]];
     nb_y_square_ = number_y_square_per_board[boards_index[board_idx]];
+  }
+  if (square_size_per_board.size() != 0) {
     square_size_ = square_size_per_board[boards_index[board_idx]];
   }
 
-- 
2.43.0


From 52368123d58d92ab2294f1994e4e2e528e809b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 11/19] fix: generate boards with common values for every
 per-board list that is empty

---
 .../src/create_charuco_boards.cpp                  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/apps/create_charuco_boards/src/create_charuco_boards.cpp b/apps/create_charuco_boards/src/create_charuco_boards.cpp
index b0fabec..da1469f 100644
--- a/apps/create_charuco_boards/src/create_charuco_boards.cpp
+++ b/apps/create_charuco_boards/src/create_charuco_boards.cpp
@@ -71,13 +71,13 @@ int main(int argc, char *argv[]) {
   fs.release(); // close the input file
 
   // Check if multi-size boards are used or not
-  if (square_size_per_board.size() == 0) {
-    for (std::size_t i = 0; i < num_board; i++) {
-      number_x_square_per_board.push_back(num_x_square);
-      number_y_square_per_board.push_back(num_y_square);
-      resolution_x_per_board.push_back(res_x);
-      resolution_y_per_board.push_back(res_y);
-    }
+  if (number_x_square_per_board.size() == 0) {
+    number_x_square_per_board.assign(num_board, num_x_square);
+    number_y_square_per_board.assign(num_board, num_y_square);
+  }
+  if (resolution_x_per_board.size() == 0) {
+    resolution_x_per_board.assign(num_board, res_x);
+    resolution_y_per_board.assign(num_board, res_y);
   }
 
   const std::vector<cv::Mat> charuco_boards_images =
-- 
2.43.0


From a9538709957ff07c21b1dca10256dd8b3642f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:50 +0000
Subject: [PATCH 12/19] fix: save the cameras of every camera group, not only
 of the first one

---
 McCalib/src/McCalib.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index b4efee1..c26abe0 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -378,9 +378,9 @@ void Calibration::saveCamerasParams() {
           ? save_path_ / camera_params_file_name_
           : save_path_ / "calibrated_cameras_data.yml";
   cv::FileStorage fs(save_path_camera_params, cv::FileStorage::WRITE);
+  fs << "nb_camera" << static_cast<int>(nb_camera_);
   for (const auto &it_cam_group : cam_group_) {
     std::shared_ptr<CameraGroup> cur_cam_group = it_cam_group.second;
-    fs << "nb_camera" << static_cast<int>(nb_camera_);
     for (const auto &it_cam : cur_cam_group->cameras_) {
       std::shared_ptr<Camera> cur_cam = it_cam.second.lock();
       if (cur_cam) {
@@ -399,9 +399,8 @@ void Calibration::saveCamerasParams() {
            << cur_cam_group->getCameraPoseMat(cur_cam->cam_idx_).inv() << "}";
       }
     }
-
-    fs.release();
   }
+  fs.release();
 }
 
 /**
-- 
2.43.0


From 65063a09fbf3512d2b9e3ae1eaf762cf9b1c4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:50 +0000
Subject: [PATCH 13/19] fix: list only the frames of a camera group in its
 reprojection errors

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index c26abe0..ea8eed5 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -2245,7 +2245,6 @@ void Calibration::saveReprojectionErrorToFile() {
   const std::filesystem::path save_reprojection_error =
       save_path_ / "reprojection_error_data.yml";
   cv::FileStorage fs(save_reprojection_error, cv::FileStorage::WRITE);
-  cv::Mat frame_list;
   int nb_cam_group = cam_group_.size();
   fs << "nb_camera_group" << nb_cam_group;
 
@@ -2254,6 +2253,7 @@ void Calibration::saveReprojectionErrorToFile() {
     fs << "camera_group_" + std::to_string(cam_group_idx);
     fs << "{";
     std::shared_ptr<CameraGroup> cur_cam_group = it.second;
+    cv::Mat frame_list;
     // iterate through frames
     for (const auto &it_frame : cur_cam_group->frames_) {
       std::shared_ptr<Frame> it_frame_ptr = it_frame.second.lock();
-- 
2.43.0


From 8a978292482cdcfe9a73c11e0430330e7130691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 14/19] fix: count the refinement kernel weights from zero

---
 McCalib/include/point_refinement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/include/point_refinement.h b/McCalib/include/point_refinement.h
index d932aae..6985cfb 100644
--- a/McCalib/include/point_refinement.h
+++ b/McCalib/include/point_refinement.h
@@ -205,7 +205,7 @@ void saddleSubpixelRefinement(const cv::Mat &input,
 
   cv::Mat smoothingKernel;
   cv::Mat mask;
-  int nnz;
+  int nnz = 0;
   initConeSmoothingKernel(window_half_size, smoothingKernel, mask, nnz);
 
   cv::Mat invAtAAt;
-- 
2.43.0


From fc1853e3ef7526f7178b0d8a8b6f3522efe3c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 15/19] fix: set the detection parameters once instead of
 concurrently in every detection thread

---
 McCalib/src/McCalib.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index ea8eed5..4f935cf 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -38,6 +38,14 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   }
   fs.open(config_path, cv::FileStorage::READ);
 
+  // shared by the detection threads, which only read it
+#if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
+     defined(CV_VERSION_MINOR) && CV_VERSION_MINOR < 7)
+  charuco_params_->adaptiveThreshConstant = 1;
+#else
+  charuco_params_.adaptiveThreshConstant = 1;
+#endif
+
   int nb_camera;
   fs["number_camera"] >> nb_camera;
   assert(nb_camera > 0);
@@ -290,13 +298,6 @@ void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
   // key == board id, value == ID corners on checkerboard
   std::map<int, std::vector<int>> charuco_idx;
 
-#if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
-     defined(CV_VERSION_MINOR) && CV_VERSION_MINOR < 7)
-  charuco_params_->adaptiveThreshConstant = 1;
-#else
-  charuco_params_.adaptiveThreshConstant = 1;
-#endif
-
   for (std::size_t i = 0; i < nb_board_; i++) {
 
 #if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
-- 
2.43.0


From f678bd9bc4caa0411720a79dcc19415abc6a2b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 16/19] fix: check the hand-eye solution on the motion between
 different poses

Both poses of a motion were the same one, and the motions were expressed in
the frames of the objects while the solution relates the cameras, so that
correct solutions were rejected.
---
 McCalib/src/geometrytools.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index eb2caca..9a789da 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -590,11 +590,12 @@ double checkSetConsistency(const std::vector<cv::Mat> &pose_abs_1,
     cv::Mat pose_cam_group_2_1 = pose_abs_2[selected_poses_idxs[i]];
     for (unsigned int j = 0; j < selected_poses_idxs.size(); j++) {
       if (i != j) {
-        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[i]];
-        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[i]];
-        cv::Mat PP1 = pose_cam_group_1_2.inv() * pose_cam_group_1_1;
-        cv::Mat PP2 = pose_cam_group_2_1.inv() * pose_cam_group_2_2;
-        cv::Mat ErrMat = PP2.inv() * pose_g1_g2 * PP1 * pose_g1_g2;
+        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[j]];
+        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[j]];
+        // motion of the objects as seen by each of the cameras
+        cv::Mat PP1 = pose_cam_group_1_2 * pose_cam_group_1_1.inv();
+        cv::Mat PP2 = pose_cam_group_2_2 * pose_cam_group_2_1.inv();
+        cv::Mat ErrMat = PP2.inv() * pose_g1_g2.inv() * PP1 * pose_g1_g2;
         cv::Mat ErrRot, ErrTrans;
         Proj2RT(ErrMat, ErrRot, ErrTrans);
         cv::Mat ErrRotMat;
-- 
2.43.0


From fc41f473683758963a35083f6d0630322b7e6b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 17/19] fix: pick no more clusters than there are in the
 bootstrapped hand-eye calibration

With 4 or 5 common poses the indices of clusters were read out of bounds.
---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 9a789da..94f738a 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -643,7 +643,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
 
   std::vector<double> r1_he, r2_he, r3_he; // structure to save valid rot
   std::vector<double> t1_he, t2_he, t3_he; // structure to save valid trans
-  const unsigned int nb_clust_pick = 6;
+  const unsigned int nb_clust_pick = std::min(6u, num_clusters);
   unsigned int nb_success = 0;
   for (unsigned int iter = 0; iter < nb_it; iter++) {
     std::vector<cv::Mat> r_cam_group_1, t_cam_group_1, r_cam_group_2,
-- 
2.43.0


From 4f1e3d4e7ef461ccd3463f22a336c3f31f9b9660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 18/19] fix: fall back to the hand-eye calibration of both
 groups

The poses of the first group were given for both.
---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 94f738a..587e704 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -688,7 +688,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
     return pose_g1_g2;
   } else {
     LOG_INFO << "Run the normal handeye calibration on all the samples";
-    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_1);
+    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_2);
     return pose_g1_g2;
   }
 }
-- 
2.43.0


From 48a544d49a390d3cb54263f4cf4d9a774fc4dfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 19/19] fix: forget the poses between camera groups once they
 are merged

The merged groups are numbered anew, the next merge applied the old poses to
them: unrelated groups were merged, or a group that no longer exists was read.
---
 McCalib/src/McCalib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 4f935cf..869b49c 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1482,7 +1482,7 @@ void Calibration::initNonOverlapPair(const int cam_group_id1,
  */
 void Calibration::findPoseNoOverlapAllCamGroup() {
   no_overlap_camgroup_pair_pose_.clear();
-  no_overlap_camgroup_pair_pose_.clear();
+  no_overlap__camgroup_pair_common_cnt_.clear();
 
   // Iterate through the camera groups
   for (const auto &it_groups_1 : cam_group_) {
@@ -1605,6 +1605,9 @@ void Calibration::mergeCameraGroup() {
   // Erase previous camera group and replace it with the merged one
   cam_group_.clear();
   cam_group_ = cam_group;
+  // The poses between the previous groups do not apply to the merged groups
+  no_overlap_camgroup_pair_pose_.clear();
+  no_overlap__camgroup_pair_common_cnt_.clear();
 }
 
 /**
-- 
2.43.0

