M='McCalib/src/McCalib.cpp'; O='McCalib/include/OptimizationCeres.h'; CG='McCalib/src/CameraGroup.cpp'; OB='McCalib/src/Object3D.cpp'
CGO='McCalib/src/CameraGroupObs.cpp'; CAM='McCalib/src/Camera.cpp'; U='McCalib/src/utilities.cpp'; GR='McCalib/src/Graph.cpp'; BO='McCalib/src/BoardObs.cpp'
seed('C03-half-turn', 'C03', (G, '(R.at<double>(0, 0) < R.at<double>(2, 2) ? 2 : 0)', '(R.at<double>(1, 1) < R.at<double>(2, 2) ? 2 : 0)'),
 'a half turn (or nearly) about the first axis, for which the third diagonal entry exceeds the second', 'the quaternion is built from the wrong diagonal entry: a division by (nearly) zero', '''
static void body(const char *) {
  for (double e : {0.0, 1e-9, 1e-7}) {
    cv::Mat a = V(1, 1e-3 * e, e), R, S; a *= CV_PI / cv::norm(a); cv::Rodrigues(a, R);
    if (e == 0) R = (cv::Mat_<double>(3, 3) << 1, 0, 0, 0, -1, 0, 0, 0, -1);
    cv::Mat q = convertRotationMatrixToQuaternion(R);
    double n = cv::norm(q);
    CHECK(near(n, 1, 1e-6));
    S = convertQuaternionToRotationMatrix({q.at<double>(0), q.at<double>(1), q.at<double>(2), q.at<double>(3)});
    CHECK(near(R, S, 1e-6));
  }
}''')
seedr('C06-sixth-power', 'C06', (O, '''      T r6 = r4 * r2;
      T r_coeff = (T(1) + k1 * r2 + k2 * r4 + k3 * r6);
      T xd = pobj[0]''', '''      T r6 = r4 * r4;
      T r_coeff = (T(1) + k1 * r2 + k2 * r4 + k3 * r6);
      T xd = pobj[0]''', 0), 'a camera with a non-zero third radial coefficient, in the refinement of a camera group only', 'the third radial term grows with the eighth power of the radius', 'camera_group')
seedr('C06-reference-board-moves', 'C06', (O, 'if (refine_board != 0) {', 'if (refine_board != 0 || refine_camera == 0) {', 2), 'a point of the reference board seen by the reference camera, in the final refinement', 'the pose of the reference board moves the point', 'camera_group_object_and_intrinsics')
seedr('C07-reference-by-group-number', 'C07', (CG, 'if (this->id_ref_cam_ == cam_ptr->cam_idx_) {', 'if (cam_group_idx_ == cam_ptr->cam_idx_) {', 0), 'a camera group whose number differs from its reference camera (any but the first group)', 'the reference camera is refined and another camera may be held fixed', 'camera_group_and_objects')
seedr('C07-stale-lens', 'C07', (OB, 'double(current_pts_3d.z), fx, fy, u0, v0, r1, r2, r3,\n                        t1, t2, refine_board', 'double(current_pts_3d.z), fx, fy, u0, v0, r1, r2, r3,\n                        t2, t1, refine_board'), 'a camera with tangential distortion (or the last two fisheye coefficients) that are not equal', 'the two coefficients reach the residual in the wrong order', 'object')
seedr('C08-running-count', 'C08', [(M, '''    int pts_count = 0;
    // Iterate through the objects''', '''    // Iterate through the objects'''), (M, '''  std::map<int, std::shared_ptr<Object3D>> object_3d; // list of object 3D
''', '''  std::map<int, std::shared_ptr<Object3D>> object_3d; // list of object 3D
  int pts_count = 0;
''')], 'merging that leaves at least two objects', 'the table of the second merged object continues counting after the first', 'merged')
seedr('C08-update-in-board-order', 'C08', [(OB, '''void Object3D::updateObjectPts() {
''', '''void Object3D::updateObjectPts() {
  std::size_t obj_pts_count = 0;
'''), (OB, '''        std::pair<int, int> board_id_pts_id = std::make_pair(board_idx, i);
        pts_3d_[pts_board_2_obj_[board_id_pts_id]] = trans_pts[i];''', '        pts_3d_[obj_pts_count++] = trans_pts[i];', 1)], 'an object merged from parts whose boards interleave in number, so that its points are not stored in board order', 'after refinement the coordinates go to the points of other boards', 'updated')
seedr('C09-camera-chain', 'C09', (M, '''          cv::Mat current_trans = inter_camera_transform_[cam_pair_idx];
          transform = current_trans * transform;''', '''          cv::Mat current_trans = inter_camera_transform_[cam_pair_idx];
          transform = transform * current_trans;''', 0), 'a camera that reaches the reference camera over at least one other camera', 'the relative poses are multiplied in the wrong order', 'cameras')
seedr('C09-frame-of-reference', 'C09', (M, 'cv::Mat transform = pose_in_merged * pose_board_in_current_obj;', 'cv::Mat transform = pose_board_in_current_obj * pose_in_merged;'), 'an object with several boards that is merged into another', 'the poses of its boards are moved on the wrong side', 'merge_objects')
seedr('C09-groups-left-behind', 'C09', (M, """        cv::Mat pose_in_final =
            cam_group_pose_to_ref[current_group->cam_group_idx_];""", """        cv::Mat pose_in_final =
            cam_group_pose_to_ref[connect_comp[i].back()];"""), 'three or more groups merged into one', 'the cameras of every group are placed with the pose of the last group of the component', 'merge_groups')
seedr('C10-vertices-by-frames', 'C10', (M, '''  for (const auto &it : this->cams_) {
    if (it.second->board_observations_.size() > 0) {''', '''  for (const auto &it : this->cams_) {
    if (it.second->frames_.size() > 0) {'''), 'a camera that only saw boards in frames some other camera had already opened and shares no object with another camera', 'an observed camera is missing from the graph', 'cameras boards objects')
seedr('C11-flag-outlives-object', 'C11', [(CGO, '''    bool flag_ref_cam = false;
    cv::Mat group_pose_r, group_pose_t;
''', ''), (CGO, '''  // Compute the pose of the objects:
''', '''  // Compute the pose of the objects:
  bool flag_ref_cam = false;
  cv::Mat group_pose_r, group_pose_t;
''')], 'a group observation with two objects, only the first of which the reference camera sees', 'the second object takes over the pose of the first', 'poses')
seedr('C12-group-links-survive', 'C12', (M, '''    it_frame.second->cam_group_idx_.clear();
''', ''), 'a frame that already had group observations when the groups are merged', 'the list of group identifiers of the frame keeps the old entries and is no longer parallel to the links', 'merging objects_and_groups')
seedr('C13-common-lens', 'C13', (M, '''                    cam_ptr->getDistortionVectorVector(),
                    cam_ptr->distortion_model_, repro_pts);

                cv::Mat error_list =
                    computeDistanceBetweenPoints(obj_pts_2d, repro_pts);
                total_avg''', '''                    cam_ptr->getDistortionVectorVector(),
                    cams_.begin()->second->distortion_model_, repro_pts);

                cv::Mat error_list =
                    computeDistanceBetweenPoints(obj_pts_2d, repro_pts);
                total_avg'''), 'a rig that mixes perspective and fisheye cameras', 'the average error is computed with the lens type of the first camera', 'average')
seedr('C14-fisheye-focal', 'C14', (G, '''          imagePointUndis.y * float(intrinsic.at<double>(1, 1)) +''', '''          imagePointUndis.y * float(intrinsic.at<double>(0, 0)) +'''), 'a fisheye camera whose focal lengths differ', 'undistorted pixels are scaled with the wrong focal length, so good correspondences are dropped', 'board_pose object_pose consistent_any_lens')
seedr('C14-aliased-model', 'C14', (G, '''      Trans.copyTo(BestT);
      Rot.copyTo(BestR);''', '''      BestT = Trans;
      BestR = Rot;'''), 'a later sample with fewer inliers than the best one, and no final refinement', 'the best model shares its storage with the sample, so the last sample overwrites it', 'best_supported')
seedr('C15-names-survive-clear', 'C15', (GR, '''  graph_.clear();
  idx_to_vertex_.clear();''', '''  graph_.clear();'''), 'a graph that is cleared and built again', 'names of the previous graph still refer to its vertices', 'content_and_components')
seedr('C16-offset-of-own-size', 'C16', (U, 'int id_offset = charuco_boards[i - 1]->ids.size() + offset_count;', 'int id_offset = charuco->ids.size() + offset_count;'), 'boards of different sizes', 'marker identifiers of different boards overlap', 'patterns boards generator')
seedr('C17-square-border', 'C17', (CAM, 'pt_y >= (im_rows_ - thresh_border_y)', 'pt_y >= (im_rows_ - thresh_border_x)'), 'a fisheye camera with an image that is not square', 'the lower border is as wide as the side borders', 'border')
seedr('C17-first-square', 'C17', (M, 'boards_3d_[i]->square_size_ * 0.1', 'boards_3d_.begin()->second->square_size_ * 0.1'), 'boards of different square sizes', 'nearly collinear points are judged with the square of another board', 'filter')
seedr('C18-neighbours-only', 'C18', (G, '''    for (unsigned int j = 0; j < selected_poses_idxs.size(); j++) {
      if (i != j) {''', '''    for (unsigned int j = i; j < selected_poses_idxs.size(); j++) {
      if (j == i + 1) {'''), 'a set of poses in which every motion between neighbours is consistent but a longer one is not', 'only the motions between successive poses are compared', 'consistency')
seedr('C18-drawn-twice', 'C18', (G, 'cluster_select.push_back(shuffled_ind[k]);', 'cluster_select.push_back(shuffled_ind[g() % num_clusters]);'), 'draws of more than one cluster', 'a cluster may be drawn more than once, so fewer different poses enter the hand-eye calibration', 'draws')
seedr('C19-points-in-order', 'C19', (M, '''          cv::Point3f curr_pts =
              cur_object
                  ->pts_3d_[cur_object->pts_board_2_obj_[board_id_pts_id]];''', '''          cv::Point3f curr_pts = cur_object->pts_3d_[obj_pts_count];'''), 'an object whose points are not stored in board order (after a merge)', 'coordinates are saved with the board and point number of another point', 'objects')
seedr('C19-path-of-first-camera', 'C19', (M, 'const std::string &frame_path = it_frame.second->frame_path_[cam_idx];', 'const std::string &frame_path =\n          it_frame.second->frame_path_.begin()->second;'), 'a frame seen by several cameras', 'the saved detections of the other cameras name the image of the first one', 'detections')
seedr('C20-captured-by-reference', 'C20', (M, '''    boost::asio::post(pool,
                      std::bind(&Calibration::detectBoardsInImageWithCamera,
                                this, frame_path, cam_idx, frame_idx));''', '''    boost::asio::post(pool, [&, frame_path] {
      detectBoardsInImageWithCamera(frame_path, cam_idx, frame_idx);
    });'''), 'a worker that starts a frame after the loop moved on', 'detections are recorded under the number of a later frame', 'threads')
seedr('C20-shared-corners', 'C20', (M, '''  std::map<int, std::vector<cv::Point2f>> charuco_corners;
  // key == board id, value == ID corners on checkerboard
  std::map<int, std::vector<int>> charuco_idx;
''', '''  static std::map<int, std::vector<cv::Point2f>> charuco_corners;
  // key == board id, value == ID corners on checkerboard
  static std::map<int, std::vector<int>> charuco_idx;
  charuco_corners.clear();
  charuco_idx.clear();
'''), 'two frames processed at the same time', 'threads share the lists of corners', 'threads')
