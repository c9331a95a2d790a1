G='McCalib/src/geometrytools.cpp'
seed('C01-invert-inplace', 'C01', (G, '''  cv::Mat Proj = RVecT2Proj(Rvec, T);
  Proj = Proj.inv();
  Proj2RT(Proj, Rvec, T);''', '''  cv::Mat R;
  cv::Rodrigues(Rvec, R);
  Rvec = -Rvec;
  T = -R * T;'''), 'a pose whose translation is not along its rotation axis, inverted in place (the out-of-place overload stays right)',
 'invertRvecT in place returns -R*t instead of -R^T*t', '''
static void body(const char *) {
  cv::Mat r = V(0.3, -0.7, 0.2), t = V(1, 2, 3), r2, t2, P = RVecT2Proj(r, t);
  invertRvecT(r, t, r2, t2);
  CHECK(near(RVecT2Proj(r2, t2), P.inv()));
  invertRvecT(r, t);
  CHECK(near(RVecT2Proj(r, t), P.inv()));
}''')
seed('C01-set-pose-first-only', 'C01', ('McCalib/src/Object3D.cpp', '''  relative_board_pose_[board_id] = {r_vec.at<double>(0), r_vec.at<double>(1),
                                    r_vec.at<double>(2), t_vec.at<double>(0),
                                    t_vec.at<double>(1), t_vec.at<double>(2)};''', '''  relative_board_pose_.insert(
      {board_id,
       {r_vec.at<double>(0), r_vec.at<double>(1), r_vec.at<double>(2),
        t_vec.at<double>(0), t_vec.at<double>(1), t_vec.at<double>(2)}});''', 0),
 'setting the pose of the same board of an object a second time with the matrix setter', 'the second set is ignored, so the object keeps the old pose', '''
static void body(const char *) {
  Object3D o(2, 0, 0, {0, 0, 0});
  cv::Mat P = RVecT2Proj(V(0.3, -0.7, 0.2), V(1, 2, 3)), Q = RVecT2Proj(V(-0.1, 0.4, 0.9), V(-1, 5, 2));
  o.setBoardPoseMat(1, P); CHECK(near(o.getBoardPoseMat(1), P));
  o.setBoardPoseMat(1, Q); CHECK(near(o.getBoardPoseMat(1), Q));
}''')
seed('C02-later-points', 'C02', (G, '''    float x = tx + r11 * pt3D.x + r12 * pt3D.y + r13 * pt3D.z;''', '''    if (pts3D_transformed.size() == 1)
      std::swap(r13, r31);
    float x = tx + r11 * pt3D.x + r12 * pt3D.y + r13 * pt3D.z;'''), 'a list of at least two points and a rotation with r13 != r31',
 'from the second point on, the wrong rotation entries are used', '''
static void body(const char *) {
  cv::Mat r = V(0.3, -0.7, 0.2), t = V(1, 2, 3), R; cv::Rodrigues(r, R);
  std::vector<cv::Point3f> p = {{1, 2, 3}, {-1, 0.5, 2}, {0, 0, 1}};
  auto q = transform3DPts(p, r, t);
  for (size_t i = 0; i < p.size(); i++) {
    cv::Mat x = R * V(p[i].x, p[i].y, p[i].z) + t;
    CHECK(near(V(q[i].x, q[i].y, q[i].z), x, 1e-4));
  }
}''')
seed('C04-median-partial', 'C04', (G, '''  std::sort(v.begin(), v.end());
  const std::size_t mid = n_elements / 2;''', '''  const std::size_t mid = n_elements / 2;
  std::nth_element(v.begin(), v.begin() + mid, v.end());'''), 'an even count in an order where the element before the middle is not the next smaller one',
 'the median of an even list depends on its order', '''
static void body(const char *) {
  for (int n = 2; n < 40; n += 2) {
    std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(i);
    std::mt19937 g(n); for (int k = 0; k < 20; k++) { std::shuffle(v.begin(), v.end(), g); auto w = v; CHECK(near(median(w), (n - 1) / 2.0)); }
  }
}''')
seed('C05-fisheye-row-vector', 'C05', ('McCalib/src/Camera.cpp', '''    for (std::size_t intrinIdx = 4u; intrinIdx <= 7u; ++intrinIdx) {
      std::size_t distIdx = intrinIdx - 4u;
      intrinsics_[intrinIdx]''', '''    for (std::size_t intrinIdx = 4u;
         intrinIdx < 4u + std::min(4, distortion_vector.rows); ++intrinIdx) {
      std::size_t distIdx = intrinIdx - 4u;
      intrinsics_[intrinIdx]'''), 'a fisheye camera and a 1x4 (row) distortion vector, as getDistortionVectorVector returns it (the solver returns a column)', 'only the first coefficient is stored', '''
static void body(const char *) {
  Camera c(0, 1), d(1, 1);
  c.intrinsics_ = {500, 501, 320, 240, .1, .2, .3, .4, 0};
  d.intrinsics_ = {1, 1, 1, 1, 0, 0, 0, 0, 0};
  cv::Mat K, D; c.getIntrinsics(K, D); d.setIntrinsics(K, D);
  CHECK(c.intrinsics_ == d.intrinsics_);
}''')
