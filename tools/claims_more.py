claim('C12', 'every inserter, constructor and linking loop is under contract, weak pointers are assumed live;' + RB)
claim('C16', 'a configuration file exists and its values parse as the types they are read as (cv::FileStorage trusted), a charuco pattern numbers its markers from 0 (cv::aruco trusted);' + RB)
claim('C15', 'boost connected_components and Dijkstra are trusted to compute components and shortest-path trees of the graph they are given, their predecessor maps to be cycle-free;' + RB)
claim('C10', 'the observations in one view are those its own lists hold (C12), graph operations are used through the contracts of C15;' + RB)
claim('C11', 'average rotation through its contract (C04); an observation may be listed for several groups only through its own tables (C12);' + RB)
claim('C08', 'the graph operations are used through the contracts of C15, keys of boards and points are distinct;' + RB)
claim('C09', 'the graph operations are used through the contracts of C15, poses are rigid;' + RB)
claim('C13', 'projection of one point through cv::projectPoints / cv::fisheye::projectPoints is trusted, the lens model is 0 or 1;' + RB)
claim('C14', 'solvePnP, projectPoints and undistortPoints are trusted point-wise functions, random shuffles are arbitrary permutations;' + RB)
claim('C06', 'ceres::AngleAxisRotatePoint is the rotation by a rotation vector and automatic differentiation evaluates the same template at its own scalar type (both trusted), points in front of the camera;' + RB)
claim('C07', 'ceres::Solve is trusted to change nothing but the parameter blocks of the residuals it is given; loss function and solver options are not part of the contract;' + RB)
claim('C19', 'cv::FileStorage writes what it is given in the order given and reads it back unchanged (trusted; the replay exercises it on real files), a saved file is still readable when it is loaded;' + RB)
claim('C18', 'cv::calibrateHandEye is an uninterpreted function of the exact lists it receives, cv::kmeans labels every row and leaves no cluster empty, random draws are arbitrary values of their range, std::shuffle and std::set_intersection are trusted;' + RB)
claim('C17', 'cv::imread, cvtColor, detectMarkers and interpolateCornersCharuco are uninterpreted functions of what they are given, every row of the right-hand side of the saddle fit is written before it is used (A-FIT), coordinates other than the explicit infinity mark are real numbers;' + RB)
claim('C20', 'boost::asio::thread_pool runs every posted task once and join waits for all of them, cv::imread and the detector are functions of what they are given and safe to call at the same time, std::mutex excludes (trusted); accesses not protected by the lock commute because nothing they read is changed (checked column by column);' + RB)
