#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list below is the single source)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
S='McCalib/src/'; I='McCalib/include/'

prop('C01','Rigid poses are built, split, inverted and stored without distortion',
 'A pose given as rotation vector (or matrix) and translation becomes exactly the 4x4 matrix [R t; 0 0 0 1], splitting that matrix gives back the same rotation and translation, and inverting a pose gives (R^T, -R^T t). Storing the pose of a board or object observation, of a board in an object, of a camera in a group or of an object in a group and reading it back in any form (vector, rotation, translation, matrix) yields that same pose and leaves every other stored pose unchanged.',
 ['inputs'],'every rotation, translation and identifier, every order of set and get',
 'The unit tests exercise a few fixed rotations and an all-zero pose; the accessor families of five classes are not tested at all, and a swapped component or a wrong key only shows for specific values.',
 [S+'geometrytools.cpp',S+'BoardObs.cpp',S+'Object3DObs.cpp',S+'Object3D.cpp',S+'CameraGroup.cpp',S+'CameraGroupObs.cpp'],
 [('RT2Proj/RVecT2Proj/Proj2RT/ProjToVec/invertRvecT',S+'geometrytools.cpp'),('pose getters and setters',S+'BoardObs.cpp, Object3DObs.cpp, Object3D.cpp, CameraGroup.cpp, CameraGroupObs.cpp')])
prop('C02','Transforming a point cloud applies the pose to every point',
 'Transforming a list of 3D points by a pose yields a list of the same length in the same order in which every point is R*p + t. The input list is not changed.',
 ['inputs'],'every list of points (any length, including empty) and every pose',
 'No test covers it; a test could only sample some lists, and mistakes that affect one coordinate, one entry or long lists stay invisible.',
 [S+'geometrytools.cpp'],[('transform3DPts',S+'geometrytools.cpp')])
prop('C03','Quaternion and matrix rotations describe the same rotation',
 'Converting a rotation matrix to a quaternion (x, y, z, w) yields a unit quaternion whose standard rotation matrix is the input, in every numerical branch; converting a unit quaternion to a matrix yields the standard orthonormal matrix of that quaternion.',
 ['inputs'],'every rotation matrix and every unit quaternion, including half turns and each branch of the case split',
 'The existing tests use a handful of fixed rotations, far from covering each branch; a sign or index mistake in one entry of one branch survives them.',
 [S+'geometrytools.cpp'],[('convertRotationMatrixToQuaternion / convertQuaternionToRotationMatrix',S+'geometrytools.cpp')])
prop('C04','Robust averages are order-independent medians and means',
 'The median of a list of numbers is its middle order statistic (mean of the two middle ones for even counts, zero for an empty list), for every permutation of the list. Averaging several relative poses between the same two elements takes the component-wise median of the translations and the average rotation of the rotations, and yields one pose for every measured pair; averaging rotations is a component-wise median of rotation vectors or a sign-consistent normalised mean quaternion, whichever is configured.',
 ['inputs'],'every list length and order and every number of pose pairs',
 'No existing test calls these; order-dependence and off-by-one positions need specific lengths and orders.',
 [S+'geometrytools.cpp',S+'McCalib.cpp'],[('median, getAverageRotation',S+'geometrytools.cpp'),('initInterTransform',S+'McCalib.cpp')])
prop('C05','Camera intrinsics keep their meaning in the parameter vector',
 'For either lens model, storing a camera matrix and distortion coefficients and reading them back gives the same focal lengths, principal point and distortion coefficients in the same order, and storing one part leaves the other unchanged. Initial calibration stores exactly what the solver of the selected lens model returned.',
 ['inputs','configurations'],'all parameter values, both lens models',
 'Not covered by the runnable tests; a swapped or dropped coefficient silently degrades results.',
 [S+'Camera.cpp',I+'Camera.hpp'],[('getCameraMat/setCameraMat/getDistortionVectorVector/setDistortionVector/getIntrinsics/setIntrinsics/initializeCalibration',S+'Camera.cpp')])
prop('C06','Optimised residuals equal predicted minus observed pixels',
 'Every residual minimised by the bundle adjustment equals the predicted image position of the 3D point minus the observed one, where the prediction chains the poses of that residual (board, object, camera) and applies the pinhole model with radial-tangential (k1,k2,p1,p2,k3) or equidistant fisheye (k1..k4) distortion. The pose of a reference camera or reference board never influences its residual.',
 ['inputs','configurations'],'all parameter values (points in front of the camera), both lens models, reference and non-reference elements',
 'No runnable test evaluates a residual; a wrong term or parameter order only biases the result.',
 [I+'OptimizationCeres.h'],[('ReprojectionError*::operator()',I+'OptimizationCeres.h')])
prop('C07','Refinement optimises exactly the observed points with the right blocks',
 'Each refinement step adds one residual per observed point of every observation it is about, pairing that 2D point with its own 3D point, the intrinsics and lens model of the camera that saw it, and the poses of that very camera, frame, board and object. Only the parameters the step refines may change, parameters requested fixed stay constant, and residuals of the reference element are marked as not refining it.',
 ['inputs','histories'],'every set of cameras, frames, objects and observations',
 'The end-to-end tests need a dataset that is absent; a pose taken from a wrong element still converges on easy data.',
 [S+'Camera.cpp',S+'Object3D.cpp',S+'CameraGroup.cpp'],[('refineIntrinsicCalibration',S+'Camera.cpp'),('refineObject',S+'Object3D.cpp'),('refineCameraGroup*, ',S+'CameraGroup.cpp')])
prop('C08','Object point tables stay mutually inverse and geometrically consistent',
 'In every 3D object, the table from (board, point) to object point and the table from object point to (board, point) are inverse to each other, and the coordinates of each object point are the point of its board moved by that board\'s pose in the object. This holds after objects are created, merged and refined, and observations refer to object points through these tables.',
 ['inputs','histories'],'every number of boards, points and merges',
 'No runnable test builds an object; an index slip corrupts only some points.',
 [S+'McCalib.cpp',S+'Object3D.cpp',S+'Object3DObs.cpp',S+'Board.cpp'],
 [('init3DObjects, mergeObjects',S+'McCalib.cpp'),('updateObjectPts, refineObject, insertBoardInObject',S+'Object3D.cpp'),('insertNewBoardObs',S+'Object3DObs.cpp')])
prop('C09','Poses in objects and camera groups chain measured relative poses',
 'When boards or objects are grouped, or cameras or camera groups are grouped, the element with the smallest identifier becomes the reference with identity pose, and the pose of every other element is the product, along a path of measured pairs to the reference, of the averaged relative poses in the right direction. Merging keeps the relative poses inside each merged part.',
 ['inputs','histories'],'every graph of pairwise measurements, every number of elements and every path length',
 'No runnable test builds a group; direction and order mistakes cancel for paths of length one or identity poses.',
 [S+'McCalib.cpp'],[('init3DObjects, initCameraGroup, mergeObjects, mergeCameraGroup',S+'McCalib.cpp')])
prop('C10','Pairwise relative poses come from every common observation',
 'For two boards, cameras or objects, the recorded relative poses are exactly those computed from the views where both are observed (by the same camera in the same frame for boards, the same object in the same frame for cameras, the same camera group and frame for objects), expressed in a fixed direction consistent with the pair key, never pairing an element with itself. The connection graphs have a vertex for every observed element and one edge per measured pair whose weight is the inverse of the number of common observations.',
 ['inputs','histories'],'every set of frames, cameras and observations',
 'The runnable tests never populate a calibration; a missing or inverted pair shows only for particular visibility patterns.',
 [S+'McCalib.cpp'],[('computeBoardsPairPose, computeCamerasPairPose, computeObjectsPairPose, initInter*Graph',S+'McCalib.cpp')])
prop('C11','Object poses in a camera group are expressed in its reference camera',
 'For every camera group and frame, the pose of each observed object in the group is the inverse of the pose of the observing camera in the group composed with the pose of the object in that camera; when several cameras see the object the pose seen by the reference camera is used if available, otherwise the average over the cameras that see it. Every observation of the object in that group and frame then carries this pose of the object, also after the poses of a group observation are written back to its observations.',
 ['inputs','histories'],'every set of cameras, frames and objects',
 'No runnable test covers groups; a wrong camera or direction needs several cameras to show.',
 [S+'CameraGroup.cpp',S+'CameraGroupObs.cpp',S+'McCalib.cpp'],[('computeObjPoseInCameraGroup',S+'CameraGroup.cpp'),('computeObjectsPose, updateObjObsPose',S+'CameraGroupObs.cpp')])
prop('C12','Every detection is recorded once, everywhere it belongs',
 'Recording a board, object or group observation stores it under a fresh identifier in the calibration and links it from its camera, frame, board or object and group exactly once, with identifiers and links in parallel order and everything already recorded unchanged. After objects or camera groups are merged, each (camera, frame, object) and each (group, frame) has exactly one observation, containing all its boards or objects.',
 ['inputs','histories'],'every sequence of insertions and merges',
 'No runnable test inserts observations; duplicates or lost links need several cameras, frames or merges.',
 [S+'McCalib.cpp',S+'Board.cpp',S+'Camera.cpp',S+'Frame.cpp',S+'CameraObs.cpp',S+'Object3D.cpp',S+'Object3DObs.cpp',S+'CameraGroup.cpp',S+'CameraGroupObs.cpp'],
 [('insertNew* methods',S),('insertNewBoard, init3DObjectObs, insertNewObjectObservation, mergeAllObjectObs, initCameraGroupObs, mergeAllCameraGroupObs',S+'McCalib.cpp')])
prop('C13','Reported reprojection errors are mean pixel distances',
 'The reprojection error of a board, object or group observation is the mean Euclidean pixel distance between each observed point and the projection of its 3D point with the camera\'s lens model and the stored poses; per-point distances pair points by index, and aggregated errors average over all observations or points considered.',
 ['inputs'],'every set of observations, points and poses, both lens models',
 'No runnable test checks an error value; a wrong divisor, pairing or lens model gives plausible numbers.',
 [S+'BoardObs.cpp',S+'Object3DObs.cpp',S+'CameraGroup.cpp',S+'McCalib.cpp',S+'geometrytools.cpp'],
 [('computeReprojectionError',S+'BoardObs.cpp, Object3DObs.cpp'),('reproErrorCameraGroup',S+'CameraGroup.cpp'),('computeDistanceBetweenPoints, computeAvgReprojectionError',S+'McCalib.cpp'),('projectPointsWithDistortion',S+'geometrytools.cpp')])
prop('C14','Robust pose estimation keeps exactly the consistent correspondences',
 'The robust pose estimators report as inliers exactly the correspondences whose pixel error (undistorted pixels for the fisheye lens) under the best supported sampled model is below the given threshold, return that model, refined on its inliers if asked to, never read outside the given points, and stop within the iteration budget. Removing outliers from an observation keeps its 2D points and point identifiers in correspondence, and a board observation with fewer than four inliers is marked invalid.',
 ['inputs','schedules'],'every set of correspondences of any size, every random sample sequence',
 'No existing test calls them; random sampling makes tests blind to rare sequences and small inputs.',
 [S+'geometrytools.cpp',S+'BoardObs.cpp',S+'Object3DObs.cpp'],[('ransacP3P, ransacP3PDistortion, ransacTriangulation',S+'geometrytools.cpp'),('estimatePose',S+'BoardObs.cpp, Object3DObs.cpp')])
prop('C15','Connection graphs give the true components and cheapest paths',
 'Adding a vertex or edge names exactly that vertex or edge, the connected components partition the vertices by reachability, and the path between two vertices is a chain of existing edges from the first to the second with minimal total weight. Asking for a path when an end is missing or unreachable gives an empty path and always terminates.',
 ['inputs','histories'],'every weighted graph, including fractional weights, disconnected ones and any insertion order',
 'The existing tests use small integer weights on fixed connected graphs.',
 [S+'Graph.cpp',I+'Graph.hpp'],[('Graph',S+'Graph.cpp')])
prop('C16','Configuration values are honoured as documented',
 'Every option of the configuration file takes the value given in the file: each documented key sets its own parameter, per-board sizes override the common size when given, and boards get the geometry (grid of inner corners spaced by their own square size, corner border indices) and the marker identifiers that the configuration implies, with the marker identifiers of different boards disjoint and consecutive.',
 ['configurations','inputs'],'every configuration file, every number and size of boards',
 'The runnable tests load no configuration file; a misread key silently falls back to a default.',
 [S+'McCalib.cpp',S+'Board.cpp',S+'utilities.cpp'],[('Calibration constructor, initialization',S+'McCalib.cpp'),('Board constructor',S+'Board.cpp'),('createCharucoBoards',S+'utilities.cpp')])
prop('C17','Detections are filtered by the documented criteria',
 'A detected board is kept only when it shows at least the configured fraction of its corners and its points are not nearly collinear, and for a fisheye camera a board takes part in initial calibration only if all its points lie inside the 5% image border margin. Corner refinement never reads outside the image and its smoothing kernel and fit are those of the polynomial saddle model.',
 ['inputs','configurations'],'every image size, every set of points, every window size',
 'No runnable test detects anything; boundary comparisons and out-of-range reads need particular positions.',
 [S+'Camera.cpp',S+'McCalib.cpp',S+'geometrytools.cpp',I+'point_refinement.h'],[('checkBorderToleranceFisheye, initializeCalibration',S+'Camera.cpp'),('detectBoardsInImageWithCamera',S+'McCalib.cpp'),('calcLinePara',S+'geometrytools.cpp'),('initConeSmoothingKernel, interpolatePatch, saddleSubpixelRefinement',I+'point_refinement.h')])
prop('C18','Non-overlapping groups are linked by consistent hand-eye input',
 'For two camera groups without common view, the pair of objects seen together most often is selected, the hand-eye calibration receives for each used frame the two poses of the same frame in corresponding order, all drawn pose indices are valid for every number of poses, a candidate is accepted only if every pair of its motions agrees in rotation angle, and when the robust variant has too few poses the fallback still uses both pose lists.',
 ['inputs','schedules'],'every number of poses and frames and every random draw',
 'No runnable test reaches hand-eye calibration; random draws and small counts are not sampled.',
 [S+'geometrytools.cpp',S+'McCalib.cpp'],[('handeyeCalibration, handeyeBootstraptTranslationCalibration and helpers',S+'geometrytools.cpp'),('findPairObjectForNonOverlap, initNonOverlapPair, findPoseNoOverlapAllCamGroup',S+'McCalib.cpp')])
prop('C19','Saved results describe the computed calibration',
 'The saved camera file contains, for every camera of every group, its camera matrix, distortion, lens type, image size, group and pose; the saved object file lists for every object each point with its coordinates, board and point identifiers; the saved pose and error files contain one entry per observation; and saved detections, when loaded back, give the same cameras, frames, boards, corner identifiers and pixel positions.',
 ['inputs','histories'],'every number of groups, cameras, objects and observations',
 'No runnable test reads an output file; omissions appear only with several groups or objects.',
 [S+'McCalib.cpp'],[('saveCamerasParams, save3DObj, save3DObjPose, saveReprojectionErrorToFile, saveDetectedKeypoints, loadDetectedKeypoints',S+'McCalib.cpp')])
prop('C20','Concurrent detection records the same data as sequential detection',
 'Detecting boards with several cameras and several worker threads records the same set of board observations as detecting them one after the other, whatever the thread schedule.',
 ['schedules'],'every interleaving of the detection threads',
 'The runnable tests start no detection thread.',
 [S+'McCalib.cpp'],[('detectBoards, detectBoardsWithCamera, insert_new_board_lock_',S+'McCalib.cpp')])
prop('C21','The calibration recovers the true camera setup',
 'Given sufficiently many noise-free observations that connect all cameras, the whole pipeline converges to the true intrinsics and extrinsics up to the choice of the reference frame.',
 ['inputs'],'all camera rigs and observation sets with sufficient connectivity',
 'The end-to-end test needs an absent image dataset and only samples a few rigs.',
 [S+'McCalib.cpp'],[('runCalibrationWorkflow',S+'McCalib.cpp')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
print(len(P))
