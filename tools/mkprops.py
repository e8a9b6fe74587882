#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
M = "McCalib/src/McCalib.cpp"
A = "apps/calibrate/src/calibrate.cpp"

p("C01", "Board detection does not depend on workers, interleaving or the clock",
  "For a given set of images and configuration, the detected keypoints (which board points are seen by which camera in which frame, and where, as exported to the keypoints file) are the same whatever the number of worker threads, the order in which the workers run or are preempted, and the clock. Detection always terminates, and every board that is sufficiently and cleanly visible is reported exactly once, with the right camera, frame, board and point identities and at its true position.",
  ["schedules", "inputs", "configurations"],
  "All image sets (several cameras, frames and boards), all worker counts, all interleavings of the detection workers and all clock behaviours.",
  "The detection test runs once with whatever schedule the OS gives it and compares with one stored result; a lost, duplicated or swapped board under another interleaving or another worker count is never exercised.",
  [M, "McCalib/src/Board.cpp", "McCalib/include/point_refinement.h"],
  [("thread pool per camera, one task per image", M + ":detectBoardsWithCamera"),
   ("mutex around the shared board/frame/camera tables", M + ":detectBoardsInImageWithCamera/insertNewBoard"),
   ("frame number = rank of the image in the sorted listing", M + ":detectBoards")],
  ["detected_keypoints_data.yml"],
  [("frames_, cams_obs_, board_observations_", "shared detection tables", M + ":insertNewBoard")])

p("C02", "A bad image costs only its own observations",
  "When any subset of the images (including the first ones of a camera) cannot be opened or is empty or truncated, detection does not crash or hang, and the keypoints of all other images and the recorded image size are exactly those of a run without the fault. An image that cannot be read contributes no observation, and no other frame is renumbered.",
  ["fault_sequences", "schedules"],
  "All sets of images failing at every open (missing, unreadable, permission, I/O error, zero length, truncated), combined with all worker interleavings.",
  "The existing tests only read the complete, intact data sets; no image is ever missing or damaged.",
  [M], [("unreadable image is logged and skipped", M + ":detectBoardsInImageWithCamera"),
        ("image size taken per camera", M + ":detectBoardsWithCamera")],
  ["detected_keypoints_data.yml"])

p("C03", "Saved keypoints reload to exactly the same observations",
  "Resuming from a saved keypoints file gives exactly the observations that were saved: the same cameras, image sizes, frames, image paths, boards, point identities and coordinates, so that saving them again reproduces the same file and a calibration started from the file is the calibration one gets from the images. This holds for any mix of cameras, boards and frames, including cameras or frames without any detection.",
  ["inputs", "histories"],
  "All sets of observations (sparse and dense, any frame numbers, per-board sizes) and save/load histories of any length.",
  "The tests load one stored keypoints file or save once; they never compare a reload with what was saved, and never with gaps, empty cameras or uneven boards.",
  [M], [("keypoints writer", M + ":saveDetectedKeypoints"), ("keypoints reader", M + ":loadDetectedKeypoints")],
  ["detected_keypoints_data.yml", "calibrated_cameras_data.yml"])

p("C04", "A torn or damaged keypoints file is never silently used",
  "If the keypoints file given for resuming is incomplete (for instance left behind by a crash or a full disk while it was being written, or truncated at any byte, or with a missing camera entry, lists of unequal length or an index of a board or a corner that does not exist), the calibration reports an error, ends with a failure status, and writes no result. It never computes a calibration from a silently reduced or misaligned set of observations.",
  ["crash_points", "fault_sequences"],
  "All prefixes of the keypoints file, all crash points of the saving process, all removals of list entries or camera blocks, and all indices out of range.",
  "No test ever interrupts a save or damages a file; consistency of the lists is only checked by assertions that release builds compile out.",
  [M, A], [("reader validates the lists", M + ":loadDetectedKeypoints"), ("failure reaches the exit status", A + ":main")],
  ["exit status", "calibrated_cameras_data.yml"])

p("C05", "Missing or damaged initial intrinsics are reported, not replaced by garbage",
  "When the user asks to start from a camera-parameters file and that file is missing, truncated, lacks a camera or one of its parameters, or holds values that are no numbers or a focal length that is not positive, the calibration reports an error, ends with a failure status and writes no camera parameters. It never goes on with undefined, zero or partially filled intrinsics.",
  ["fault_sequences", "crash_points", "inputs"],
  "All prefixes of the camera-parameters file, missing files and directories, missing camera entries and missing or mis-sized matrices.",
  "The tests only use complete parameter files; uninitialised memory usually happens to be harmless in a single run.",
  [M, "McCalib/src/Camera.cpp", A], [("reader of initial intrinsics", M + ":initializeCalibrationAllCam"), ("intrinsics container", "McCalib/src/Camera.cpp:setIntrinsics")],
  ["exit status", "calibrated_cameras_data.yml"])

p("C06", "A result that could not be written is never reported as success",
  "If any result file cannot be created or completely written (missing permission, I/O error, disk full at any point of the writing, even temporarily), the program ends with a failure status. Conversely, whenever it ends with success, every result file exists and is complete.",
  ["fault_sequences", "crash_points"],
  "All result files, all failing opens, and a disk that is full from (or between) any write onwards.",
  "The tests always write to a healthy temporary directory; write failures are never injected and the exit status is never looked at.",
  [M, A], [("result writers", M + ":saveCamerasParams/save3DObj/save3DObjPose/saveReprojectionErrorToFile/saveDetectedKeypoints"), ("exit status", A + ":main")],
  ["exit status", "save_path/*.yml"])

p("C07", "An overlapping rig is recovered whatever the random draws and sensor faults",
  "For a rigid rig whose cameras are linked by shared views of the boards, the exported intrinsics, distortion and camera poses (relative to the reference camera) match the true ones within the accuracy the pixel noise allows, for every configuration of distortion models, boards and rotation averaging. This holds for every outcome of the internal random draws, and when frames, boards or cameras drop out, as long as the rig stays linked and well observed (every used view fixes its pose within the configured RANSAC threshold, every camera has several of them, no fisheye view lies at the extreme edge of the lens).",
  ["inputs", "configurations", "fault_sequences"],
  "All well-conditioned rigs and board arrangements, both distortion models and their mixtures, all random streams, and frame / board / camera dropouts, stalls and occlusions.",
  "The tests run a handful of stored scenes once each; every run depends on random draws, so one passing run says nothing about other draws, rigs or dropouts.",
  [M, "McCalib/src/CameraGroup.cpp", "McCalib/src/CameraGroupObs.cpp", "McCalib/src/Camera.cpp", "McCalib/src/geometrytools.cpp", "McCalib/include/OptimizationCeres.h", "McCalib/src/Graph.cpp"],
  [("intrinsic initialisation on a random subset", "McCalib/src/Camera.cpp:initializeCalibration"),
   ("pairwise poses averaged and chained along shortest paths", M + ":initInterTransform/initCameraGroup"),
   ("bundle adjustment", "McCalib/src/CameraGroup.cpp")],
  ["calibrated_cameras_data.yml"])

p("C08", "Cameras without common view are placed correctly through hand-eye calibration",
  "For groups of cameras that never see the same boards but watch rigidly linked boards over enough varied common motion, the exported camera poses place all cameras in one group with the true relative poses, with either hand-eye approach, for every outcome of the internal random draws and in the presence of dropped frames, provided that each view fixes its pose within the configured RANSAC threshold. If there are too few common frames the groups stay separate and each is still correct on its own.",
  ["inputs", "configurations", "fault_sequences"],
  "All arrangements of two or more non-overlapping groups with sufficient common motion (including large rotations between the groups), all random streams, both approaches, and frame dropouts down to too few frames.",
  "The tests contain a few stored non-overlapping scenes run once; the clustering, sampling and fallback paths depend on random draws and on the number of common frames.",
  [M, "McCalib/src/geometrytools.cpp"],
  [("hand-eye bootstrap with clustering, consistency check and fallback", "McCalib/src/geometrytools.cpp:handeyeBootstraptTranslationCalibration"),
   ("direct hand-eye", "McCalib/src/geometrytools.cpp:handeyeCalibration"),
   ("group merging along shortest paths", M + ":mergeCameraGroup")],
  ["calibrated_cameras_data.yml"])

p("C09", "Every camera is exported exactly once, in the group its links put it in",
  "Every camera that contributed observations appears exactly once in the exported camera parameters, with its own image size and distortion type, and two cameras are in the same exported group exactly when a chain of shared views or of sufficient common motion links them. The first camera of each group is the reference with identity pose, and the number of groups agrees across the result files.",
  ["inputs", "configurations", "fault_sequences"],
  "All observation patterns: any number of groups and cameras, linked or not, cameras or boards dropping out entirely.",
  "The stored scenes all end in one group containing every camera; several remaining groups or silent cameras never occur in the tests.",
  [M, "McCalib/src/Graph.cpp"],
  [("connected components of the co-visibility graphs", "McCalib/src/Graph.cpp"),
   ("camera export", M + ":saveCamerasParams"), ("group merge", M + ":mergeCameraGroup")],
  ["calibrated_cameras_data.yml", "reprojection_error_data.yml"])

p("C10", "Every observed board is exported once, rigid and truly placed in its object",
  "Every observed board appears in exactly one exported 3D object with each of its points exactly once, in the dimensions given by the configuration and rigid. Boards are in the same object exactly when shared views (in one camera or across an already linked camera group) connect them, and their relative placement within the object matches the true one within the accuracy the noise allows, provided that every used view fixes its pose within the configured RANSAC threshold.",
  ["inputs", "configurations", "fault_sequences"],
  "All board arrangements (including boards never seen together, per-board sizes and subsets of board indices), observation patterns, random streams and dropouts.",
  "The tests only check object error on a few stored scenes, with equal boards and a fully linked object.",
  [M, "McCalib/src/Object3D.cpp", "McCalib/src/Board.cpp"],
  [("objects from connected boards", M + ":init3DObjects"), ("object merging", M + ":mergeObjects"), ("object export", M + ":save3DObj"), ("structure refinement", "McCalib/src/Object3D.cpp:refineObject")],
  ["calibrated_objects_data.yml"])

p("C11", "The result files of a run agree and account for every observation once",
  "The exported camera parameters, objects, object poses, reprojection errors and keypoints of one run describe the same calibration: every kept observation of an object by a camera in a frame has exactly one exported pose and exactly one list of errors with one entry per kept keypoint, and reprojecting the exported object with its exported pose (given in the frame of the reference camera) through the exported cameras reproduces these errors. No observation is duplicated, lost or attributed to another camera, frame or group.",
  ["inputs", "histories", "fault_sequences"],
  "All observation patterns with one or several groups and objects, with outliers and dropouts.",
  "The tests check only the camera poses and an average error; the other result files are never read back or compared.",
  [M, "McCalib/src/CameraGroup.cpp", "McCalib/src/Object3DObs.cpp"],
  [("object observation bookkeeping", M + ":init3DObjectObs/mergeAllObjectObs"), ("error export", M + ":saveReprojectionErrorToFile"), ("pose export", M + ":save3DObjPose")],
  ["all result files"])

p("C12", "With fixed intrinsics, the given intrinsics come out unchanged",
  "When intrinsics are supplied and fixed, the exported camera matrix and distortion of every camera are exactly the supplied ones, for every distortion model mixture, rig and random outcome, while the poses are still estimated correctly with them. When they are not fixed, starting from approximate intrinsics converges to the true ones, provided that every used view fixes its pose within the configured RANSAC threshold.",
  ["inputs", "configurations"],
  "All supplied intrinsics, distortion model mixtures, rigs, dropouts and random streams.",
  "One stored scene at most uses a parameter file, and its output intrinsics are not compared exactly.",
  [M, "McCalib/src/Camera.cpp", "McCalib/src/CameraGroup.cpp"],
  [("fix_intrinsic switch", A + ":runCalibrationWorkflow, " + M + ":initIntrinsic"), ("intrinsics loading", M + ":initializeCalibrationAllCam")],
  ["calibrated_cameras_data.yml"])

p("C13", "Gross outliers are rejected and do not bend the result",
  "When the calibration starts from approximately known intrinsics and every view fixes its pose within the configured RANSAC threshold, a minority of grossly wrong keypoints within the board detections does not change the calibration beyond what the noise explains: after the run none of the gross outliers is among the kept keypoints, the consistent keypoints are kept (up to the few that the noise takes over the rejection threshold), and camera intrinsics, camera poses and objects keep their accuracy. This holds for every outcome of the random draws.",
  ["inputs", "fault_sequences"],
  "All placements of a minority of gross outliers over points, boards, frames and cameras, scattered or moved coherently; all random streams.",
  "The stored scenes are clean; outlier rejection is never challenged and its random sampling is exercised once.",
  ["McCalib/src/BoardObs.cpp", "McCalib/src/Object3DObs.cpp", "McCalib/src/geometrytools.cpp", M],
  [("RANSAC pose estimation and pruning", "McCalib/src/geometrytools.cpp:ransacP3P/ransacP3PDistortion, McCalib/src/BoardObs.cpp:estimatePose"), ("robust loss and median averaging", "McCalib/src/CameraGroup.cpp, " + M + ":initInterTransform")],
  ["calibrated_cameras_data.yml", "detected_keypoints_data.yml", "reprojection_error_data.yml"])

p("C14", "Debug overlays never harm the calibration and show the right images",
  "Asking for detection or reprojection overlay images changes none of the numerical results, and an overlay is written exactly for those camera/frame images that have observations and can still be read, under that camera and frame number and showing that image with marks at the keypoints. Images that have disappeared, or that a camera never took, cost only their own overlay.",
  ["fault_sequences", "inputs", "configurations"],
  "All subsets of images that vanish or become unreadable between detection and overlay writing, and all patterns of cameras missing frames.",
  "The tests run with overlays off, so the overlay code and the missing-image paths never run.",
  [M], [("overlay writers", M + ":saveReprojectionImages/saveDetectionImages")],
  ["save_path/Detection", "save_path/Reprojection", "result files"])

p("C15", "Interrupted and repeated runs leave no trace in later results",
  "After a run was killed at any point of its writing, or simply when the save directory already holds results of another calibration, a new run with the same save directory produces the same result files as in a fresh directory. No run modifies or deletes its inputs (images, configuration, supplied keypoints and intrinsics), even when it is killed; an input that lies in the save directory under the name of a result is replaced by the complete new result or not at all.",
  ["crash_points", "histories", "fault_sequences"],
  "All crash points during a run and all histories of earlier complete or interrupted runs in the same directory.",
  "Tests start from a clean state and are never killed half-way.",
  [M, A], [("result writers", M + ":writeResultFile"), ("save directory creation", M + ":Calibration")],
  ["save_path/*", "input directories"])

p("C16", "With the same inputs and random draws the results are identical",
  "Given the same detected keypoints, configuration and supplied intrinsics and the same outcomes of the random device, two runs write the same result files byte for byte, whatever the clock, the number of processor cores, the state of uninitialised memory and the address layout. Nothing in a result depends on anything but the inputs, the configuration and the random draws.",
  ["inputs", "schedules", "histories"],
  "All scenes, random streams, clock behaviours (including frozen and jumping backwards), core counts and contents of fresh memory.",
  "Tests never run twice and compare; reads of uninitialised memory or clock-dependent behaviour usually stay within their tolerances.",
  [M, "McCalib/src/geometrytools.cpp", "McCalib/src/Camera.cpp", "McCalib/src/CameraGroup.cpp"],
  [("all draws go through the random device", "McCalib/src/geometrytools.cpp, McCalib/src/Camera.cpp"), ("ordered containers and single-threaded solvers", "McCalib/src/CameraGroup.cpp")],
  ["all result files"])

p("C17", "The board configuration is honoured for every board",
  "Each board is detected and reconstructed with its own configured geometry: the number of squares, the square size and the resolution given per board apply to exactly that board, also when only a subset of board indices is used and in any order. The points, identities and dimensions of one board never depend on the settings of another.",
  ["configurations", "inputs"],
  "All combinations of per-board sizes, square counts and board index subsets and orders.",
  "The stored scenes use equal boards numbered from zero.",
  ["McCalib/src/Board.cpp", M, "McCalib/src/utilities.cpp"],
  [("per-board parameters", "McCalib/src/Board.cpp:Board, " + M + ":Calibration"), ("charuco boards with disjoint markers", "McCalib/src/utilities.cpp:createCharucoBoards")],
  ["detected_keypoints_data.yml", "calibrated_objects_data.yml"])

p("C18", "The generated boards are the boards that the calibration detects",
  "The board images written by the board generator for a configuration are the boards that the calibration looks for with the same configuration: every page holds one board with the number of squares, the resolution and the marker numbers of its index, no marker is shared between boards, and every page, printed and photographed, is detected completely and under its own index. The generator reports success only when every page has been written completely; after a failed or interrupted run, running it again gives the same pages as a run in a fresh directory.",
  ["configurations", "crash points", "faults"],
  "All board configurations (equal boards, per-board numbers of squares and resolutions in any combination), all write faults and crash points of the generator.",
  "No test runs the generator, and no test detects a board that it wrote.",
  ["apps/create_charuco_boards/src/create_charuco_boards.cpp", "McCalib/src/utilities.cpp", "McCalib/src/Board.cpp"],
  [("page generation", "McCalib/src/utilities.cpp:createCharucoBoardsImages"), ("boards with disjoint markers", "McCalib/src/utilities.cpp:createCharucoBoards"),
   ("writing the pages", "apps/create_charuco_boards/src/create_charuco_boards.cpp:saveBoards")],
  ["charuco_boards/charuco_board_*.bmp", "exit status of generate", "detected_keypoints_data.yml"])

p("C19", "An incomplete or contradictory configuration is refused, not guessed",
  "When the configuration file is not given, does not exist, cannot be read, is torn, lacks a setting that has no natural default (number of cameras, of boards unless their indices are listed, of squares and square size unless given per board, lens model unless given per camera, marker proportions, detection and RANSAC parameters), holds a count or size that is not positive, an unknown lens model or a negative board index, or a per-board or per-camera list that is too short, the program ends with a failure status, without crashing or hanging, and writes no result. Leaving out settings that have no influence, or extra list entries nobody needs, changes no result.",
  ["inputs", "faults", "configurations"],
  "All configurations and all ways to damage them: missing settings, truncation at any byte, impossible values, short lists, read failures of any of the times the file is opened.",
  "The tests read a handful of complete configurations.",
  [M, "McCalib/src/Board.cpp", A],
  [("reading the configuration", M + ":Calibration::Calibration"), ("reading the geometry of a board", "McCalib/src/Board.cpp:Board::Board"), ("existence of the file", A + ":main")],
  ["exit status of calibrate", "the save directory"])

p("C20", "Degenerate or starving sensor data end in a result or a reported error",
  "Whatever the sensors deliver - boards reduced to a few, collinear, coinciding or far away points, frozen or nearly silent cameras, views without partner, one to a few frames, wrong keypoints, no board at all - and whatever the RANSAC threshold and the point share of a board, the calibration ends without crash, hang or deadlock. When it reports success all five result files exist and are readable, and no intrinsic parameter, camera pose, object point or object pose in them is infinite or not a number.",
  ["inputs", "faults", "histories"],
  "All sets of observations a detection stage can deliver, with all random draws.",
  "The stored scenes are good calibration sequences; degenerate estimates (singular systems, empty sets, divergence) never occur in them.",
  ["McCalib/src/geometrytools.cpp", "McCalib/src/Camera.cpp", M, "McCalib/src/CameraGroup.cpp"],
  [("pose of a board from few points", "McCalib/src/geometrytools.cpp:ransacP3P"), ("intrinsics from few or degenerate views", "McCalib/src/Camera.cpp:initializeCalibration"),
   ("groups without common objects", M + ":findPairObjectForNonOverlap")],
  ["exit status of calibrate", "all result files"])

p("C21", "Running out of memory never passes for a completed calibration",
  "When a memory allocation of the program or of the libraries it computes with fails - any one, a few in a row, or all from some point on, small or large - the run ends with a failure status, or it ends with success and every result is the one of the undisturbed run (with images as input, apart from images that could not be loaded). It never hangs, and no stage that could not be completed is passed over.",
  ["faults", "crash points", "inputs"],
  "All allocations of a run as the place of the failure, all sizes, all stages from detection to saving, all scenes.",
  "No test lets an allocation fail.",
  ["apps/calibrate/src/calibrate.cpp", M, "McCalib/src/CameraGroup.cpp", "McCalib/src/Camera.cpp", "McCalib/src/geometrytools.cpp"],
  [("errors of all stages reach the exit status", "apps/calibrate/src/calibrate.cpp:main"), ("optimisation stages", M + ":refineAllCameraGroupAndObjectsAndIntrinsic"),
   ("detection workers", M + ":boardExtraction")],
  ["exit status of calibrate", "all result files"])

# not decided with this technique (see MANIFEST not_applicable)
p("C30", "Rotation averaging is invariant to order, sign and representation",
  "The average of a set of rotations is independent of their order and of the representation (sign of the quaternion, 2-pi wraps of the rotation vector), and equals the common rotation when all agree.",
  ["inputs"], "All non-degenerate sets of rotations.",
  "The unit tests use a few fixed sets.",
  ["McCalib/src/geometrytools.cpp"], [("median and quaternion averages", "McCalib/src/geometrytools.cpp:getAverageRotation")], ["return value"])
p("C31", "Projection and undistortion are inverse of each other for both lens models",
  "Projecting a point and undistorting its image returns the viewing ray for all points within the valid field of view, for both lens models.",
  ["inputs"], "All valid intrinsics and image points.",
  "Unit tests use a few values.",
  ["McCalib/src/geometrytools.cpp", "McCalib/include/OptimizationCeres.h"], [("projection", "McCalib/src/geometrytools.cpp:projectPointsWithDistortion")], ["return value"])
p("C32", "Shortest paths minimise the sum of edge weights",
  "For every weighted graph the path returned between two connected vertices has the minimal sum of weights, and connected components partition the vertices.",
  ["inputs"], "All finite weighted graphs.",
  "Unit tests use a few small graphs with integer weights.",
  ["McCalib/src/Graph.cpp"], [("Dijkstra", "McCalib/src/Graph.cpp:shortestPathBetween")], ["return value"])
p("C34", "The Python helpers read back what the calibration exports",
  "The plotting and evaluation scripts interpret the exported files with the same conventions (pose direction, point order, group numbering) with which they are written.",
  ["inputs"], "All exported result files.",
  "There are no tests for the scripts.",
  ["python_utils"], [("yml readers", "python_utils")], ["plots and printed errors"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
