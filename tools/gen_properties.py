#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is readable and diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

EKF = "src/ekf/ekf.cpp"; TY = "src/ekf/types.cpp"; UPD = "src/ekf/update/"
MH = "src/utility/math_helper.cpp"; GH = "src/utility/gps_helper.cpp"; TH = "src/utility/type_helper.cpp"
EST = [("estimate and covariance", "the public state estimate and (root-)covariance of the filter")]

p("C01", "Covariance stays finite, symmetric, PSD and matched to the state layout",
  "After every operation of any filter history the covariance (or, in square-root mode, factor^T factor) is finite, symmetric, positive semi-definite and has exactly one row and column per estimated state element. The state blocks (body, IMUs, GPS, cameras, fiducials, clones) have indices that tile the state vector in that order without gap or overlap, and the reported sizes, counts and starts agree with it. All estimates stay finite and all rotation estimates stay unit length.",
  ["histories", "configurations"], "all interleavings of registration, initialisation, prediction, camera frames, window changes and IMU/GPS/fiducial/visual updates, for every augmentation type, root/standard form, first-estimate flag and sensor mix",
  "the unit tests run a few operations on one configuration each and check single values, never the invariants over a history",
  [EKF, TY, UPD + "updater.cpp"], [("index refresh", EKF + ": RefreshIndices"), ("covariance insertion and removal", MH)], EST, ["after every public filter operation"])
p("C02", "Prediction applies constant-acceleration kinematics and the matching covariance",
  "Predicting to a later time dt ahead, once gravity is initialised, moves velocity by (acceleration minus gravity) dt (not at all when zero acceleration is asserted), then position by the new velocity times dt, rotates the orientation by exp(angular rate dt) in the local frame, and touches no other estimate. The covariance becomes F (P + Q dt) F^T with F the position/velocity transition and Q the configured process noise of the body and the stability of every calibrated sensor, in both covariance forms.",
  ["inputs", "histories", "configurations"], "all states, time steps, process noises and sensor mixes reachable in a history",
  "the prediction test checks one hand-computed step with no sensors",
  [EKF], [("prediction", EKF + ": PredictModel, GetStateTransition"), ("process noise", EKF + ": RefreshIndices")], EST, ["around every prediction"])
p("C03", "Filter time never runs backwards; late data never changes the filter",
  "The filter's time never decreases, equals the time of the last accepted prediction, and time is reported relative to the first measurement time the filter ever received. Predicting to a time that is already past changes neither estimate, covariance nor clock. Before gravity is initialised prediction advances only the clock.",
  ["histories", "schedules"], "all arrival orders of measurement times, including duplicates and arbitrarily late ones",
  "tests feed increasing times only",
  [EKF], [("clock", EKF + ": PredictModel, CalculateLocalTime, Initialize")], EST, ["around every call that carries a time"])
p("C04", "A Kalman update is the optimal linear update and never adds uncertainty",
  "For every measurement model, residual and noise the update moves the state by the Kalman gain times the residual (additively, and by right-multiplied rotation increments), and the new covariance equals the Joseph form of the prior covariance. No direction of the state becomes more uncertain, and state elements uncorrelated with the measurement do not change.",
  ["inputs"], "all prior covariances, Jacobians, residuals and positive-definite measurement noises, in both covariance forms",
  "the update tests check a single small matrix",
  [UPD + "updater.cpp"], [("update", UPD + "updater.cpp: KalmanUpdate")], EST, ["around the update entry point"])
p("C05", "Square-root and standard forms of the filter agree",
  "The same history of operations run in square-root and in standard covariance mode yields the same estimates and the same covariance up to round-off, and takes the same accept/reject decisions.",
  ["histories", "configurations"], "all operation histories and configurations",
  "no test compares the two modes over more than one operation",
  [EKF, UPD + "updater.cpp", UPD + "imu_updater.cpp", UPD + "msckf_updater.cpp"],
  [("root branches", EKF), ("root update", UPD + "updater.cpp: KalmanUpdate")], EST, ["after every operation of paired runs"])
p("C06", "Registering a sensor inserts exactly its states and prior covariance",
  "Registering an IMU, GPS antenna, camera or fiducial board, in any order and with any identifiers, adds that sensor's calibrated states with the given values and prior covariance block, uncorrelated with everything else. Every other estimate and every other covariance entry is preserved, addressed by the state it belongs to, and a sensor without calibrated states adds none.",
  ["histories", "inputs", "configurations"], "all registration orders, identifiers, calibration flags, and states of the filter at registration",
  "tests register sensors in ascending identifier order on a fresh filter only",
  [EKF], [("registration", EKF + ": RegisterIMU, RegisterGPS, RegisterCamera, RegisterFiducial")], EST, ["around every registration"])
p("C07", "Clone window: exact clones, exact marginalisation, bounded, right interpolation",
  "A cloned body pose equals the current pose with the current pose's covariance and cross-covariances, and dropping a clone only deletes its own states and covariance rows and columns. The window never holds more than the configured number of frames per camera (or the configured duration), clones are ordered in time, created only when the configured policy demands it, and only unneeded ones are dropped. Looking up a pose returns the clone of that frame, or the interpolation between the two clones around that time.",
  ["histories", "configurations"], "all augmentation policies, frame schedules over several cameras, window lengths (changed at run time) and covariance forms",
  "tests add a few frames for one camera and check sizes",
  [EKF], [("augmentation", EKF + ": AugmentStateIfNeeded, AugmentCovariance"), ("lookup", EKF + ": GetAugState"), ("policy", EKF + ": SetMaxTrackLength")], EST, ["around every camera frame and window change"])
p("C08", "State and vector forms of the estimate agree element by element",
  "The vector form of a state lists every estimated element once, at the position the covariance uses for it, and has the reported size. Adding an increment vector changes exactly the elements it addresses, additively or by a rotation increment, and setting a state from a vector reads it back unchanged.",
  ["inputs", "configurations"], "all sensor sets, identifiers, calibration flags and clone windows, and all increment vectors",
  "tests use one IMU/camera with fixed numbers, usually with all flags on",
  [TY], [("vector conversions", TY)], EST, ["around every conversion and increment"])
p("C09", "Rotation conversions are exact inverses over their whole domain",
  "Rotation vector, quaternion, Rodrigues, roll-pitch-yaw and matrix conversions return unit quaternions or proper rotations, and composing a conversion with its inverse gives the same rotation back, for every angle including zero, tiny and close to pi. Conversions between lists, vectors and matrices keep every value in its place; the skew matrix is the cross product, and the rotation Jacobian is the right Jacobian of the exponential map.",
  ["inputs"], "all rotations, magnitudes and signs",
  "tests check a handful of axis-aligned angles",
  [MH, TH, "src/utility/math_helper.hpp"], [("conversions", TH), ("averaging, skew, errors", MH)], None, ["at each helper call"])
p("C10", "Geodetic conversions are mutually inverse and match WGS-84",
  "Conversion between latitude/longitude/altitude and earth-centred, ENU and local coordinates follows the WGS-84 ellipsoid, and each conversion composed with its inverse returns the input to sub-millimetre accuracy. This holds everywhere on earth including the poles' vicinity, the antimeridian and high altitudes, for every reference point and heading.",
  ["inputs"], "all latitudes, longitudes, altitudes, references and headings",
  "tests check one location",
  [GH], [("conversions", GH)], None, ["at each helper call"])
p("C11", "Matrix helpers insert, remove, compress and project exactly",
  "Inserting or removing a block leaves all other entries in order and unchanged; measurement compression preserves the information (H^T H, H^T r) of the measurement; the left-nullspace projection yields a measurement independent of the feature position with orthonormal rows. Statistics helpers (mean, weighted mean, standard error, largest horizontal distance, lower bounding, sign) return the textbook values.",
  ["inputs"], "all matrix sizes, positions, ranks and values",
  "tests check one or two fixed small matrices",
  [MH, "src/utility/math_helper.hpp"], [("matrix helpers", MH)], None, ["at each helper call"])
p("C12", "GPS reference initialisation recovers the true local-to-earth alignment",
  "From GPS fixes and matching body positions, with any heading and reference, the least-squares alignment of the two tracks gives the reference location and heading, exactly so for noise-free data. The reference is adopted only once the configured criterion (given reference, baseline distance, or estimated error below its thresholds with enough fixes) is met, and never changes on its own afterwards.",
  ["inputs", "histories", "configurations"], "all trajectories, headings, reference locations and initialisation policies",
  "tests use one straight track with a fixed reference",
  [EKF, MH, GH], [("initialisation", EKF + ": AttemptGpsInitialization"), ("alignment", MH + ": kabsch_2d, affine_angle")], [("GPS reference", "reference location, heading and initialised flag")], ["after every GPS fix"])
p("C13", "A GPS update compares the antenna's predicted local position with the fix",
  "Each GPS fix taken once the reference is known produces exactly one Kalman update whose residual is the fix in the local frame minus (body position plus rotated antenna offset), with the exact derivative of that prediction and the fix's noise (in first-estimate mode the derivative is taken at the antenna position of the receiver's first update; the residual never is). Before the reference is known no fix updates the filter; the collected fixes are applied once, as one batch, when it becomes known. The antenna offset changes only if it is calibrated.",
  ["inputs", "histories", "configurations"], "all body poses, antenna offsets, references, headings, noise levels, with and without calibration, in both covariance forms",
  "the updater test runs one fix near the origin with identity attitude",
  [UPD + "gps_updater.cpp", "src/sensors/gps.cpp"], [("update", UPD + "gps_updater.cpp")], EST, ["around every GPS callback"])
p("C14", "IMU updates: model, stationary detection and bias/extrinsic isolation",
  "Until gravity is initialised every IMU measurement is applied as a stationary one; afterwards a measurement consistent with gravity and zero rate is applied as stationary until the IMU has detected motion, and one that is inconsistent is never treated as stationary. A stationary update compares the IMU with gravity and zero rate, correcting tilt and biases; a moving single IMU drives the body acceleration and rate through its mounting and biases; several IMUs are compared with the body motion at each IMU's location. Jacobians are the derivatives of the predictions, and calibration states change only if enabled.",
  ["inputs", "histories", "configurations"], "all attitudes, mountings, biases, rates, noise levels, IMU counts and roles, in both covariance forms",
  "tests use identity mounting and attitude",
  [UPD + "imu_updater.cpp", "src/sensors/imu.cpp"], [("update", UPD + "imu_updater.cpp")], EST, ["around every IMU callback"])
p("C15", "Fiducial updates compare predicted and observed board pose consistently",
  "A detected board whose observed pose equals the pose predicted from body, camera and board estimates changes no estimate and never increases uncertainty. For any observed pose the residual is the position difference and the rotation vector of measured times inverse predicted rotation, the Jacobian is its derivative (in first-estimate mode, at the calibration of the first update), the noise is the detection's stated variances, and only the camera's clone of that frame, the board and calibrated states are used.",
  ["inputs", "histories", "configurations"], "all poses, extrinsics, boards, noise levels, with and without clones and calibration",
  "the updater test runs one geometry with identity rotations",
  [UPD + "fiducial_updater.cpp"], [("update", UPD + "fiducial_updater.cpp")], EST, ["around every detection"])
p("C16", "Visual features: projection, distortion, triangulation and update are consistent",
  "Projecting a feature seen by the estimated poses through the distortion (plumb-bob) and camera model predicts its pixels, the Jacobian is the derivative of that prediction (in first-estimate mode, at the camera calibration of the first update), and triangulation recovers the point from noise-free tracks. A track consistent with the estimated poses leaves the estimate unchanged and adds no uncertainty; the update uses the feature-independent part of the residuals with the configured pixel noise. Observations from frames outside the window and features that cannot be triangulated within the depth limits are not used.",
  ["inputs", "histories", "configurations"], "all camera intrinsics, poses, points and tracks",
  "tests use one synthetic geometry with fixed numbers",
  [UPD + "msckf_updater.cpp"], [("triangulation and update", UPD + "msckf_updater.cpp")], EST, ["around every track update"])
p("C17", "Simulated truth motion is self-consistent and honours its configuration",
  "In every truth trajectory velocity is the derivative of position, acceleration of velocity, and orientation is a unit rotation whose derivatives are the reported rates; the vehicle stands still at its start pose for the configured stationary time. Spline trajectories pass through the configured waypoints in order, recorded trajectories are interpolated linearly, cyclic ones follow the configured sinusoids, and every time in the simulation yields finite values.",
  ["inputs", "configurations"], "all times, frequencies, amplitudes, offsets, waypoint sets and stationary times",
  "tests sample a few times of one configuration",
  ["src/infrastructure/sim/truth_engine_cyclic.cpp", "src/infrastructure/sim/truth_engine_spline.cpp", "src/infrastructure/sim/truth_engine.cpp"],
  [("trajectory", "src/infrastructure/sim/truth_engine_*.cpp")], None, ["at every truth query"])
p("C18", "Simulated sensors measure the truth through the configured model",
  "Simulated IMU, GPS, camera and tracker messages come at the configured rate over the run with the right sensor identity and increasing frame numbers; with errors off they equal the exact measurement of the truth state through the sensor's true extrinsics and biases. With errors on, deviations have the configured standard deviation, the stated noise is the configured one, and the same seed gives the same messages. Simulated feature tracks are the pixels of the true points, handed over when no longer seen or at the maximum length.",
  ["inputs", "configurations"], "all rates, extrinsics, biases, noise settings, seeds and trajectories",
  "tests check message counts for one configuration",
  ["src/sensors/sim/sim_imu.cpp", "src/sensors/sim/sim_gps.cpp", "src/sensors/sim/sim_camera.cpp", "src/trackers/sim/sim_feature_tracker.cpp", "src/trackers/sim/sim_fiducial_tracker.cpp"],
  [("message generation", "src/sensors/sim, src/trackers/sim")], None, ["over every generated message list"])
p("C19", "Data logs are complete, parseable, rate limited and report the filter",
  "Every data log is a rectangular table whose header names every column, holds one row per logged event in the order of the events and, when a rate is set, at most that many rows per second while never dropping a row that is due, including the first. Logged values and covariances are those of the filter at that time, in either covariance form; with logging off no file is written.",
  ["histories", "configurations"], "all log rates, event times, sensor configurations and covariance forms",
  "the logger test writes a few lines and only checks that the calls return",
  ["src/infrastructure/data_logger.cpp", TH], [("logger", "src/infrastructure/data_logger.cpp"), ("row formatting", "src/utility/string_helper.cpp")], [("log files", "the CSV files in the configured directory")], ["over the files after each run"])
p("C20", "Debug log keeps exactly the messages at or above the configured level",
  "A message is written, once, whole, in order and tagged with its level (information to standard output, warnings and errors to standard error) if and only if its level is enabled. Setting any level, in or out of range, is safe; loggers are independent of each other, and the log level never changes what the filter computes.",
  ["schedules", "histories", "inputs"], "all level settings, message sequences and sets of loggers",
  "tests log a few messages and check nothing about what was written",
  ["src/infrastructure/debug_logger.cpp", "src/infrastructure/debug_logger.hpp"], [("logger", "src/infrastructure/debug_logger.cpp")], [("debug log", "standard output and standard error")], ["over the process output of each run"])
p("C21", "Trackers and sensors keep identities, frames and tracks straight",
  "Every sensor and every tracker has a unique identity, sensors register their configured calibration with the filter, and every non-empty camera frame is delivered once, with a new increasing frame number, to every tracker of that camera and to no other. Feature tracks handed to the filter contain observations of one feature in consecutive frames, in frame order and in the camera's pixels, are within the configured lengths, and each observation is handed over at most once, after the feature was lost or reached the maximum. Board detections are the board's observed pose, and only when it was found.",
  ["histories", "configurations"], "all sequences of images, camera/tracker wirings and track lengths",
  "tests process two or three images and check no invariant",
  ["src/trackers/feature_tracker.cpp", "src/trackers/fiducial_tracker.cpp", "src/trackers/tracker.cpp", "src/sensors/camera.cpp", "src/sensors/sensor.cpp"],
  [("tracking", "src/trackers/feature_tracker.cpp"), ("dispatch", "src/sensors/camera.cpp")], None, ["at every camera callback"])
p("C22", "No memory error, undefined behaviour or abort on any accepted input",
  "No configuration whose lists have their documented lengths, and no sequence of measurements, images or trajectories, causes an out-of-bounds access, use of uninitialised values, undefined behaviour, failed assertion or endless loop. A complete configuration of plausible values runs to the end; damaged ones (missing keys, non-finite, zero, negative or extreme values, unknown names, zero noise, empty lists, huge gaps in time) either run, are refused with an error, or end in an exception, without corrupting memory.",
  ["inputs", "configurations", "histories"], "all simulator configurations and measurement sequences, including extreme ones",
  "the tests run uninstrumented on benign inputs",
  ["src"], [("whole pipeline", "src/application/sim/simulation.cpp")], None, ["the whole process under ASan/UBSan, checked containers, Eigen assertions and two fills of fresh memory"])
p("C23", "Whole simulations are reproducible and their estimates match the truth",
  "Running the simulator twice with the same configuration and seed gives identical logs, and the log level, the order of keys, topic names and sensors that are defined but not listed change no estimate. With exact measurements of one IMU (alone, or with GPS, feature tracking or a fiducial board) started at the true pose, the estimated position, velocity and orientation follow the truth. With noisy measurements of one IMU and aiding sensors the errors of the trajectory and of calibrated quantities (antenna, camera and board poses, IMU biases) stay within what the filter's own reported covariance allows, calibration never leaves a variance above its prior, and observable quantities become more certain.",
  ["configurations", "histories", "inputs"], "all configurations with one IMU and any aiding sensors, all seeds, covariance forms, rates and moderate errors; messages at equal times may be handled in any order, and accuracy is not claimed for several IMUs fused at once",
  "no test runs the simulator",
  ["src/application/sim/simulation.cpp", EKF, "src/ekf/update"], [("simulation main loop", "src/application/sim/simulation.cpp")], [("logs", "CSV logs of truth and estimate")], ["the logs of complete runs"])
p("C24", "The ROS node hands every sensor message to the filter unchanged",
  "Every message on a configured topic is converted without loss (time stamp, vectors, row-major covariances, latitude, longitude and altitude, image) and given exactly once, in the order of arrival, to exactly the sensors configured for that topic; messages of unknown topics or sensors change nothing. The sensors, their trackers and the filter carry all parameters that are set (a tracker those of its own camera), unset ones keep their documented defaults, and the filter ends in the state of one that was fed the same measurements directly. The timer publishes the current body state, every image is republished with the drawing of its trackers, and log messages appear verbatim with their own severity.",
  ["schedules", "configurations", "inputs"], "all parameter sets, topic wirings and orders of messages, including extreme contents",
  "the ROS code is not compiled by the build and has no tests",
  ["src/application/ros/node", "src/infrastructure/ros", "src/sensors/ros", "src/utility/ros_helper.cpp"], [("node", "src/application/ros/node/ekf_cal_node.cpp"), ("messages", "src/sensors/ros")], None, ["every publication, sensor callback and filter update"])
p("C25", "The evaluation tools run what is configured and report the errors of those runs",
  "run.py starts the simulator exactly once per configured run, each with its own existing log directory and with the given configuration unchanged except for what a Monte Carlo set is documented to vary (a distinct seed per run that depends only on the configured seed, consecutive run numbers) and the time given on the command line, never more at a time than asked, and keeps the output of each. stats.py and report.py then find the logs of exactly those runs and of every sensor in them, compare each log with the truth of its own run at the same time, leave out incomplete rows, and report the mean and deviation over the runs of the root mean square errors, and curves of the logged values, errors, variances and normalised errors that each have the values of the log at the times of the log.",
  ["configurations", "inputs"], "all experiment configurations, numbers of runs and jobs, sets of sensors and identifiers, incomplete logs and runs without some of the logs",
  "there are no tests for the tools",
  ["eval"], [("runs", "eval/run.py"), ("statistics", "eval/stats.py"), ("report", "eval/report.py")], None, ["every start of the simulator and every number written to the statistics and figures"])
p("C26", "The simulator builds the configured experiment and plays it back in order",
  "Every sensor listed in the configuration is created once with exactly the parameters of its section (rates, noise, extrinsics, intrinsics, error sizes, the trackers and boards it names, its own identity in them), and sensors that are not listed are not created; a camera naming an unlisted tracker or board is refused. A camera simulated without errors makes only its own tracker and board exact. The filter gets the configured process noise, cloning policy, window length, GPS initialisation, motion detection and covariance form, and the truth engine the configured motion and duration. The seed is set before anything random is drawn; the filter starts from the configured pose with errors of the configured size, and the truth from the configured reference likewise. Every generated message is delivered exactly once, to the sensor it belongs to, in non-decreasing time order.",
  ["configurations", "histories"], "all configuration files, sensor and tracker counts, motions and seeds",
  "no test runs the simulator's main function",
  ["src/application/sim/simulation.cpp"], [("main function", "src/application/sim/simulation.cpp")], None, ["construction of every object and delivery of every message"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
