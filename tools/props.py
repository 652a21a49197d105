LOGREAL = ["3rd/log4cpp (all of it, instrumented)", "libstdc++ strings and streams used by it", "C library formatting"]
LOGSTUB = ["thread scheduler", "mutex/condition/once primitives", "clock", "file system under /sim", "heap (checked arena)"]
PROPS = {
 "P01": dict(groups=["log4cpp"], quick_s=40, thorough_s=420,
   rule="Each run draws a category tree, levels, additivity, destinations (custom, queue, stream, file; layouts, thresholds, filter chains) and per-thread logging plans over all logging entry points, then a schedule with preemption at memory accesses, conflicts and lock operations.",
   real=LOGREAL, stub=LOGSTUB, must_reach=["messages-delivered"],
   assumptions=["each destination is attached to one category", "messages given with a printf format are without NUL"]),
 "P02": dict(groups=["log4cpp"], quick_s=40, thorough_s=420,
   rule="Each run draws threads that create categories, set, clear and query levels, list categories and use fixed-context categories (first scenario), or one thread changing levels while others log (second), under a seeded schedule.",
   real=LOGREAL, stub=LOGSTUB, must_reach=["judged-calls"],
   assumptions=["in-flight judgement uses one level-changing thread; the quiescent scenario uses up to four"]),
 "P03": dict(groups=["log4cpp"], quick_s=40, thorough_s=420,
   rule="Each run draws controller threads that attach (owned or by reference), detach, re-attach, list and sweep destinations, and logger threads; the recorded attach, detach, log and delivery intervals are checked afterwards.",
   real=LOGREAL, stub=LOGSTUB, must_reach=["judged-deliveries"],
   assumptions=["a destination is attached to one category at a time", "an owned destination is not named again after a sweep may have destroyed it"]),
 "P04": dict(groups=["log4cpp"], quick_s=40, thorough_s=420,
   rule="Each run draws record lengths, size limit, backup count, incarnations and logger threads over a simulated disk, and one of: clean restarts, a process kill at a chosen system call (torn or not), a directory refusing renames, short/interrupted/failing writes and a full disk, or reopening after the file was moved.",
   real=LOGREAL, stub=LOGSTUB, must_reach=["rotations", "crash-points", "crash-with-backups", "write-short", "write-eintr", "process-crash", "disk-full", "rename-fail", "reopened"],
   assumptions=["at least one backup is kept", "what the operating system accepted survives the death of the process"]),
 "P05": dict(groups=["log4cpp", "utUtil"], quick_s=30, thorough_s=300,
   rule="Each run draws host, port, facility, message lengths around the datagram limit, priorities and logger threads, and refuses datagrams, name resolution or socket creation.",
   real=LOGREAL, stub=LOGSTUB + ["UDP network, resolver and system log"], must_reach=["split-messages", "sendto-fail", "socket-fail", "resolve-fail"],
   assumptions=["the network delivers what sendto accepted"]),
 "P06": dict(groups=["log4cpp", "utUtil"], quick_s=30, thorough_s=300,
   rule="Each run draws one to three configuration files (destinations, layouts, thresholds, levels, variables, long lines, comments), damages some (cut, lost line, replaced value, changed byte, missing, read error), loads them in turn while threads may be logging, and logs probe messages whose arrival at every file and stream is compared with an independent model of the format.",
   real=LOGREAL + ["src/utUtil/Logging.cpp"], stub=LOGSTUB + ["terminal streams"], must_reach=["configured", "fallback", "read-eio", "read-short"],
   assumptions=["destination types console, file and rolling file; layouts basic, simple, pattern"]),
 "P07": dict(groups=["log4cpp", "utUtil", "utMath", "utMeasurement"], quick_s=30, thorough_s=300,
   rule="Each run draws a measurement type, format (text, binary, with time stamp), values (integers, extremes, denormals, random bit patterns) and a fault style: short and interrupted writes, failing or full disk, failing close or open, a kill at a system call while overwriting, or threads saving and loading at once; the loaded value is compared bit by bit.",
   real=["src/utUtil/CalibFile.h", "src/utMath and src/utMeasurement types", "Boost.Serialization archives", "libstdc++ file streams"], stub=LOGSTUB, must_reach=["round-trips", "save-reported", "crash-points", "rejected-after-crash", "write-short", "write-eio", "disk-full", "close-eio", "process-crash"],
   assumptions=["text files hold finite numbers", "a text file cut inside its very last number cannot be told from a shorter number"]),
 "P08": dict(groups=["log4cpp", "utUtil", "utMath", "utMeasurement"], quick_s=30, thorough_s=300,
   rule="Each run saves a random value of a random type and format, damages the file (cut, emptied, bytes or numbers replaced, block lost, rubbish, other type, other format, read errors, missing) and loads it into heap memory with red zones.",
   real=["src/utUtil/CalibFile.h", "src/utMath and src/utMeasurement types", "Boost.Serialization archives", "libstdc++ file streams"], stub=LOGSTUB, must_reach=["rejected", "accepted", "read-eio", "read-short"],
   assumptions=["damage that leaves a well-formed file of the same type cannot be detected"]),
 "P09": dict(groups=["log4cpp", "utUtil", "utMath", "utMeasurement", "utSerialization"], quick_s=30, thorough_s=300,
   rule="Each run draws one to three links, each with a protocol (text, binary, msgpack), a sequence of values or time-stamped measurements of random types, and a fragmentation of the byte stream; the receiver reads after each fragment, also too early, or reads damaged copies (bytes changed, fragments lost, duplicated, reordered, rubbish, another type) into red-zoned memory.",
   real=["src/utSerialization (front end, archive and msgpack formats)", "src/utMath and src/utMeasurement types", "Boost.Serialization", "msgpack-cxx"], stub=["thread scheduler", "byte-stream transport", "heap (checked arena)"], must_reach=["messages", "incomplete-read", "rejected", "bytes-changed", "fragment-lost", "fragment-duplicated", "fragments-reordered"],
   assumptions=["archives carry measurements that have a value", "text archives carry finite numbers", "damage that leaves a well-formed message of the same type cannot be detected"]),
 "P10": dict(groups=["log4cpp", "utUtil"], quick_s=30, thorough_s=300,
   rule="Each run draws line settings, the bytes a device sends and the program transmits, buffer sizes and fault rates (short, interrupted and failing reads and writes, failing queries), and runs device, reader and writer threads under a seeded schedule in simulated time; or a sequence of control operations (flush, break, query, read).",
   real=["src/utUtil/SerialPort.cpp (POSIX part)"], stub=["terminal device, termios and descriptor table", "thread scheduler", "clock"], must_reach=["bytes-in", "bytes-out", "reported", "tty-read-short", "tty-write-short", "tty-read-eio", "tty-write-eio", "tty-read-eintr", "ioctl-fail"],
   assumptions=["the line delivers what the driver accepted", "the POSIX implementation, not the Windows one"]),
 "P11": dict(groups=["log4cpp", "utUtil"], quick_s=30, thorough_s=300,
   rule="Each run draws a history of creating, opening, using, closing and destroying ports, with unplugging and replugging, failing open, tcgetattr, tcsetattr, read, write and close, and descriptors opened by other components in between; after every step the descriptor table and the line settings are compared with a model.",
   real=["src/utUtil/SerialPort.cpp (POSIX part)"], stub=["terminal device, termios and descriptor table", "thread scheduler", "heap (checked arena)"], must_reach=["opened", "open-failed", "restored", "used-closed", "used-open", "recovered", "unplugged", "tcgetattr-fail", "tcsetattr-fail", "open-eio"],
   assumptions=["one port object per device", "the POSIX implementation, not the Windows one"]),
 "P12": dict(groups=["log4cpp", "utUtil", "utMeasurement"], quick_s=30, thorough_s=300,
   rule="Each run draws a sensor clock (unit, true and assumed rate), sampling period and irregularity, jitter bound, and a fault style: late messages, pauses, lost, duplicated and reordered messages, or a step of the local clock; every converted time stamp is compared with the true time.",
   real=["src/utMeasurement/TimestampSync.cpp", "src/utMeasurement/Timestamp.cpp"], stub=["clock", "sensor and message delivery", "thread scheduler"], must_reach=["steady-conversions", "gap-conversions", "steps-followed", "late-message", "pause", "message-lost", "message-duplicated", "messages-reordered", "clock-step"],
   assumptions=["the sensor clock runs at a constant rate within a factor of 0.7 to 1.5 of the assumed one", "late messages (at most 5 percent) occur only after the first 200 and not together with pauses"]),
 "P13": dict(groups=["log4cpp", "utUtil", "utMeasurement"], quick_s=24, thorough_s=240,
   rule="Each run draws threads that sleep for random times (including nanosecond parts above one second) with interruptions by signals, read the clock and the performance counter while simulated time advances, print dates, or time blocks.",
   real=["src/utUtil/OS.cpp", "src/utMeasurement/Timestamp.cpp", "src/utUtil/BlockTimer.cpp"], stub=["clock and nanosleep", "thread scheduler"], must_reach=["sleeps", "clock-reads", "dates", "timed-runs", "sleep-eintr"],
   assumptions=["the clock is not set back while a counter or timer is running", "one thread per timer"]),
 "P14": dict(groups=["log4cpp", "utUtil", "utMath", "utMeasurement", "utTracking"], quick_s=40, thorough_s=400,
   rule="Each run draws a motion model, process noise, a moving object and a suite of pose, rotation and rotation velocity sensors whose messages are delayed, lost, duplicated, reordered or paused, and feeds the arrivals to a filter; the position part is compared step by step with an exact filter in extended precision, noise-free motion must be followed, and repeating a history at another time or on another thread must give the same bits.",
   real=["src/utTracking/PoseKalmanFilter.cpp", "src/utTracking/LinearPoseMotionModel.h", "src/utTracking/Function", "src/utMath/Stochastic/Kalman.h", "src/utMath/Stochastic/CovarianceTransform.h", "src/utMath/ErrorPose.cpp", "system LAPACK and BLAS"], stub=["sensors and message delivery", "thread scheduler"], must_reach=["orientations-compared", "turned round", "steps-compared", "tracked", "histories-repeated", "predictions", "out-of-order", "message-lost", "message-delayed", "message-duplicated", "pause"],
   assumptions=["orientation derivatives of order at most one, as the code documents", "measurement covariance without correlation between position and orientation where the exact filter is compared"]),
 "P15": dict(groups=["log4cpp", "utUtil", "utMath", "utMeasurement", "utTracking"], quick_s=30, thorough_s=300,
   rule="Each run draws a rotating object and rotation and rotation velocity sensors whose messages are delayed, lost, duplicated, reordered or paused, and feeds the arrivals to a filter; noise-free constant rotation must be followed, noisy estimates stay near the truth, predictions agree with state and velocity for times before and after the last measurement, and repeating a history at another time or on another thread gives the same bits.",
   real=["src/utTracking/RotationOnlyKf.cpp", "src/utTracking/Function/QuaternionTimeUpdate.h", "src/utMath/Stochastic/Kalman.h", "src/utMath/Stochastic/CovarianceTransform.h", "system LAPACK and BLAS"], stub=["sensors and message delivery", "thread scheduler"], must_reach=["tracked", "noisy-runs", "histories-repeated", "predicted", "predicted-back", "out-of-order", "message-lost", "message-delayed", "message-duplicated", "pause"],
   assumptions=["rotation speeds up to about 1.7 rad/s, sensor periods from 10 to 300 ms"]),
 "P16": dict(groups=["log4cpp", "utUtil", "utMath", "utMeasurement", "utTracking", "utAlgorithm"], quick_s=22, thorough_s=240,
   rule="Each run draws robust estimation problems (number of values, set size, inliers wanted, runs allowed, threshold, container kind), the random sets drawn by the code, distances of every hypothesis to every value including NaN, infinity and the threshold itself, and failures of the estimator; every call of estimator and evaluator is recorded and the outcome compared with a model; real orientation and tool tip problems carry gross outliers.",
   real=["src/utMath/Optimization/Ransac.h", "src/utAlgorithm/PoseEstimation3D3D", "src/utAlgorithm/ToolTip", "system LAPACK and BLAS"], stub=["C random number generator", "thread scheduler", "estimator and evaluator callbacks (abstract problems only)"], must_reach=["consensus", "no-consensus", "spread", "poses", "tips", "parameters", "final-failed", "estimator-failed", "gross-outlier"],
   assumptions=["at least one inlier is asked for and not more than there are values", "sets are not larger than the number of values"]),
 "P17": dict(groups=["log4cpp", "utUtil", "utMath", "utMeasurement", "utTracking", "utAlgorithm"], quick_s=22, thorough_s=240,
   rule="Each run moves the random generator to a drawn state, draws data (spread, duplicated, clustered, equal, on a line, on a grid), clusters it with random or given starting points, selects elements or pairs of hand-eye movements, grows a hand-eye calibration batch by batch, or draws random values, and judges the outcome: nearest centroid, finite values inside the data, decreasing distances, an independent model of the iteration, members of the data only.",
   real=["src/utMath/Stochastic/k_means.h", "src/utMath/Random/Scalar.h", "src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp", "src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h"], stub=["state of the random generator", "data"], must_reach=["clustered", "fewer-clusters", "compared", "empty-cluster", "selected", "movements", "incremental", "fewer-movements", "generators"],
   assumptions=["more elements than clusters", "the random generator of pose selection is advanced by earlier selections only"]),
 "P18": dict(groups=["log4cpp", "utUtil", "utMath", "utMeasurement", "utTracking", "utAlgorithm"], quick_s=22, thorough_s=240,
   rule="Each run draws a true hand-eye rotation and a stream of eye and hand movements (small or large, exact or noisy) that are lost, duplicated, reordered or sign-flipped on the way, feeds them to the online calibration or the calibration filter, alone or with others on further threads, and compares every intermediate result with the solution of the same measurements in extended precision and the final one with the truth.",
   real=["src/utAlgorithm/OnlineRotHec.cpp", "src/utAlgorithm/RotationHecKalmanFilter.cpp", "src/utAlgorithm/Function/RotHecFunction.h", "src/utMath/Stochastic/Kalman.h", "src/utMath/Stochastic/CovarianceTransform.h", "system LAPACK and BLAS"], stub=["measurement delivery", "thread scheduler"], must_reach=["steps-compared", "found", "filter-steps", "filter-found", "message-lost", "message-duplicated", "messages-reordered", "sign-flipped"],
   assumptions=["the true rotation turns by at most 2.5 rad (half a turn cannot be represented by the method)", "movements of 0.2 to 2.9 rad"]),
 "P19": dict(groups=["log4cpp", "utUtil", "utMath", "utMeasurement", "utTracking", "utAlgorithm"], quick_s=22, thorough_s=240,
   rule="Each run draws a true pose, rotation, scale, tool tip or hand-eye transformation and the exact measurements it implies; measurements are lost, duplicated and reordered and quaternions change sign on the way, then the calibration runs, alone or with other calibrations on further threads, and its result is compared with the truth. Assignments are compared with the best of all permutations.",
   real=["src/utAlgorithm/PoseEstimation3D3D", "src/utAlgorithm/PoseEstimation6D6D", "src/utAlgorithm/ToolTip", "src/utAlgorithm/Correlation.cpp", "src/utMath/Graph/Munkres.h", "src/utMath/Optimization/LevenbergMarquardt.h", "system LAPACK and BLAS"], stub=["measurement delivery", "thread scheduler"], must_reach=["right", "absolute orientation", "absolute orientation, refined", "rotation from points", "scale", "tool tip", "tool tip, refined", "hand-eye, dual quaternions", "hand-eye, Tsai-Lenz", "hand-eye, Tsai-Lenz from matrices", "correlation", "assignment", "message-lost", "message-duplicated", "messages-reordered"],
   assumptions=["enough measurements in general position remain (5 points, 5 or 6 poses)", "hand-eye rotations of at most 2.5 rad; the dual quaternion method may report that it found nothing"]),
 "P20": dict(groups=["log4cpp", "utUtil", "utMath", "utMeasurement", "utTracking", "utAlgorithm"], quick_s=27, thorough_s=240,
   rule="Each run draws true cameras, bodies and points and the exact images they give; observations are lost, duplicated and reordered on the way, then the estimation runs, alone or with others on further threads, and its result is compared with the truth.",
   real=["src/utAlgorithm/Homography.cpp", "src/utAlgorithm/FundamentalMatrix.cpp", "src/utAlgorithm/Projection.cpp", "src/utAlgorithm/PoseEstimation2D3D", "src/utAlgorithm/3DPointReconstruction.cpp", "src/utAlgorithm/LensDistortion.cpp", "src/utAlgorithm/CameraLens", "src/utAlgorithm/BundleAdjustment.cpp", "src/utAlgorithm/MultipleCameraPoseOptimization.cpp", "system LAPACK and BLAS"], stub=["measurement delivery", "thread scheduler"], must_reach=["right", "homography", "homography of a square", "fundamental matrix", "fundamental matrix from poses", "camera pose from fundamental matrix", "projection matrix", "projection decomposed", "camera pose, planar", "camera pose, from projection", "camera pose, refined", "camera pose, orthogonal iteration", "point from two cameras", "point from many cameras", "points matched between cameras", "lens distortion and back", "camera lens correction and back", "bundle adjustment", "pose from many cameras", "poses of several bodies", "message-lost", "messages-reordered"],
   assumptions=["cameras see the points from 3 to 6 times their extent, in general position", "lens distortion of at most 10 % at the image border", "orthogonal iteration may report that it found nothing"]),
 "P21": dict(groups=["log4cpp", "utUtil"], quick_s=22, thorough_s=180,
   rule="Each run fills a simulated directory with files and directories of drawn names, lists it with named or own patterns in a drawn directory order, while another process adds and removes files, while calls fail, or while memory runs out, and compares the list with a model of the directory.",
   real=["src/utUtil/GlobFiles.cpp", "src/utUtil/Exception.cpp", "system boost filesystem and regex"], stub=["file system", "thread scheduler", "heap"], must_reach=["listed", "listed-directories", "nothing-found", "failure-reported", "changed", "missing-path", "out-of-memory", "stat-fail", "readdir-eio"],
   assumptions=["a file system error may be reported with the exception of the file system library"]),
 "P22": dict(groups=["log4cpp", "utUtil", "utMath"], quick_s=22, thorough_s=180,
   rule="Each run draws a smooth least-squares problem, solver, weighting, normalization and limits; evaluations are recorded and fail, return NaN or infinity or are undefined beyond a border at drawn points, or memory runs out; the result is compared with the recorded evaluations and, for linear problems, with the exact solution. Several optimizations on threads are compared with the same ones run alone.",
   real=["src/utMath/Optimization/LevenbergMarquardt.h", "src/utMath/Optimization/Optimization.h", "src/utMath/Optimization/TukeyWeightFunction.h", "system LAPACK and BLAS"], stub=["problem evaluation", "thread scheduler", "heap"], must_reach=["optimized", "improved", "linear-solved", "failure-passed-on", "out-of-memory", "evaluation-nan", "evaluation-inf", "repeated-in-parallel"],
   assumptions=["the problem is defined at the starting parameters"]),
 "P23": dict(groups=["tinyxml"], quick_s=22, thorough_s=200,
   rule="Each run draws a document as a plain tree and takes it through building, editing, printing in five ways, parsing from memory, file or stream, saving and loading under file faults, damage to the text, allocation failures, or several threads; a reader and a writer of our own judge what is printed and produce what is parsed, with the position of every node.",
   real=["3rd/tinyxml/tinyxml.cpp", "3rd/tinyxml/tinyxmlparser.cpp", "3rd/tinyxml/tinyxmlerror.cpp", "3rd/tinyxml/tinyxml.h", "C stdio buffering"], stub=["file system", "heap", "thread scheduler"], must_reach=["roundtrip", "foreign-style", "byte-order-mark", "edit", "saved", "save-failure-reported", "loaded", "load-failure-reported", "cut-off-noticed", "damage-noticed", "damage-tolerated", "out-of-memory", "documents-in-parallel"],
   assumptions=["white space between words is condensed (the default)", "nesting is limited (the parser recurses)", "a document is used by one thread at a time"]),
 "P24": dict(groups=["log4cpp", "utUtil", "utMath", "utMeasurement", "utAlgorithm"], quick_s=30, thorough_s=240,
   rule="Each run draws one of sixteen families of estimations with its input and runs it alone, again, with a drawn allocation failing once or from then on, and once more; or several on threads under a drawn schedule, optionally with one allocation failing somewhere.",
   real=["src/utAlgorithm", "src/utMath", "system LAPACK and BLAS"], stub=["heap", "thread scheduler"], must_reach=["out-of-memory", "undisturbed", "one-failed"],
   assumptions=["LAPACK and BLAS allocate no memory of their own"]),
 "P25": dict(groups=["log4cpp", "utUtil", "utMath", "utMeasurement", "utTracking", "utAlgorithm"], quick_s=30, thorough_s=240,
   rule="Each run draws noisy measurements for one of two dozen estimations and runs it on them as they are, reordered, all delivered twice, or with one lost, alone or beside others on further threads. Results are compared with each other, with averages and deviations computed in extended precision, and with what a small step in every parameter would leave.",
   real=["src/utAlgorithm", "src/utMath/Stochastic/Average.h", "src/utMath/Stochastic/Correlation.h", "src/utMath/Optimization/LevenbergMarquardt.h", "system LAPACK and BLAS"], stub=["measurement delivery", "thread scheduler"], must_reach=["any-order", "twice", "every-one-counts", "best-fit", "exact", "absolute orientation", "absolute orientation, refined", "rotation from points", "scale", "pose residual and covariance", "tool tip", "tool tip, refined", "tool tip error", "hand-eye, dual quaternions", "hand-eye, Tsai-Lenz", "homography", "fundamental matrix", "projection matrix", "camera pose, from projection", "camera pose, planar", "camera pose, refined", "point from many cameras", "point from many cameras, refined", "correlation", "average of numbers", "average of positions", "average of positions with covariance", "average of rotations", "average of poses", "average of poses with covariance"],
   assumptions=["noise of at most a few percent of the extent of the data", "enough measurements in general position remain"]),
 "P26": dict(groups=["log4cpp", "utUtil", "utMath", "utMeasurement", "utTracking", "utAlgorithm"], quick_s=30, thorough_s=240,
   rule="Each run draws sources of noise (of full, lower or no rank) and a chain of operations on uncertain poses, a function of uncertain numbers, a stream of measurements of a state (lost and repeated at random), or cameras seeing some of the points, alone or on several threads. Every noise source is disturbed in turn, and what arrives at the end is compared with the covariance the library reports.",
   real=["src/utMath/ErrorPose.cpp", "src/utMath/Stochastic", "src/utMath/Optimization/Function", "src/utAlgorithm/Function", "src/utAlgorithm/PoseEstimation2D3D", "src/utTracking/Function"], stub=["noise sources", "measurement delivery", "thread scheduler"], must_reach=["uncertainty-right", "inverted", "moved before", "moved after", "combined", "inverted and combined", "additive", "point moved", "part of a state", "part of the state measured", "function of the state measured", "propagated back, different", "propagated back, equal", "propagated back, correlated", "seen by one camera", "seen by several cameras", "pose of an image", "pose of measured points", "at once"],
   assumptions=["noise small enough for first order propagation, which the library documents"]),
 "P27": dict(groups=["log4cpp", "utUtil", "utMeasurement"], quick_s=20, thorough_s=180,
   rule="Each run draws threads that create, copy, clone, re-stamp, invalidate, cast, print, assign, swap and drop measurements and hand them to each other through mail boxes (messages lost, repeated and reordered at random), or one measurement shared by everybody, or a failing allocation, under a seeded schedule. Every handle's time and payload and every payload's owners are modelled.",
   real=["src/utMeasurement/Measurement.h", "src/utMeasurement/Timestamp.cpp", "boost::shared_ptr"], stub=["mail boxes", "heap", "thread scheduler"], must_reach=["created", "copied", "cloned", "clone changed", "stamped", "invalidated", "cast", "sent", "delivered", "printed", "printed invalid", "assigned", "assigned to itself", "dropped", "all gone", "shared by several", "out-of-memory"],
   assumptions=["one handle is used by one thread at a time; different handles of one payload by any"]),
 "P28": dict(groups=["log4cpp", "utUtil", "utMath"], quick_s=25, thorough_s=180,
   rule="Each run draws samples of up to four clouds in two to four dimensions (lost, repeated, reordered and with gross outliers at random) and a starting mixture and fits it, or estimates one normal distribution of plain, weighted or labelled samples, alone or on several threads.",
   real=["src/utMath/Stochastic/expectation_maximization.h", "src/utMath/Stochastic/Gaussian.h", "src/utMath/Functors/MatrixFunctors.h", "system LAPACK and BLAS"], stub=["sample delivery", "thread scheduler"], must_reach=["likelihood", "fitted", "fitted with outliers", "several components", "estimated", "estimated with weights", "estimated with labels", "at once", "outlier"],
   assumptions=["samples in units of about their extent (the code takes a determinant below 1e-10 as degenerate)", "exact steps are compared unless a component degenerates or the decision to stop is a tie"]),
 "P30": dict(groups=["log4cpp", "utUtil", "utMath", "utMeasurement"], quick_s=25, thorough_s=180,
   rule="Each run draws a uniformly moving body whose measurements arrive late, lost, repeated, reordered and with quaternions of either sign, and interpolates them at drawn times or computes its velocity and extrapolates; or a rotation (none, tiny, half a turn, axes aligned, any) and a chain of parties that pass it on in changing representations, each with sign changes and rounding; alone or by several readers at once under a seeded schedule.",
   real=["src/utMath/Quaternion.cpp", "src/utMath/Quaternion.h", "src/utMath/Pose.cpp", "src/utMath/ErrorPose.cpp", "src/utMath/RotationVelocity.h", "src/utMath/Vector.h", "src/utMeasurement/Measurement.h"], stub=["measurement delivery", "thread scheduler"], must_reach=["rotation", "pose", "uncertain pose", "position", "pose of a list", "at a measurement", "the shorter way", "velocity", "velocity, backwards", "matrix", "pose matrix", "logarithm", "axis and angle", "axis and angle, single precision", "four numbers", "seven numbers", "additive errors", "Euler angles", "Euler angles, x y z", "Euler angles, y z x", "Euler angles, z x y", "Euler angles, z y x", "Euler angles, x z y", "Euler angles, y x z", "no rotation", "hardly any rotation", "turned round", "axes aligned", "at once"],
   assumptions=["quaternions of length one up to rounding", "the body turns by less than half a turn between two measurements held (else the shorter way is checked)"]),
}
