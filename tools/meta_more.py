P("P04", "Log files keep every accepted line whole across rotation, restarts and faults",
  "A log file on disk holds exactly the lines handed to it, whole, in order and once each, when writes are short or interrupted, and after a failing or full disk it lacks at most the part of the lines the system refused, with later lines intact. A rotating log with at least one backup starts a new file once the live file has reached its size limit, shifts the older files up by one number, keeps the configured number of backups, and after a process kill at any system call (and any number of restarts) the files together still hold a contiguous run of records ending with the last one, each file beginning at a record boundary; a directory that refuses renames costs no line. Reopening a file while threads log loses no line and touches no other descriptor.",
  ["crash_points", "fault_sequences", "histories", "schedules"], "all record sequences, size limits, backup counts, restart histories, kill points and write, rename and open faults",
  "No existing test writes a log file, and none can kill the process inside a rotation or make a write fail.", [L + "FileAppender.cpp", L + "RollingFileAppender.cpp", L + "LayoutAppender.cpp", L + "Appender.cpp"],
  [("rotation by renaming", L + "RollingFileAppender.cpp rollOver"), ("append-mode writes", L + "FileAppender.cpp _append"), ("reopen", L + "FileAppender.cpp reopen")],
  "Seeded random search over crash points and fault sequences on a simulated disk.")
P("P05", "System log messages arrive complete, labelled and only where configured",
  "Every message handed to a remote or local system log destination arrives at the configured host, port, facility and identification, with the severity that belongs to its priority (whether the destination was constructed or set up by a configuration file, with defaults for what the file leaves out), split into datagrams no longer than the limit when it is long, in order, nothing lost or duplicated, whatever threads log at the same time. When name resolution, socket creation or sending fails, only the affected text is missing, the program continues, and no descriptor that belongs to another part of the program is used or closed.",
  ["schedules", "inputs", "fault_sequences"], "all hosts, ports, facilities, priorities, message lengths, logging schedules and network faults",
  "No existing test logs to a system log, and the failure paths need a resolver or socket that fails on demand.", [L + "RemoteSyslogAppender.cpp", L + "SyslogAppender.cpp"],
  [("datagram splitting", L + "RemoteSyslogAppender.cpp _append"), ("severity mapping", L + "RemoteSyslogAppender.cpp toSyslogPriority"), ("socket setup", L + "RemoteSyslogAppender.cpp open")],
  "Seeded random search; the network is a recording stub.")
P("P06", "Logging setup applies a configuration file exactly or falls back to stderr",
  "After logging was initialised from a usable configuration file, every message goes to exactly the files and console streams the file prescribes for its category, level, threshold and parent forwarding, in the prescribed line format, with existing log files kept or emptied as it says; later files replace the settings of the categories they name, also while other threads log. Environment variables are substituted, a rolling destination works as one constructed with the values of the file, and a file in the older simple format is applied command by command or its error is reported. When the file is missing, unreadable, fails while being read or contains an undefined destination, level, type, layout or pattern, initialisation still returns, and messages of information level and above (notice and above for the event category) from categories the file does not name appear once on standard error.",
  ["inputs", "configurations", "fault_sequences", "histories"], "all configuration texts including damaged and truncated ones, read faults, sequences of initialisations and concurrent logging",
  "The initialisation call is commented out in the test program; no test loads a configuration.", ["src/utUtil/Logging.cpp", L + "PropertyConfiguratorImpl.cpp", L + "Properties.cpp", L + "SimpleConfigurator.cpp", L + "PatternLayout.cpp", L + "Priority.cpp"],
  [("fallback on any configuration error", "src/utUtil/Logging.cpp initLogging"), ("property parsing", L + "Properties.cpp load"), ("category and destination set-up", L + "PropertyConfiguratorImpl.cpp")],
  "Seeded random search over generated and damaged files against an independent model of the format.")
CAL = ["src/utUtil/CalibFile.h", "src/utMath/CameraIntrinsics.h", "src/utMath/Vector.h", "src/utMath/Matrix.h", "src/utMath/Pose.h", "src/utMath/Quaternion.h", "src/utMath/ErrorPose.h", "src/utMath/ErrorVector.h", "src/utMeasurement/Measurement.h"]
P("P07", "A saved calibration loads back exactly or its failure is reported",
  "Saving a calibration (any measurement type, as text, binary or with its time stamp) either returns normally, and then loading it gives back every number bit for bit and the time stamp, or it reports the failure with the library's exception; slow, interrupted, failing or full disks and failing opens and closes included, and other threads may save and load other files meanwhile. When the process is killed at any point while a calibration is being overwritten, a later load yields the old value, the new value or an error, never a third value.",
  ["inputs", "fault_sequences", "crash_points", "schedules"], "all values of all measurement types, formats, write, close and open faults, kill points and concurrent savers",
  "No existing test writes a calibration file; the archive tests use memory streams that cannot fail.", CAL,
  [("write path", "src/utUtil/CalibFile.h writeCalibFile/writeBinaryCalibFile"), ("read path", "src/utUtil/CalibFile.h readCalibFile"), ("camera parameters", "src/utMath/CameraIntrinsics.h serialize")],
  "Seeded random search; a text file cut inside its very last number is excluded (it is a valid shorter number).")
P("P08", "Damaged or unreadable calibration files are rejected safely",
  "Loading a calibration file that is missing, unreadable, empty, cut short, rubbish or fails while being read reports the library's exception. A file damaged in any other way, or holding another type or format, either reports that exception or yields some well-formed value; it never corrupts memory, ends the program, hangs or raises an exception of another kind.",
  ["inputs", "fault_sequences"], "all damage to all calibration files of all types and formats, and read faults at any point",
  "No existing test loads a calibration file.", CAL,
  [("error translation", "src/utUtil/CalibFile.h readCalibFile"), ("bounded parameter lists", "src/utMath/CameraIntrinsics.h serialize")],
  "Seeded random search over damage; loads go into red-zoned memory.")
P("P09", "Measurements sent over a byte stream arrive unchanged or an error is raised",
  "A sequence of measurements or plain values written with any of the serialization protocols (text, binary, msgpack) and read back with the same protocol yields the same values and time stamps in the same order, however the byte stream is fragmented and whatever other links are active in other threads; converting a value to and from a msgpack object is lossless too. Reading a message of which bytes are still missing raises an exception, and damaged, reordered, duplicated or foreign bytes raise an exception or yield a well-formed value without corrupting memory.",
  ["inputs", "schedules", "fault_sequences"], "all values of all measurement types, protocols, message sequences, fragmentations and transport damage",
  "The archive tests send a handful of fixed values, one message per stream, complete and undamaged.", ["src/utSerialization/Serialization.h", "src/utSerialization/MsgpackSerializer.h", "src/utSerialization/BoostArchiveSerializer.h", "src/utSerialization/BaseSerializer.h"] + CAL[1:],
  [("protocol front end", "src/utSerialization/Serialization.h"), ("msgpack adaptors", "src/utSerialization/MsgpackSerializer.h"), ("archive format", "src/utSerialization/BoostArchiveSerializer.h")],
  "Seeded random search over message sequences, fragmentations and damage.")
SP = ["src/utUtil/SerialPort.cpp", "src/utUtil/SerialPort.h"]
P("P10", "Serial ports pass bytes unchanged, with the requested line settings",
  "An open serial port runs with the requested speed, data bits, parity, stop bits and read time-out and changes no byte. Whatever the timing, buffer sizes, short or interrupted transfers and failing calls, the bytes read are the bytes received, in order and once each, never more than the buffer holds; the count returned by sending is the number of bytes that reached the line; the number of waiting bytes is right; a failing read, write or query is reported with the library's exception and loses nothing. Reading and writing from two threads do not disturb each other, flushing discards what is waiting and a break is sent once.",
  ["schedules", "inputs", "fault_sequences"], "all line settings, byte sequences, buffer sizes, arrival times, schedules and device faults",
  "No existing test uses a serial port; there is no device in the test environment.", SP,
  [("line set-up", "src/utUtil/SerialPort.cpp open"), ("transfer", "src/utUtil/SerialPort.cpp read/send/bytesOnRead")],
  "Seeded random search against a simulated terminal device.")
P("P11", "Opening and closing serial ports leaks nothing and touches nothing else",
  "For every history of opening, using, closing, reopening and destroying serial ports, including devices that are unplugged and calls that fail half-way, an open port owns exactly one descriptor and a closed or failed one none, no descriptor is closed twice or used after closing, descriptors of other parts of the program are never touched, and closing restores the line settings found at opening. Using a closed port is reported or has no effect, opening an open port changes nothing, an unsupported speed is refused, and once faults stop the port can be opened and used again.",
  ["histories", "fault_sequences", "schedules"], "all histories of port operations, device failures and descriptor use elsewhere in the program",
  "No existing test uses a serial port, and descriptor reuse needs another component opening files in between.", SP,
  [("open and failure paths", "src/utUtil/SerialPort.cpp open"), ("close and destructor", "src/utUtil/SerialPort.cpp close")],
  "Seeded random search over operation histories against a model of the descriptor table.")
P("P12", "Converted sensor time stamps stay within the delivery jitter of the true time",
  "When time stamps of a sensor whose own clock runs at a constant rate are converted to the local clock, then after a warm-up every converted time lies between the true time of measurement and that time plus the message delay jitter, up to a small tolerance. This holds for every sampling period, true rate and delay sequence, with rare messages arriving arbitrarily late, or with lost, duplicated and reordered messages and moderate pauses; and after the local clock has been set the conversion follows within a bounded number of measurements. Sensors converted on different threads do not influence each other.",
  ["histories", "fault_sequences", "schedules"], "all sensor rates, delivery delays, losses, duplications, reorderings, pauses and clock steps",
  "No existing test converts time stamps; the guarantee concerns whole delivery histories.", ["src/utMeasurement/TimestampSync.cpp", "src/utMeasurement/TimestampSync.h", "src/utMeasurement/Timestamp.cpp"],
  [("time stamp synchronisation", "src/utMeasurement/TimestampSync.cpp convertNativeToLocal"), ("clock", "src/utMeasurement/Timestamp.cpp now")],
  "Seeded random search over delivery histories; the oracle is the simulated true time.")
P("P13", "Sleeping, clock reading and block timing agree with the clock",
  "Sleeping lasts at least the requested time for every combination of milliseconds and nanoseconds, however often signals interrupt it, and not noticeably longer. The current time lies between the clock readings before and after the call, the high performance counter and block timers measure the time that really passed and count every run, and printed dates and times are those of the given time stamp. All of this holds while other threads do the same.",
  ["schedules", "fault_sequences", "inputs"], "all durations, times, interruptions and interleavings",
  "The tests run on the real clock and cannot interrupt a sleep or choose the time.", ["src/utUtil/OS.cpp", "src/utMeasurement/Timestamp.cpp", "src/utUtil/BlockTimer.cpp", "src/utUtil/BlockTimer.h"],
  [("sleeping and counter", "src/utUtil/OS.cpp"), ("clock and printed times", "src/utMeasurement/Timestamp.cpp"), ("block timing", "src/utUtil/BlockTimer.cpp")],
  "Seeded random search under a simulated clock.")
KFF = ["src/utTracking/PoseKalmanFilter.cpp", "src/utTracking/PoseKalmanFilter.h", "src/utTracking/LinearPoseMotionModel.h", "src/utTracking/Function/PoseTimeUpdate.h", "src/utTracking/Function/InsideOutPoseTimeUpdate.h", "src/utMath/Stochastic/Kalman.h", "src/utMath/Stochastic/CovarianceTransform.h"]
P("P14", "The pose filter follows its motion model through any delivery of measurements",
  "Fed with pose, rotation and rotation velocity measurements that arrive late, out of order, twice, not at all or after pauses, the pose filter keeps a finite state, a unit orientation and a symmetric covariance with non-negative variances, and with uncorrelated measurement errors its position, derivatives and their covariance are those of the exact Kalman filter of the motion model. An object that moves as the motion model says is followed: after enough exact measurements the predicted pose is the true one. Predicting does not change the filter, is refused before the first measurement, and the result depends neither on the absolute time, the sign of quaternions nor on other filters running on other threads.",
  ["histories", "fault_sequences", "schedules"], "all measurement histories with loss, duplication, delay and reordering, all motion models and noise levels",
  "No existing test runs the pose filter.", KFF,
  [("filter", "src/utTracking/PoseKalmanFilter.cpp"), ("motion models", "src/utTracking/Function"), ("measurement update", "src/utMath/Stochastic/Kalman.h")],
  "Seeded random search; oracle is an exact filter in extended precision, the simulated true motion, and repetition of the history.")
P("P15", "The rotation filter follows constant rotation through any delivery",
  "Fed with rotation and rotation velocity measurements that arrive late, out of order, twice, not at all or after pauses, the rotation filter keeps a finite state with a unit rotation, and after enough exact measurements of a constantly rotating object the predicted rotation and the estimated velocity are the true ones. A prediction, for times before as well as after the last measurement, is the current rotation moved on by the current velocity and does not change the filter. The result depends neither on the absolute time, the sign of quaternions nor on other filters running on other threads.",
  ["histories", "fault_sequences", "schedules"], "all measurement histories with loss, duplication, delay and reordering",
  "No existing test runs the rotation filter.", ["src/utTracking/RotationOnlyKf.cpp", "src/utTracking/RotationOnlyKF.h", "src/utTracking/Function/QuaternionTimeUpdate.h", "src/utMath/Stochastic/Kalman.h"],
  [("filter and prediction", "src/utTracking/RotationOnlyKf.cpp"), ("time update", "src/utTracking/Function/QuaternionTimeUpdate.h")],
  "Seeded random search; oracle is the simulated true rotation and repetition of the history.")
P("P16", "Robust estimation returns the consensus whatever sets are drawn and fail",
  "For every sequence of random sets, every pattern of outliers and every failure of the estimator on a set, robust estimation (random sample consensus) makes at most the allowed number of runs, each on a set of the asked size taken from the given values with pairs kept together, and returns 0 unless some run had the required number of inliers closer than the threshold. Otherwise the result is the estimate from exactly the inliers of the best run, the returned number and inlier flags are theirs, and success is never reported when that estimation fails. Orientation and tool tip estimated from data with gross outliers are either reported as not found or right, and are found when enough runs are allowed.",
  ["histories", "fault_sequences", "inputs", "schedules"], "all random sets, outlier patterns, distances and estimator failures",
  "The outcome depends on the random sets; the tests sample few and never fail an estimation.", ["src/utMath/Optimization/Ransac.h", "src/utAlgorithm/PoseEstimation3D3D/Ransac.h", "src/utAlgorithm/ToolTip/Ransac.h"],
  [("robust estimation", "src/utMath/Optimization/Ransac.h"), ("orientation", "src/utAlgorithm/PoseEstimation3D3D/Ransac.h"), ("tool tip", "src/utAlgorithm/ToolTip/Ransac.h")],
  "Seeded random search; oracle is a model over the recorded calls of estimator and evaluator, and the true pose or tip.")
P("P17", "Clustering, selection and random values are valid for every draw",
  "For every state of the random generator and every layout of the data, including equal elements and starting centroids nothing belongs to, clustering gives each element the label of its nearest centroid, never more centroids than asked for, and as many as there are distinct elements allow; all centroids are finite, lie within the data unless empty, follow from averaging and reassigning, and never increase the sum of squared distances. Selected elements are members of the data, and selected hand-eye movements are movements of eye and hand between the same two measurements, none twice, and a calibration that grows batch by batch selects those nearest to the cluster centres and finds the true transformation from exact poses. Random values lie within the limits given and follow the distribution asked for; random rotations are unit rotations.",
  ["histories", "inputs"], "all states of the random generator and all data layouts",
  "The tests use one generator state and spread data.", ["src/utMath/Stochastic/k_means.h", "src/utMath/Random/Scalar.h", "src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp", "src/utAlgorithm/PoseEstimation6D6D/DataSelection.h", "src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h"],
  [("clustering and selection", "src/utMath/Stochastic/k_means.h"), ("movements", "src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp"), ("random values", "src/utMath/Random")],
  "Seeded random search; oracle is an independent model of the iteration and membership in the data.")
P("P18", "Online hand-eye rotation calibration equals the solution of all measurements",
  "Whatever eye and hand movements arrive, in any order, repeated, lost or with flipped quaternion signs, after every measurement the online hand-eye rotation calibration returns the least-squares solution of exactly the measurements seen so far, and the calibration filter keeps a finite unit rotation. With exact movements in at least two directions both give the true rotation. Calibrations on different threads do not influence each other.",
  ["histories", "fault_sequences", "schedules"], "all histories of movements with loss, duplication, reordering and sign flips",
  "No existing test runs the online calibrations.", ["src/utAlgorithm/OnlineRotHec.cpp", "src/utAlgorithm/RotationHecKalmanFilter.cpp", "src/utAlgorithm/Function/RotHecFunction.h"],
  [("online calibration", "src/utAlgorithm/OnlineRotHec.cpp"), ("calibration filter", "src/utAlgorithm/RotationHecKalmanFilter.cpp")],
  "Seeded random search; oracle is the least-squares solution in extended precision and the true rotation.")
P("P19", "Calibrations between coordinate frames give the truth whatever the delivery",
  "From exact measurements of which some are lost, repeated, out of order or have flipped quaternion signs, but enough in general position remain, absolute orientation, rotation, scale and their refinements, tool tip calibration and its refinement, and hand-eye calibration by dual quaternions and by the method of Tsai and Lenz give the true result; linear relations have correlation 1 or -1. Matching rows to columns of any cost matrix, square or not, gives an assignment of least cost. All of this holds while other calibrations run on other threads.",
  ["inputs", "fault_sequences", "schedules"], "all true poses and measurement sets, all losses, repetitions and orders, all interleavings of calibrations",
  "The tests use complete sets, with at most a few point counts, and one thread; matching is tested on no non-square matrix.", ["src/utAlgorithm/PoseEstimation3D3D", "src/utAlgorithm/PoseEstimation6D6D", "src/utAlgorithm/ToolTip", "src/utAlgorithm/Correlation.cpp", "src/utMath/Graph/Munkres.h"],
  [("orientation", "src/utAlgorithm/PoseEstimation3D3D"), ("tool tip", "src/utAlgorithm/ToolTip"), ("hand-eye", "src/utAlgorithm/PoseEstimation6D6D"), ("assignment", "src/utMath/Graph/Munkres.h")],
  "Seeded random search; oracle is the truth the measurements were made from, and enumeration of all assignments.")
P("P20", "Camera calibrations and poses from images give the truth whatever the delivery",
  "From exact images of which some are lost, repeated or out of order, but enough in general position remain, homography, fundamental matrix, projection matrix and its decomposition, camera pose (planar, from projection, by orthogonal iteration, refined, from the fundamental matrix), poses of bodies seen by many cameras, reconstructed and matched points and bundle adjustment give the true result, up to scale where only that is defined. Distorting an image point and correcting it gives the point back. All of this holds while other estimations run on other threads.",
  ["inputs", "fault_sequences", "schedules"], "all cameras, bodies and points, all lost, repeated and reordered observations, all interleavings of estimations",
  "The tests use complete sets and one thread, and there is none for poses from many cameras.", ["src/utAlgorithm/Homography.cpp", "src/utAlgorithm/FundamentalMatrix.cpp", "src/utAlgorithm/Projection.cpp", "src/utAlgorithm/PoseEstimation2D3D", "src/utAlgorithm/3DPointReconstruction.cpp", "src/utAlgorithm/LensDistortion.cpp", "src/utAlgorithm/CameraLens", "src/utAlgorithm/BundleAdjustment.cpp", "src/utAlgorithm/MultipleCameraPoseOptimization.cpp"],
  [("pose from images", "src/utAlgorithm/PoseEstimation2D3D"), ("many cameras", "src/utAlgorithm/MultipleCameraPoseOptimization.cpp"), ("bundle adjustment", "src/utAlgorithm/BundleAdjustment.cpp"), ("lens", "src/utAlgorithm/LensDistortion.cpp and CameraLens")],
  "Seeded random search; oracle is the truth the images were made from.")
P("P21", "Directory listings are complete and sorted whatever the file system does",
  "For every directory content, order of delivery and pattern, listing files gives exactly the matching regular entries and, where asked for, the directories, each once and in ascending order, and leaves entries already in the list there. When nothing matches or the directory cannot be read this is reported by an exception, never by a partial list; files appearing or vanishing meanwhile affect only themselves. No directory stays open, also when an error or lack of memory interrupts the listing.",
  ["inputs", "fault_sequences", "schedules"], "all directory contents and orders, all file system errors, all interleavings with changes of the directory",
  "The tests list no directory.", ["src/utUtil/GlobFiles.cpp", "src/utUtil/GlobFiles.h"],
  [("listing", "src/utUtil/GlobFiles.cpp")],
  "Seeded random search over simulated directories; oracle is the simulated directory and a matcher of our own.")
P("P22", "Optimization returns the best parameters it evaluated and passes failures on",
  "Nonlinear least-squares optimization by the method of Levenberg and Marquardt evaluates the problem at most once per allowed iteration besides the start and returns, of all parameters evaluated, those with the least weighted residual, together with that residual. An evaluation giving NaN or infinity never becomes the result, an exception from an evaluation or lack of memory is passed on and leaves parameters that were evaluated, and nothing leaks. Linear problems are solved exactly, and optimizations on different threads do not influence each other.",
  ["inputs", "fault_sequences", "schedules"], "all problems, solvers, weightings and limits, all failing evaluations, all interleavings of optimizations",
  "The tests optimize problems defined everywhere and never fail an evaluation.", ["src/utMath/Optimization/LevenbergMarquardt.h", "src/utMath/Optimization/Optimization.h", "src/utMath/Optimization/TukeyWeightFunction.h"],
  [("optimization", "src/utMath/Optimization/LevenbergMarquardt.h"), ("termination", "src/utMath/Optimization/Optimization.h")],
  "Seeded random search; oracle is the recorded history of evaluations and the exact solution of linear problems.")
P("P23", "XML documents keep their content through editing, printing, parsing and files",
  "Whatever sequence of insertions, replacements, removals and copies is made, the document contains exactly what the edits say, in order and correctly linked; printed to text, stream or file and parsed again from memory, stream or file it has the same content, and so has any document written in another style, with the position of each node. Saving is reported as successful only if the file holds the whole document, loading only if the whole document was read, and a document cut off inside its root element is reported as broken. Damaged text never makes the parser hang, crash, leak or read outside the text, and later documents are parsed correctly.",
  ["histories", "inputs", "fault_sequences", "schedules"], "all documents, edit histories, styles of writing, file errors and damage to the text",
  "The tests contain no XML document.", ["3rd/tinyxml/tinyxml.cpp", "3rd/tinyxml/tinyxmlparser.cpp", "3rd/tinyxml/tinyxml.h"],
  [("tree", "3rd/tinyxml/tinyxml.cpp"), ("parser", "3rd/tinyxml/tinyxmlparser.cpp"), ("printing and files", "3rd/tinyxml/tinyxml.cpp")],
  "Seeded random search; oracle is a plain tree, with a reader and a writer of our own.")
P("P24", "Estimations are repeatable, thread-independent and survive lack of memory",
  "Every calibration and pose estimation that draws no random numbers gives bit for bit the same result each time it is called with the same input, no matter what ran before and which estimations run at the same time on other threads. When an allocation fails anywhere, once or from then on, the estimation ends with an exception or still gives the same result; it never crashes, leaks or returns something else, and the next call gives the same result as before.",
  ["schedules", "fault_sequences", "inputs"], "all interleavings of estimations, all points at which memory can run out",
  "The tests run one estimation at a time and never run out of memory.", ["src/utAlgorithm", "src/utMath", "3rd/boost-bindings/boost/numeric/bindings/traits/detail/array_impl.hpp"],
  [("estimations", "src/utAlgorithm"), ("optimization", "src/utMath/Optimization"), ("work arrays", "3rd/boost-bindings")],
  "Seeded random search over schedules and failing allocations; oracle is the result of the same estimation run alone.")
P("P25", "Estimates use every noisy measurement once, in any order, and fit them best",
  "From noisy measurements every estimation that is defined by a sum over them (orientation, rotation, scale, tool tip, hand-eye by dual quaternions, homography, fundamental and projection matrix, camera pose, point from many cameras, correlation, averages with covariance) gives the same result for every order of delivery, and the same when all are delivered twice; losing any single measurement changes it. Least-squares estimates and refined estimates cannot be improved by a small step in any parameter; averages, covariances, scales, correlations and residual statistics equal their definition.",
  ["inputs", "histories", "fault_sequences", "schedules"], "all noisy measurements, delivery orders, repetitions and losses",
  "The tests use exact or single noisy data sets in one order.", ["src/utAlgorithm", "src/utMath/Stochastic/Average.h", "src/utMath/Stochastic/Correlation.h"],
  [("absolute orientation", "src/utAlgorithm/PoseEstimation3D3D"), ("camera calibration", "src/utAlgorithm/Projection.cpp"), ("camera pose", "src/utAlgorithm/PoseEstimation2D3D"), ("averages", "src/utMath/Stochastic/Average.h")],
  "Seeded random search; oracles are the estimates from other deliveries of the same data, definitions in extended precision and the residual of neighbouring parameters.")
P("P26", "Reported uncertainties are those that noise on the inputs really causes",
  "When poses, vectors, rotations and sensor states with uncertainties are inverted, combined, moved, converted, predicted, measured or computed from noisy images or points, the covariance reported with the result is the one that the noise on the inputs causes to first order, for full, partial and missing uncertainty and any part of a larger state. It is symmetric and without negative variances, and combining measurements that arrived several times, in any order or not at all counts exactly those that arrived. All of this holds while other threads do the same.",
  ["inputs", "fault_sequences", "schedules"], "all chains of operations, noise sources, lost and repeated measurements, visible points and interleavings",
  "The tests compare no covariance with the scatter of results, and most derivatives are not tested at all.", ["src/utMath/ErrorPose.cpp", "src/utMath/Stochastic", "src/utMath/Optimization/Function", "src/utMath/Optimization/NewFunction", "src/utAlgorithm/Function", "src/utAlgorithm/PoseEstimation2D3D", "src/utAlgorithm/PoseEstimation3D3D", "src/utTracking/Function"],
  [("uncertain poses", "src/utMath/ErrorPose.cpp"), ("propagation", "src/utMath/Stochastic/CovarianceTransform.h and BackwardPropagation.h"), ("measurement update", "src/utMath/Stochastic/Kalman.h"), ("derivatives", "src/utMath/Optimization/Function, src/utAlgorithm/Function, src/utTracking/Function")],
  "Seeded random search over injected noise; oracle is the scatter of the results when each noise source is disturbed in turn (central differences).")
P("P27", "Measurements shared between threads keep value, time and owners",
  "However many threads copy, assign, swap, clone, cast, re-stamp, invalidate, print, hand over and drop measurements, each measurement has the time last given to it and is invalid exactly when that is zero, copies and casts share one value while a clone has a value of its own whose change affects no other measurement, and nothing done to one measurement changes the time or validity of another. A value is destroyed exactly once, when the last measurement holding it is gone. When memory runs out nothing is left behind and existing measurements stay as they were.",
  ["schedules", "histories", "fault_sequences"], "all histories of measurements in several threads, lost, repeated and reordered messages, failing allocations and interleavings",
  "The tests do not share a measurement between threads and never look at owners, clones or times.", ["src/utMeasurement/Measurement.h"],
  [("time and validity next to a shared pointer", "src/utMeasurement/Measurement.h"), ("deep copy", "src/utMeasurement/Measurement.h clone")],
  "Seeded random search; one measurement object is used by one thread at a time, values are shared by any.")
P("P28", "Fitted mixtures of normal distributions are proper and only grow more likely",
  "Whatever samples arrive, in any order, repeated, lost or with gross outliers, fitting a mixture by expectation maximisation from any proper start takes the exact steps, and gives components with finite means, symmetric covariances without negative variances and weights that are not negative and sum to one. The likelihood reported is that of the mixture returned and, unless a component collapses onto a few values, not below that of the start. A normal distribution estimated from plain, weighted or labelled samples has exactly their mean and covariance. All of this holds while other threads do the same.",
  ["inputs", "fault_sequences", "schedules"], "all samples, starting mixtures, outliers, orders of delivery and interleavings",
  "The test runs the function on random points and checks nothing.", ["src/utMath/Stochastic/expectation_maximization.h", "src/utMath/Stochastic/Gaussian.h", "src/utMath/Functors/MatrixFunctors.h"],
  [("expectation and maximisation steps", "src/utMath/Stochastic/expectation_maximization.h"), ("weighted mean and covariance", "src/utMath/Stochastic/Gaussian.h"), ("determinant and inverse", "src/utMath/Functors/MatrixFunctors.h")],
  "Seeded random search over injected losses, repetitions and outliers; oracle is the same algorithm in extended precision. Samples in units of about their extent.")
P("P30", "Poses keep to the motion between measurements and their meaning when converted",
  "Between any two measurements held of a body that moves uniformly, whichever were lost, late, repeated, reordered or delivered with the other sign of the quaternion, interpolating positions, rotations, poses, uncertain poses and lists of poses gives the pose of the body at that time (the shorter way round), with rotations of length one and the covariance of the weighted mean; the rotation velocity from two measurements is that of the body and integrating it gives its rotation at other times. A rotation passed on as a matrix, pose matrix, vector, logarithm, axis and angle, Euler angles of every sequence or additive error vector is the same rotation for the receiver, whatever the rotation (none, tiny, half a turn, axes aligned), sign and rounding, and its angle is a number. All of this holds while other threads read the same measurements.",
  ["inputs", "fault_sequences", "schedules"], "all motions, deliveries, times between measurements, chains of representations and interleavings",
  "The tests convert ten random rotations to one kind of Euler angles and back; interpolation, velocities and the other sequences are not tested near their singularities.", ["src/utMath/Quaternion.cpp", "src/utMath/Quaternion.h", "src/utMath/Pose.cpp", "src/utMath/ErrorPose.cpp", "src/utMath/RotationVelocity.h"],
  [("interpolation", "src/utMath/Quaternion.cpp slerp, src/utMath/Pose.cpp, src/utMath/ErrorPose.cpp"), ("velocity", "src/utMath/RotationVelocity.h"), ("representations", "src/utMath/Quaternion.h and Quaternion.cpp")],
  "Seeded random search over motions, deliveries and relays; oracle is the motion itself and own arithmetic.")
P("P29", "Arithmetic of vectors, matrices, rotations, poses and conics obeys its laws",
  "Products, inverses, decompositions and distances of vectors, matrices, rotations, poses, conics and quadrics obey the laws of algebra and geometry for all arguments.",
  ["inputs"], "all arguments", "Tests sample some arguments.", ["src/utMath/Pose.cpp", "src/utMath/Quaternion.cpp", "src/utMath/Geometry", "src/utMath/MatrixOperations.h"],
  [("pure functions", "src/utMath")], None,
  na="Pure functions of their arguments: no concurrency, time, I/O, randomness, delivery or memory fault can make two executions differ, so deterministic simulation with fault injection has nothing to decide. What claimed properties use of them (P14, P18 to P20, P25, P26, P30) is judged there.")
