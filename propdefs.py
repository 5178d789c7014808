"""The properties, in compact form; gen.py writes properties.jsonl and MANIFEST.json from it."""
DEFS = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, observe=(), state=()):
    DEFS.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why,
                     files=files.split(), mech=[m.split(" @ ") for m in mech], technique=technique, note=note,
                     observe=list(observe), state=list(state)))


CL = "ecl_command_line/include/ecl/command_line/"
P("C01", "Valid command lines give every argument its documented value",
  "For every specification of flags, options, repeated options and positional arguments, and every command line that is valid for it, parsing succeeds and each argument reports exactly the value, count and was-given status that the line prescribes, in any order and in every accepted spelling (separate, delimiter-attached, combined switches, after --). Arguments the line does not mention keep their defaults, and the visitor of a flag or option runs once for each occurrence. Several command lines in one program each follow their own delimiter and settings, whatever was parsed by another before.",
  "inputs configurations", "every argument specification (kinds, types, required or not, delimiter, ignore-unmatched) and every valid line for it",
  "the repository's command line tests are fixed specifications with one or two lines each; combinations of argument kinds and spellings are not sampled at all",
  CL + "cmd_line.hpp " + CL + "value_arg.hpp " + CL + "multi_arg.hpp " + CL + "switch_arg.hpp " + CL + "multi_switch_arg.hpp " + CL + "unlabeled_value_arg.hpp " + CL + "unlabeled_multi_arg.hpp " + CL + "arg.hpp",
  ["token dispatch @ CmdLine::parse", "per argument matching @ *Arg::processArg", "combined switches @ SwitchArg::combinedSwitchesMatch, CmdLine::_emptyCombined"],
  "generated specifications and lines, oracle = values the line was rendered from", "random specifications of up to about eight arguments; lines are rendered from known values in random spelling and order, so the expected result is known without a parser")
P("C02", "Faulty command lines are refused, never misread",
  "A command line that is not valid for its specification (missing required argument, unknown token, missing or extra or malformed value, repeated single argument, value outside its constraint) is reported as an error and never parsed into values. The report names an argument or token that is at fault, and no such line crashes the parser or reads memory it does not own. An error keeps its message for as long as it exists, whatever other errors are made meanwhile.",
  "inputs configurations", "every specification and every line derived from a valid one by one fault, plus arbitrary token soup",
  "the tests hardly contain any faulty line; each needs its own combination of argument kind, position and fault",
  CL + "cmd_line.hpp " + CL + "value_arg.hpp " + CL + "arg_exception.hpp " + CL + "values_constraint.hpp",
  ["required count @ CmdLine::parse, missingArgsException", "value extraction @ ValueExtractor, _extractValue", "constraints @ ValuesConstraint::check"],
  "fault injection into generated valid lines; ASan/UBSan", "one injected fault of a known kind per valid line; sanitizers watch memory and overflow")
P("C03", "Exactly one member of an exclusive group is accepted",
  "For arguments declared mutually exclusive, a line naming none (when required) or two different members of the group is refused, and a line naming exactly one is accepted and reports which. This holds for every spelling of the members, also inside combined switches, and for several groups at once.",
  "inputs configurations", "every set of exclusive groups next to ordinary arguments and every choice of members",
  "the tests have one group with fixed members; counting across spellings and groups is not reached",
  CL + "xor_handler.hpp " + CL + "cmd_line.hpp",
  ["group accounting @ XorHandler::check", "required count @ XorHandler::check return value"],
  "generated exclusive groups, oracle = number of members chosen", "groups of 2-4 members, 1-3 groups, all spellings")
P("C04", "Help, version and documentation describe the specification",
  "The help text lists every argument once with its flag, name, type and description, whatever the lengths, and wrapping keeps every word and respects the width. Asking for help or version prints it and ends the program successfully without parsing; the generated documentation contains the same arguments, with the alternatives of exclusive groups separated by OR.",
  "inputs configurations", "every specification, description length and text",
  "the tests never look at what help or documentation output contains",
  CL + "std_output.hpp " + CL + "docbook_output.hpp " + CL + "help_visitor.hpp " + CL + "version_visitor.hpp",
  ["wrapping @ StdOutput::spacePrint", "usage @ StdOutput::_shortUsage, _longUsage", "exit @ HelpVisitor::visit, VersionVisitor::visit"],
  "generated specifications, captured output compared with an independent description", "exit behaviour observed in a child process")
P("C05", "Contradictory argument specifications are refused",
  "Declaring an argument whose flag or name collides with an earlier one or with the built-in ones, whose flag is longer than one character, or whose flag or name contains the reserved start characters is reported as a specification error; every other declaration is accepted.",
  "inputs configurations", "every sequence of declarations",
  "no test declares a colliding argument",
  CL + "arg.hpp " + CL + "cmd_line.hpp", ["validation @ Arg::Arg, CmdLine::add", "positional order @ OptionalUnlabeledTracker"],
  "generated declarations against a rule model", "sequences of up to about six declarations")

P("C06", "Elementary maths agrees with its definition on every input",
  "Signs, parities, minima, maxima, absolute values, cube roots, norms and approximate comparisons return the mathematically defined value (within rounding) for every representable input of every supported type, and the published constants equal their definitions.",
  "inputs", "every value of the supported integer and floating point types",
  "the tests evaluate a handful of values per function",
  "ecl_math/include/ecl/math/simple.hpp ecl_math/include/ecl/math/norms.hpp ecl_math/include/ecl/math/fuzzy.hpp ecl_math/include/ecl/math/constants.hpp",
  ["the functions themselves @ ecl/math/*.hpp"], "generated values against long double references", "values of all magnitudes including extremes where defined")
P("C07", "Distance to a segment is the distance to its nearest point",
  "The squared distance from a point to a segment equals the minimum over the points of the segment, for points before, beside and beyond it and for every orientation; the line coefficients reported for a segment vanish on it.",
  "inputs", "every segment and point",
  "the tests use five fixed segments and points",
  "ecl_geometry/include/ecl/geometry/linear_segment.hpp ecl_geometry/src/lib/linear_segment.cpp", ["projection @ LinearSegment::squaredDistanceFromPoint", "coefficients @ LinearSegment constructor"],
  "generated segments against an independent nearest point computation", "coordinates over many magnitudes, degenerate and axis-parallel segments")
P("C08", "Angles stay wrapped and equal modulo a full turn",
  "Every angle object and wrapping function returns a value in [-pi,pi] that is congruent to its input modulo a full turn, after any sequence of sums, differences, scalings and assignments, and degree and radian views agree.",
  "inputs histories", "every angle and every sequence of operations on it", "the repository has no automated angle test",
  "ecl_geometry/include/ecl/geometry/angle.hpp ecl_geometry/src/lib/angle.cpp", ["wrapping @ wrap_angle", "operators @ Angle<T>"], "operation sequences against a modular reference", "both precisions, many turns")
P("C09", "Points behave as vectors with their declared coordinates",
  "Points of any dimension keep the coordinates they were given, and sums, differences, scalings, comparisons and initialisation lists act coordinate by coordinate; homogeneous points convert without loss.",
  "inputs histories", "every point type and sequence of operations", "the repository has no automated point test",
  "ecl_geometry/include/ecl/geometry/cartesian_point.hpp ecl_geometry/include/ecl/geometry/homogeneous_point.hpp", ["coordinates @ CartesianPoint", "comma initialisation @ BluePrints / initialiser"], "operation sequences against a plain array model", "dimensions 1-5, int, float and double")
P("C10", "Polynomials evaluate, shift, divide and find their roots correctly",
  "Value, derivatives and shift of a polynomial agree with its coefficients; dividing by a linear factor returns the quotient and remainder that multiply back; and the reported real roots of linear, quadratic and cubic polynomials are exactly the real roots, also when leading coefficients vanish.",
  "inputs", "every polynomial of the supported degrees", "the repository has no automated polynomial test",
  "ecl_geometry/include/ecl/geometry/polynomial.hpp ecl_geometry/include/ecl/geometry/pascals_triangle.hpp ecl_geometry/include/ecl/geometry/function_math.hpp ecl_geometry/src/lib/polynomial.cpp",
  ["evaluation @ Polynomial::operator()", "shift @ Polynomial::shift_horizontal with Pascal's triangle", "division @ Division", "roots @ FunctionMath Roots"],
  "generated coefficients and generated roots; multiply-back and long double oracles", "polynomials constructed from known roots so that the answer is known")
P("C11", "Interpolating polynomials, line crossings and extrema are exact",
  "A polynomial built from end conditions meets every given value, slope and curvature; the intersection of two lines lies on both and parallel lines are reported as failure, every time; and the extremes reported on an interval are the largest and smallest values the polynomial takes there.",
  "inputs histories", "every set of end conditions, every pair of lines, every interval", "the repository has no automated test for these",
  "ecl_geometry/src/lib/polynomial.cpp ecl_geometry/src/lib/polynomial_blueprints.cpp ecl_geometry/include/ecl/geometry/function_math.hpp ecl_geometry/include/ecl/geometry/polynomial.hpp",
  ["end conditions @ blueprints of Polynomial", "crossing @ Intersection", "extremes @ Maximum, Minimum"], "generated end conditions; dense sampling and closed-form oracles", "tolerances scaled to the conditioning of each case")
P("C12", "Splines pass through their points as smoothly as promised",
  "Cubic and tension splines pass through every given point, join with the promised continuity of slope (and curvature), honour their end conditions, answer over exactly their domain and refuse data they cannot interpolate. What they print is the formula they evaluate.",
  "inputs configurations", "every increasing abscissa set, ordinates, tension and end condition", "the repository has no automated spline test",
  "ecl_geometry/include/ecl/geometry/cubic_spline.hpp ecl_geometry/src/lib/cubic_spline_blueprints.cpp ecl_geometry/include/ecl/geometry/tension_spline.hpp ecl_geometry/src/lib/tension_spline_blueprints.cpp ecl_geometry/include/ecl/geometry/tension_function.hpp ecl_geometry/include/ecl/geometry/spline_function.hpp",
  ["tridiagonal solve @ CubicSpline, TensionSpline blueprints", "evaluation @ operator(), derivative, dderivative"], "generated data; interpolation, continuity and boundary invariants; ASan", "2-9 points, debug and release builds")
P("C13", "Smoothed linear paths stay bounded and continuous",
  "A smoothed linear path passes along its waypoint lines with corners rounded so that position, slope and curvature are continuous and the acceleration never exceeds the given bound; where no such path exists the construction is refused. What is printed is the path that is evaluated.",
  "inputs", "every waypoint set and bound", "the repository has no automated test for it",
  "ecl_geometry/include/ecl/geometry/smooth_linear_spline.hpp ecl_geometry/src/lib/smooth_linear_spline.cpp", ["corner search @ SmoothLinearSpline constructor", "evaluation @ operator(), derivative, dderivative"], "generated waypoints; bound, continuity and refusal oracles", "2-6 waypoints, tight and loose bounds")
P("C14", "Poses compose, invert and relate like rigid transformations",
  "Planar and spatial poses of every storage kind convert, compose, invert and relate exactly as the homogeneous transformations they stand for; relative poses compose back; and accumulated odometry equals the composition of its increments.",
  "inputs histories", "every pose, storage kind and sequence of compositions", "the repository has no automated pose test",
  "ecl_geometry/include/ecl/geometry/pose2d.hpp ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp ecl_geometry/include/ecl/geometry/odometry_helper.hpp ecl_geometry/src/lib/odometry_helper.cpp",
  ["composition @ operator*, operator*=", "inverse and relative @ inverse, relative", "trajectories @ odometry helpers"], "operation sequences against a matrix reference model", "both precisions, all storage combinations")
P("C15", "Rigid frames interpolate and convert consistently",
  "Interpolating between two frames meets both ends, moves at a constant rate of turn and translation along the promised path (screw, plane, slide, planar), and conversions between poses, planar frames and spatial frames lose nothing they can represent.",
  "inputs", "every pair of frames and every parameter in [0,1]", "the repository has no automated test for frames",
  "ecl_linear_algebra/include/ecl/linear_algebra/sophus/helpers.hpp ecl_linear_algebra/include/ecl/linear_algebra/sophus/interpolators.hpp ecl_linear_algebra/src/lib/sophus_helpers.cpp ecl_linear_algebra/src/lib/sophus_interpolators.cpp",
  ["interpolation @ Interpolator, PlanarInterpolator, SlideInterpolator, Planar2dInterpolator", "conversions @ sophus helpers"], "generated frames against independent rotation/translation formulas", "Sophus itself is not in the sandbox: a stand-in with the same interface is used")
P("C16", "Formatted output has the requested width, precision and alignment",
  "A formatter prints each value with its configured width, precision, alignment and base; settings given for one value apply to that value only; the text reads back as the value up to the requested precision; matrices and frames print every element in place; copies of a formatter have settings of their own, and formatters in use at the same time, in one expression or in several threads, do not affect each other.",
  "inputs configurations histories", "every value, format setting and order of permanent and one-shot settings", "the repository has no automated formatter test",
  "ecl_formatters/include/ecl/formatters/number.hpp ecl_formatters/include/ecl/formatters/floats.hpp ecl_formatters/include/ecl/formatters/strings.hpp ecl_linear_algebra/include/ecl/linear_algebra/eigen/formatters.hpp ecl_linear_algebra/include/ecl/linear_algebra/sophus/formatters.hpp",
  ["padding and digits @ Format<int>, Format<double>, Format<std::string>", "one-shot settings @ operator()", "matrices @ Format<Eigen::MatrixBase>"], "sequences of format settings and values against a text model", "release and debug builds; formatter objects built over garbage memory")
P("C17", "Statistics agree with the data they were given",
  "Cumulative mean and variance equal those of the values supplied so far (within rounding, for every order and magnitude), and covariance ellipses and ellipsoids report the axes, lengths, rotation and intercepts of the covariance they were given.",
  "inputs histories", "every sequence of values and every positive definite covariance", "the repository has no automated statistics test",
  "ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp ecl_statistics/include/ecl/statistics/covariance_ellipsoid.hpp ecl_statistics/src/lib/covariance_ellipsoid.cpp",
  ["accumulation @ CumulativeStatistics", "eigen decomposition @ CovarianceEllipsoid::compute"], "generated sequences and covariances built from known axes; long double oracle", "both precisions")
P("C18", "Differential drive kinematics invert each other",
  "The pose change and velocities computed from wheel motion are those of a rigid differential drive, wheel velocities computed back from a platform velocity reproduce it, and the motion computed between two poses carries the first to the second.",
  "inputs", "every wheel motion, geometry and pair of poses", "the repository has no automated test for it",
  "ecl_mobile_robot/include/ecl/mobile_robot/kinematics/differential_drive.hpp ecl_mobile_robot/src/lib/differential_drive.cpp",
  ["forward and inverse @ DifferentialDriveKinematics"], "generated motions against closed-form kinematics and round trips", "angles over several turns")
P("C19", "Manipulator trajectories keep their waypoints, rates and bounds",
  "An interpolated trajectory starts and ends at its first and last waypoint with the configured rates, visits what lies between, moves every joint continuously in position and velocity, and never exceeds acceleration bounds or nominal rates; waypoint sets that cannot be interpolated are refused; copies are independent.",
  "inputs histories", "every set of waypoints, rates, durations, tensions and acceleration bounds", "the repository has no automated trajectory test",
  "ecl_manipulators/include/ecl/manipulators/trajectory.hpp ecl_manipulators/include/ecl/manipulators/waypoint.hpp ecl_manipulators/src/lib/trajectory.cpp",
  ["linear @ linearSplineInterpolation, generateLinearSplines", "tension @ tensionSplineInterpolation", "refusals @ validateWaypoints, initialiseWaypointDurations"], "generated waypoints; boundary, continuity, bound and visiting invariants sampled over the whole duration", "1-3 joints, up to nine waypoints")
P("C20", "Arrays hold what is put in them, at a fixed place, and refuse other indices",
  "Fixed and dynamic arrays behave as value sequences: comma initialisation, constants, element writes, iterators, copies, self-assignment, resize and clear act as on a vector; at() always, and [] and iterators in debug builds, refuse positions outside; overflow detection reports exactly the writes outside; arrays print in order and formatted.",
  "inputs histories", "every sequence of array operations, for several element types and sizes", "the repository's container tests are not run here and sample fixed sequences",
  "ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp ecl_containers/include/ecl/containers/array/array_mem_check.hpp ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp ecl_containers/include/ecl/containers/initialiser.hpp ecl_containers/include/ecl/containers/common/formatters.hpp ecl_containers/include/ecl/containers/array/formatters.hpp",
  ["element access @ Array::operator[], Array::at", "comma lists @ BoundedListInitialiser", "overflow detection @ bufferOverRun, bufferUnderRun", "printing @ FloatContainerFormatter, Format<Array<unsigned char>>"], "generated operation sequences against std::vector", "debug, release and overflow-checking builds")
P("C21", "A stencil is a bounded window onto the container it was opened on",
  "Reading, writing, iterating, comma initialising, copying into, resettling and sub-windowing a stencil of an array, vector, string or byte buffer acts on exactly the window's elements of that container and on nothing else; in debug builds windows and lists that do not fit are refused, and at() never answers outside the container.",
  "inputs histories", "every container, window and sequence of window operations", "the repository's stencil tests are not run here and use one window",
  "ecl_containers/include/ecl/containers/stencil/stencil.hpp ecl_containers/include/ecl/containers/stencil/specialisations.hpp ecl_containers/include/ecl/containers/initialiser.hpp",
  ["windows @ Stencil<Array>, Stencil<unsigned char*>, Stencil<const unsigned char*>", "opening @ Array::stencil"], "generated windows and operations against index arithmetic on a vector", "an index between the window's and the container's end is not judged")
P("C22", "PushAndPop and FiFo keep the last elements in order",
  "A push-and-pop queue holds the most recent elements up to its capacity, oldest first, dropping the oldest on overflow, popping in order and refusing to pop when empty (debug); a fifo ring always holds its last n values; filling, clearing, resizing, indexing and copying between queues keep that true.",
  "inputs histories", "every sequence of queue operations for every capacity", "the repository's queue tests are not run here and sample one sequence",
  "ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_fixed.hpp ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp ecl_containers/include/ecl/containers/fifo.hpp",
  ["ring indices @ PushAndPop::push_back, PushAndPop::pop_front", "running index @ FiFo::push_back"], "generated operation sequences against std::deque", "capacities 1-6")
P("C23", "Integers survive the trip through byte containers",
  "Converting an integer to a byte container writes exactly its bytes, lowest first, and converting bytes back gives the integer with those low bytes (the rest zero) for every integer type and for vectors, arrays, stencils and byte buffers; containers of the wrong size are refused and left alone; windows change nothing outside.",
  "inputs", "every integer value, integer type, container kind and length", "the repository's converter tests are not run here and use one value",
  "ecl_converters/include/ecl/converters/to_byte_array.hpp ecl_converters/include/ecl/converters/from_byte_array.hpp ecl_containers/include/ecl/containers/array/converters.hpp ecl_containers/include/ecl/containers/stencil/converters.hpp",
  ["writing @ IntegralToByteArray", "reading @ FromByteArray"], "generated values and containers; shift oracle and round trips", "containers up to 12 bytes")
P("C24", "Numbers, digits and hex strings convert to and from text exactly",
  "Every number converts to its decimal text (or is refused if the buffer is too small, without writing outside it), text converts to the number it spells exactly when it spells one, digits and hex-byte strings likewise; everything else is reported as a conversion error; copied and reused converters behave like fresh ones.",
  "inputs histories", "every number, precision, buffer size and text", "the repository's converter tests are not run here and print more than they check",
  "ecl_converters/include/ecl/converters/char_strings.hpp ecl_converters/include/ecl/converters/string.hpp ecl_converters/include/ecl/converters/integers.hpp ecl_converters/include/ecl/converters/char.hpp ecl_converters/include/ecl/converters/to_byte_array.hpp",
  ["decimal text @ convertUnsignedIntegral, convertSignedIntegral, Converter<std::string,int>", "reading @ Converter<int,std::string>", "hex strings @ Converter<std::vector<char>,char*>"], "generated numbers and mutated texts against the C library and an independent parser", "error() is judged after a failure and on fresh converters only")
P("C25", "An emission calls every slot on the signal's topics exactly once, with the data",
  "Emitting calls, before returning, each slot subscribed to each topic the signal publishes to exactly once per topic with the emitted data, relayed signals included, and nothing else; families of different data never meet; slots that disconnect, destroy other slots or emit while called leave the rest served and are not called once disconnected.",
  "inputs histories", "every history of connecting, relaying, emitting and acting from inside slots", "the repository's sigslot tests are not run here and use four fixed graphs",
  "ecl_sigslots/include/ecl/sigslots/sigslot.hpp ecl_sigslots/include/ecl/sigslots/signal.hpp ecl_sigslots/include/ecl/sigslots/slot.hpp ecl_sigslots/include/ecl/sigslots/manager.hpp ecl_sigslots/include/ecl/sigslots/topic.hpp",
  ["delivery @ SigSlot::emit, SigSlot::process", "connection @ SigSlotsManager::connectSignal, connectSlot"], "generated graphs and histories against a model of topics", "the order of slots on a topic and slots that throw are not judged")
P("C26", "Topics list exactly the living connections; slots outlive their running calls",
  "At every moment the manager lists exactly the topics with a living publisher or subscriber and their numbers; copies and assigned handles share one sigslot, which goes away with its last handle; disconnecting removes its connections; destroying a slot waits for its function running in another thread; separate signals emit safely in parallel.",
  "histories schedules", "every history of creating, copying, assigning, connecting and destroying handles, every thread schedule", "the repository's sigslot tests are not run here and never copy or assign",
  "ecl_sigslots/include/ecl/sigslots/sigslot.hpp ecl_sigslots/include/ecl/sigslots/signal.hpp ecl_sigslots/include/ecl/sigslots/slot.hpp ecl_sigslots/include/ecl/sigslots/manager.hpp ecl_sigslots/include/ecl/sigslots/topic.hpp",
  ["handles @ Signal::operator=, Slot::operator=", "removal @ SigSlotsManager::disconnect", "barrier @ SigSlot::~SigSlot"], "generated histories against a model of topics; generated thread timings", "connecting or emitting to one slot from several threads is a listed finding")
P("C27", "Text streams read back exactly the values that a text spells",
  "Reading integers (decimal or hex), reals, booleans, strings and characters from a text stream gives exactly the value spelled, consumes just it and one delimiter, and reports values out of range, malformed text, the end of the input and device faults as errors, never as values; writing puts exactly the text of each value on the device.",
  "inputs histories fault_sequences", "every sequence of values, text, device and point of failure", "the repository's stream tests are not run here and use fixed values",
  "ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp ecl_streams/include/ecl/streams/text_streams/base_text_stream.hpp ecl_streams/include/ecl/streams/string_stream.hpp ecl_streams/include/ecl/streams/manipulators",
  ["reading @ InputTextStream::getIntegerFromStream, parseHexInteger, getFloatFromStream, skipLeadingWhiteSpace", "writing @ OutputTextStream::operator<<"], "generated token sequences with injected read faults against independent values; round trips; threads under TSan", "tabs, exponents, more than 24 digits, a number ending in '.' at the end of the input and what is read after a failure are not judged")
P("C28", "Log streams write exactly the enabled modes' messages, whole and in order",
  "A log stream writes a message if and only if its mode is enabled, with the time stamp and the mode's current header as configured; streams on one file in any number of threads never tear each other's messages and keep their own in order; closing loses nothing; a log file that cannot be opened is reported and harms no other.",
  "inputs histories schedules fault_sequences", "every history of modes, options, messages and streams, every thread schedule", "the repository has no log stream tests in the baseline",
  "ecl_streams/include/ecl/streams/log_stream.hpp ecl_streams/src/lib/log_stream.cpp ecl_devices/src/lib/shared_file.cpp ecl_time/include/ecl/time/timestamp_base.hpp",
  ["header @ LogStream::log", "modes @ LogStream::enableMode, isModeEnabled", "macros @ LOG, FLUSH"], "generated histories on a virtual clock against the expected file contents; threads under TSan and ASan", "messages below the 4096 character buffer when streams share a file")
P("C29", "The string device and its character buffers hold exactly what was written",
  "Reading from a string device returns exactly what was written, in order, once; its size, remaining count and contents agree at every step through growing, clearing, copying and assigning; the fixed character buffers accept exactly what fits and never touch memory outside.",
  "inputs histories", "every history of writes, reads, clears, copies for every size", "the repository's device tests do not cover it",
  "ecl_devices/include/ecl/devices/string.hpp ecl_devices/src/lib/string.cpp ecl_devices/include/ecl/devices/detail/character_buffer.hpp ecl_devices/src/lib/detail/character_buffer.cpp",
  ["growing @ String::write, String::grow", "reading @ String::read", "bounds @ CharBuffer::append, CharStringBuffer::append"], "generated histories against std::string under ASan", "")
P("C30", "Files hold exactly what was reported as written, and every failure is reported",
  "An output file holds, after a flush or close, exactly the bytes written since it was opened (after the old ones if appending, alone if new); what cannot be opened, written or flushed is reported in the documented way, never lost silently; handles are released on every path and the object stays usable.",
  "inputs histories fault_sequences", "every history of opens, writes, flushes and closes, every point at which space runs out", "the repository's file tests are not run here and write one file",
  "ecl_devices/include/ecl/devices/ofile_pos.hpp ecl_devices/src/lib/ofile_pos.cpp ecl_devices/src/lib/detail/exception_handler_pos.cpp ecl_devices/src/lib/detail/error_handler.cpp ecl_streams/include/ecl/streams/file_streams.hpp",
  ["opening @ OFile::open", "writing @ OFile::write", "closing @ OFile::close, OFile::flush"], "generated histories against a model of the disk; size limits, full devices and bad paths injected", "flushing a closed file is not judged; content after a crash is outside (no fsync)")
P("C31", "Shared file instances share one file without mixing or losing their output",
  "Instances opened on the same name share one open file with a correct count; each instance's buffered output reaches the file in one piece on flush, overflow or destruction, in order; the file closes with the last instance, reopening moves the instance, and failures are reported without affecting other instances or leaking.",
  "inputs histories schedules fault_sequences", "every history and thread schedule of opening, writing, flushing and destroying instances", "the repository's shared file test is not run here and writes from two threads once",
  "ecl_devices/include/ecl/devices/shared_file.hpp ecl_devices/src/lib/shared_file.cpp ecl_devices/include/ecl/devices/detail/character_buffer.hpp ecl_streams/include/ecl/streams/shared_file_stream.hpp",
  ["sharing @ SharedFileManager::RegisterSharedFile, DeRegisterSharedFile", "buffering @ SharedFile::write, SharedFile::flush"], "generated histories against a model of the disk; threads under TSan and ASan; bad paths and full devices", "copies of an instance are not judged; shared buffers are kept below their 4096 characters")
P("C32", "The console devices pass every byte through, in order",
  "Whatever bytes are written to the output and error consoles appear there, all of them and in order, at the latest after a flush; the input console returns exactly the bytes of its input by character or by line and reports its end; a terminal that cannot take the output is reported in debug builds.",
  "inputs histories fault_sequences", "every byte sequence and mix of operations", "the repository has no console tests in the baseline",
  "ecl_devices/include/ecl/devices/console.hpp ecl_devices/src/lib/console.cpp ecl_streams/include/ecl/streams/console_streams.hpp",
  ["output @ OConsole::write, OConsole::flush, EConsole::flush", "input @ IConsole::read"], "generated byte sequences through a child process with redirected descriptors", "what was never flushed is not judged; line reads are judged on text without null characters")
P("C33", "Socket connections carry exactly the bytes sent, and say when they end",
  "Between a socket client, a socket server or any other peer every byte written arrives once and in order; reads return no more than asked, peeking and counting take nothing; the end of a connection, a refusal and a failed system call are reported by the documented code or exception; open() is truthful, objects can be opened again, and no descriptor is leaked or closed twice.",
  "inputs histories fault_sequences", "every conversation, every order of opening and closing, every failing system call", "the repository has no socket tests",
  "ecl_devices/include/ecl/devices/socket_client_pos.hpp ecl_devices/include/ecl/devices/socket_server_pos.hpp ecl_devices/src/lib/socket_client_pos.cpp ecl_devices/src/lib/socket_server_pos.cpp ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp",
  ["client @ SocketClient::open, read, write, peek, remaining, close", "server @ SocketServer::open, listen, read, write, peek, remaining, close"], "generated conversations over the loopback against byte queues, with failing system calls injected by linking stand-ins", "conversations below 30000 bytes in flight; a reset seen by a server is not judged beyond not crashing")

T = "ecl_time/include/ecl/time/"
P("C35", "Time stamps behave as exact signed durations",
  "Sums, differences, accumulations and comparisons of time stamps and durations of any sign agree with arithmetic on whole nanoseconds; every result is normalised (below a second of nanoseconds, no mixed signs). Printing shows the exact value with nine digits, conversion to and from numbers is exact to rounding, a mixed-sign time is refused in debug mode, and a fresh stamp is the clock's reading.",
  "inputs histories", "every pair of times of any sign and size, and sequences of operations on them",
  "no test of the pinned suite touches time stamps; carries and sign changes need particular nanosecond parts",
  T + "timestamp_base.hpp " + T + "timestamp_pos.hpp ecl_time/src/lib/timestamp_base.cpp ecl_time/src/lib/timestamp_pos.cpp",
  ["carry and sign normalisation @ TimeStampBase::operator+=, operator-", "printing @ operator<<", "conversion @ TimeStampBase(double)"],
  "generated sequences of operations against 64 bit nanosecond arithmetic, on a generated clock", "times up to two billion seconds of both signs with nanosecond parts at the edges")
P("C36", "Watches, sleepers and periodic loops keep exact time",
  "Elapsed and split times equal what the clock advanced since the start, restart or last split. Sleepers ask for exactly the requested time, also when reused with another one. A periodic loop wakes at exact multiples of its period, whatever the work takes, and resynchronises when it fell behind. A frequency monitor reports the rate and interval bounds of the last window, on the clock it was given.",
  "histories schedules", "every history of clock readings, work times, periods, restarts and updates",
  "tests against the real clock can only look at rough durations; here every clock reading is chosen by the generator",
  T + "stopwatch.hpp ecl_time/src/lib/stopwatch.cpp ecl_time/src/lib/cpuwatch_rt.cpp ecl_time/src/lib/snooze_pos.cpp ecl_time/src/lib/sleep_pos.cpp ecl_time/src/lib/frequency.cpp " + T + "sleep_pos.hpp",
  ["period addition @ Snooze::add_period, validate", "splits @ StopWatch::split, CpuWatch::split", "units @ MicroSleep, NanoSleep", "windows @ FrequencyMonitor::analyse"],
  "generated histories on a virtual clock against a nanosecond model", "clock readings advance between and during calls; nanosleep and the absolute sleep are recorded, not performed")
P("C37", "Timing statistics and random numbers match their definition",
  "Average, deviation and variance of recorded durations equal their definition over exactly the durations pushed since the last clear. A seeded random number generator repeats its sequence exactly, uniform numbers stay in their range, and uniform and gaussian numbers are finite and have the mean, spread and independence asked for, also at the extremes of the underlying source.",
  "inputs histories", "every series of durations; every seed, range, deviation and mean",
  "no test looks at the distribution or repeatability, and extreme draws of the source practically never occur in a test",
  T + "time_data.hpp ecl_time/src/lib/time_data.cpp " + T + "random_number_generator.hpp",
  ["moments @ TimeData::variance", "polar method @ RandomNumberGenerator::gaussian"],
  "generated series against extended precision moments; generated seeds with statistical bounds of seven deviations; forced extreme draws", "20000 numbers per distribution test; the seeds of a run are fixed by VERIF_SEED, so a verdict repeats")

I = "ecl_ipc/include/ecl/ipc/"
P("C38", "Named semaphores exclude, count and time out exactly as documented",
  "Semaphores of one name share one count, across objects, threads and processes: lock, trylock and unlock succeed exactly when the count allows, nobody passes a locked one, also when a signal interrupts the wait. A timed lock gives up no earlier and no later than asked, on the right clock, and reports it. Refused system calls are reported by exception (debug) and nothing that was never opened is used or closed.",
  "histories schedules fault_sequences", "every order of operations on every set of objects, every clock reading and time, every failing call, and real contention",
  "the repository has no ipc tests in the pinned suite; the deadline needs a carry in the fractions, the interruption a signal at the right time",
  I + "semaphore_pos.hpp ecl_ipc/src/lib/semaphore_pos.cpp",
  ["deadline @ Semaphore::trylock(Duration)", "interruption @ Semaphore::lock", "construction and destruction @ Semaphore::Semaphore, ~Semaphore"],
  "generated histories against a counting model on scratch names, with the clock and failing calls generated; contention of threads (also under TSan) and processes", "the name is reopened only while no other connection has closed it (see C38-unlink)")
P("C39", "Shared memory connects every holder of a name to one section",
  "All connections to a name see the same bytes, whatever the order of connecting and disconnecting; the creator's section starts default initialised, later connections never reset it, and it disappears with its creator or an explicit unlink, after which the name is free for a new section. Failed system calls are reported by exception, leave the sections of others alone, and leak no mapping or descriptor.",
  "histories fault_sequences schedules", "every history of connections, writes and closes; every failing call; several processes",
  "the repository has no ipc tests in the pinned suite",
  I + "shared_memory_pos.hpp ecl_ipc/src/lib/shared_memory_pos.cpp",
  ["creation and initialisation @ SharedMemory::SharedMemory", "removal @ SharedMemoryBase::unlink, SharedMemory::~SharedMemory", "failures @ SharedMemory::SharedMemory"],
  "generated histories of connections against a model of names and sections, on scratch names, with failing system calls injected by linking stand-ins", "one storage type per name; the two listed findings (unlink by a stranger, initialisation after publication) are left out of the search")

TH = "ecl_threads/include/ecl/threads/"
P("C40", "A mutex is held by one thread at a time and its errors are reported",
  "At most one thread holds a mutex, however it got it (lock, trylock, timed trylock, born locked); an unlock hands it to a waiting thread. trylock never waits; a timed lock gives up exactly when the time asked for has passed. locks() is the number of holding and waiting threads, failed operations leave it alone. Debug mode reports relocking, foreign unlocking and failed system calls by the documented exception.",
  "histories schedules fault_sequences", "every order of operations by any number of threads, every clock reading and time, every failing call, and real contention",
  "no thread test is in the pinned suite; races, deadlines with a carry and failing calls need particular circumstances",
  TH + "mutex_pos.hpp ecl_threads/src/lib/mutex_pos.cpp",
  ["deadline @ Mutex::trylock(Duration&)", "count @ Mutex::lock, unlock, locks", "errors @ throwMutexLockException and relatives"],
  "generated histories of commands to several threads against a model of holder and waiters; generated clocks and failing calls; contention, also under TSan", "in release mode only what the standard defines is done (no relocking, no foreign unlocking)")
P("C41", "Threads run their function exactly once and can be administered safely",
  "Each form of start runs the given function once in a new thread, on a copy of a function object or on the very object referenced or bound, with the requested stack and priority. isRunning is true until the function is done or cancelled. join waits for the end; cancel stops at the next cancellation point; a forgotten thread runs on; every thread is joined or detached once. Misuse and failed starts are reported and a failed start can be repeated. A threadable runs at most once at a time.",
  "histories schedules fault_sequences", "every order of starting, failing, finishing, cancelling, joining and abandoning, for every form of function",
  "no thread test is in the pinned suite; double frees and stale states need a particular order of finishing, cancelling and joining",
  TH + "thread_pos.hpp " + TH + "threadable.hpp " + TH + "thread_exceptions_pos.hpp ecl_threads/src/lib/thread_pos.cpp",
  ["forms of start @ Thread::start", "ownership of the task @ ThreadTask::EntryPoint, Thread::cancel", "joining and detaching @ Thread::join, ~Thread", "one at a time @ Threadable::start"],
  "generated histories on gated functions against a state model, with recorded and failing pthread calls; visibility of results and concurrent starts under TSan", "copies of thread objects and concurrent use of one thread object are not judged")
P("C42", "Thread priorities are set, ordered, refused and read back faithfully",
  "Setting a priority puts the caller into its scheduling group at a niceness or real time level that rises with the priority, and reads back as the same priority, also when changing between the groups; Default and Unknown change nothing. Refusals and unavailable policies are reported by the documented exception or by false and leave the priority alone. The diagnostics name the current priority, scheduler and ranges.",
  "histories fault_sequences", "every sequence of priorities, every range of real time levels, every refusal",
  "no thread test is in the pinned suite, and the existing one only calls the functions without looking at the effect",
  TH + "priority_pos.hpp " + TH + "priority_common.hpp ecl_threads/src/lib/priority_pos.cpp",
  ["levels @ set_priority, set_real_time_priority", "reading @ get_priority", "report @ print_priority_diagnostics"],
  "generated histories on a model of the kernel's scheduling state (linked stand-ins), plus the real calls in a child process", "niceness values between the levels are not judged")

U = "ecl_utilities/include/ecl/utilities/"
P("C43", "Function objects call the right function on the right object and argument",
  "Every function object, made directly or by generateFunctionObject, each time it is called runs its function exactly once, on the object it is bound to and with its own bound or the given argument, and passes on the result. Bound values stay valid and unchanged for the life of the object and of its copies, temporaries included; references reach the original, polymorphic arguments are not sliced; copies of functors are independent, references to them are not. Reference wrappers name the very object.",
  "programs inputs", "every sequence of making, copying, dropping and calling function objects, over argument and result types",
  "the tests only print what two or three fixed objects do and check no argument lifetime, reference or copy",
  U + "function_objects.hpp " + U + "references.hpp",
  ["bound arguments @ BoundUnaryFreeFunction, BoundUnaryMemberFunction", "copies and references @ NullaryFunctionCopy, NullaryFunctionReference and relatives", "wrappers @ ReferenceWrapper, addressOf"],
  "generated programs over all forms of function object against a model of target, object, argument and result, under ASan and UBSan, with lifetime tracked values",
  "an lvalue bound to a const reference and changed afterwards is not judged")
P("C44", "Flags, parameters, singletons and blueprints keep their value semantics",
  "A set of flags behaves like the integer of its bits under every operator, and a flag tests true if any of its bits is set, or for the empty flag if none is. A parameter holds the last value given, by any of its access paths. A singleton is built once, completely, whoever asks first. A blueprint makes and configures objects through its own implementation. A void prints nothing.",
  "histories schedules", "every sequence of operations, and every order of first uses",
  "the tests evaluate one fixed expression per class; races at the first use of a singleton cannot be tested by one thread",
  U + "flags.hpp " + U + "parameter.hpp " + U + "singleton.hpp " + U + "blueprints.hpp " + U + "void.hpp",
  ["operators @ Flags", "access @ Parameter", "one instance @ Singleton::instance", "dispatch @ BluePrint"],
  "generated histories against an integer and a value model; concurrent first uses in child processes, also under TSan", "the order of destruction of singletons is not judged")
P("C46", "Exceptions carry flag, detail, data and the trail of locations to the catcher",
  "What is thrown arrives with its flag, detail and data unchanged through any number of copies and rethrows; each rethrow puts its location in front of the trail; what() reports exactly these. System errors are described by the text of errno. The throwing macros throw always, only in debug mode, or not at all, as their build mode says, and evaluate their condition at most once.",
  "programs configurations", "every depth of rethrowing, every content, debug, release and without exceptions",
  "no exceptions test is in the pinned suite",
  "ecl_exceptions/include/ecl/exceptions/standard_exception.hpp ecl_exceptions/include/ecl/exceptions/data_exception.hpp ecl_exceptions/include/ecl/exceptions/posix_error_handler.hpp ecl_exceptions/include/ecl/exceptions/macros.hpp ecl_exceptions/src/lib/standard_exception.cpp",
  ["trail @ StandardException::StandardException, DataException::DataException", "report @ create_combined_message", "modes @ ecl_throw, ecl_assert_throw, ecl_debug_throw"],
  "generated call chains with catching, copying and rethrowing against a model of the report, in three build modes", "the texts of the error flags come from the stand-in for ecl_errors")
P("C47", "realpath resolves every path as the system does, or says why not",
  "Relative and absolute paths through dots, repeated slashes and symbolic links of any nesting resolve to the absolute path without any of them, up to the longest path the system allows; resolving that again changes nothing. Every failure is reported by its documented flag, loses no memory and leaves nothing undefined; the input may be the output.",
  "inputs fault_sequences", "every directory tree with links, loops and dangling links, every path into it, every error of the system call",
  "the existing test is not in the pinned suite and resolves a single path",
  "ecl_filesystem/src/lib/realpath.cpp ecl_filesystem/include/ecl/filesystem/realpath.hpp",
  ["resolution and errors @ ecl::realpath"],
  "generated trees of directories, files and links in a scratch directory against a model resolver, plus injected errors", "what is returned as path after a failure is not judged")
P("C34", "A serial device configures the line, moves every byte and keeps its timeouts",
  "Opening sets speed, size, stop bits and parity as asked, raw and without flow control, clears the buffers and locks the port against other processes. Every byte value written arrives once and in order, and what arrives is read once and in order, by any byte type and amount. A read returns what is there, or waits as long as the timeout asks (exactly for short ones, in tenths for long ones) and no longer. Failed openings and transfers are reported, leave no descriptor open and touch no other file; a vanished device counts as closed.",
  "histories inputs fault_sequences", "every sequence of operations, every configuration, every timeout, every arrival time and byte content",
  "the pinned suite has no device tests and the existing serial tests need hardware",
  "ecl_devices/include/ecl/devices/serial_pos.hpp ecl_devices/src/lib/serial_pos.cpp ecl_devices/include/ecl/devices/serial_parameters.hpp",
  ["configuration and lock @ Serial::open", "timeouts @ Serial::block, Serial::unblock", "transfer @ Serial::read, Serial::write", "vanished devices @ Serial::open()"],
  "generated histories over pseudo terminals against a model of the line, with a virtual clock, recorded terminal settings and injected failures", "input waiting while the mode is changed, and the timeout of a device opened again, are not judged")

P("C45", "Every program that should compile does, and none that should not",
  "Every public header compiles on its own, repeated, and in any order and company, in debug, release and memory checking builds, by any compiler and standard, and units sharing headers link. Every member of every class template compiles. A compile time concept check accepts exactly the types that provide each member the concept asks for, accessibly, with usable arguments and result, wherever the check stands; the library's templates that ask a concept of their argument (streams, printing, files, stencils, arrays from blueprints) refuse types that lack it.",
  "programs configurations", "every selection and order of headers, every model class, every instantiation, compiler, standard and build mode",
  "a test is one program that compiles; it cannot show that others do, nor that the wrong ones are refused",
  "ecl_concepts/include/ecl/concepts/devices.hpp ecl_concepts/include/ecl/concepts/containers.hpp ecl_concepts/include/ecl/concepts/macros.hpp ecl_concepts/include/ecl/concepts/streams.hpp ecl_concepts/include/ecl/concepts/nullary_function.hpp ecl_concepts/include/ecl/concepts/blueprints.hpp ecl_utilities/include/ecl/utilities/function_objects.hpp ecl_containers/include/ecl/containers.hpp",
  ["checks @ ecl_compile_time_concept_check, ...Concept", "headers @ every include/ecl/**.hpp of the repository"],
  "generated model classes, header orders, link units and instantiations, given to g++ and clang++ against a prediction of acceptance; a refused program must be accepted without its check",
  "ecl_config and ecl_errors headers are stand-ins; headers documented as internal, headers for Windows and, without exceptions, those of the listed finding are left out")
P("C48", "Type traits and limits say of every type what is documented",
  "Of the ten documented integer types, the floating types, the byte types and every other type, the traits say exactly whether it is integral, signed, unsigned, floating or a byte; selecting code by them selects the right code; the unsigned counterpart of each integer type is its own. The limits (bits, bytes, least, greatest, one, precision) are those of the type, whether used as constants, as values, by reference or before main. Devices say truly whether they are source, sink or both, references whether they are wrapped.",
  "programs inputs", "every type built from fundamental types, classes, pointers, references, arrays and functions; every use of a limit",
  "the tests check single types; the definition of a constant is only missed by programs that use it by reference",
  "ecl_type_traits/include/ecl/type_traits/fundamental_types.hpp ecl_type_traits/include/ecl/type_traits/numeric_limits.hpp ecl_type_traits/src/lib/numeric_limits.cpp ecl_mpl/include/ecl/mpl/bool.hpp ecl_mpl/include/ecl/mpl/converters.hpp ecl_mpl/include/ecl/mpl/enable_if.hpp ecl_mpl/include/ecl/mpl/if.hpp ecl_devices/include/ecl/devices/traits.hpp ecl_utilities/include/ecl/utilities/references.hpp",
  ["traits @ is_integral, is_signed, is_unsigned, is_float, is_byte, is_signed_byte, is_unsigned_byte", "limits @ numeric_limits", "selection @ enable_if, enable_if_c, if_c", "devices @ is_source, is_sink, is_sourcesink"],
  "generated types in generated programs of static assertions, and generated programs using the limits that are linked and run, against the language's own limits", "signed char, bool, wide characters and qualified types are left open by the documentation")
