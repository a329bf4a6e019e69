#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
I = "curves/include/curves/"
S = "curves/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "A spline computed from boundary conditions meets those boundary conditions",
 "For every supported order (1 to 5), every positive duration and every set of boundary values, a spline computed from them starts at the given start position and ends at the given end position, and additionally has: order 2 the given start velocity, order 3 the given start and end velocity, order 4 also the given start acceleration, order 5 also the given start and end acceleration. It reports the given duration. This is so whether it is constructed from the options or recomputed on an already used spline object.",
 ["inputs", "configurations"], "all real duration > 0, position/velocity/acceleration boundary values, orders 1..5, fresh or reused objects",
 "The tests fit two splines (cubic and quintic) at a handful of numbers; orders 1, 2 and 4 are never fitted.",
 [I+"polynomial_splines_traits.hpp", I+"PolynomialSpline.hpp", S+"polynomial_splines_traits.cpp"],
 [("spline_rep<double,N>::compute", I+"polynomial_splines_traits.hpp"), ("PolynomialSpline::computeCoefficients", I+"PolynomialSpline.hpp")],
 ["PolynomialSpline<N>::getPositionAtTime/getVelocityAtTime/getAccelerationAtTime/getSplineDuration"])

prop("C02", "Spline evaluation is the polynomial and its exact derivatives, held at the ends",
 "For every order, coefficient list (highest power first), duration and time inside [0, duration], the position is the polynomial's value at that time and velocity and acceleration are its exact first and second derivative. Before time 0 and after the duration all three keep the values they have at the nearest end. Setting, copying or moving coefficients and duration is reflected exactly by later evaluations.",
 ["inputs", "configurations"], "all real coefficients, durations >= 0 and times, orders 1..5",
 "Tests evaluate two concrete splines at their end points only.",
 [I+"PolynomialSpline.hpp", I+"polynomial_splines_traits.hpp"],
 [("PolynomialSpline::get*AtTime (clamping, inner product)", I+"PolynomialSpline.hpp"), ("tau/dtau/ddtau", I+"polynomial_splines_traits.hpp")],
 ["PolynomialSpline<N>::get*AtTime, getCoefficients, getSplineDuration"])

prop("C03", "Time-vector rows reproduce spline position, velocity and acceleration",
 "For every order and time t, the row returned as time vector, first-derivative time vector or second-derivative time vector, multiplied with any coefficient list, gives exactly the position, velocity or acceleration a spline with these coefficients has at t. The at-zero rows equal the rows at t = 0, the 'get' functions overwrite the target row and the 'add' functions add the row to what was there.",
 ["inputs", "configurations"], "all real times and prior row contents, orders 1..5, all get/add variants",
 "No test calls the time-vector functions directly; several variants are not used by the library itself.",
 [I+"PolynomialSpline.hpp", I+"polynomial_splines_traits.hpp", S+"polynomial_splines_traits.cpp"],
 [("get/addTimeVector, get/addDiffTimeVector, get/addDDiffTimeVector, *AtZero", I+"PolynomialSpline.hpp")],
 ["the row written by each time-vector function"])

prop("C04", "Multi-knot fit hits all knots and boundary conditions and joins smoothly",
 "For every strictly increasing list of at least two knot times, all knot positions and all boundary velocities and accelerations, fitting a quintic container (or a quartic one with at least three knots) succeeds and yields a trajectory that takes each knot position at its time and has the given velocity and acceleration at both ends. Position, velocity and acceleration are continuous at every interior knot, and there is one segment per pair of consecutive knots with the matching duration.",
 ["inputs", "configurations"], "all real knot positions/boundary values, all strictly increasing knot times, number of knots within the stated bound",
 "Tests fit a few concrete two-to-four knot examples; nothing checks interior smoothness for arbitrary times.",
 [I+"PolynomialSplineContainer.hpp", I+"PolynomialSplineContainer.tpp", I+"PolynomialSpline.hpp", I+"polynomial_splines_traits.hpp"],
 [("setData (6 arguments): equality constraints + least-squares solve", I+"PolynomialSplineContainer.tpp"), ("addInitialConditions/addFinalConditions/addJunctionsConditions", I+"PolynomialSplineContainer.tpp"), ("extractSplineCoefficients", I+"PolynomialSplineContainer.tpp")],
 ["PolynomialSplineContainer::get*AtTime, getEnd*, getSplines()"])

prop("C05", "Fits with fewer constraints or lower order keep what they promise",
 "A fit given only boundary velocities, and a full fit for which the order has too few coefficients to honour the boundary accelerations (order 3, or order 4 with one segment), passes through all knots, has the given velocities at both ends and has continuous velocity and acceleration at interior knots for orders 3 to 5. A fit given positions only, and every fit of order 1 or 2, is the straight-line interpolation between consecutive knots.",
 ["inputs", "configurations"], "all real positions and boundary values, all strictly increasing knot times within the knot-count bound, orders 1..5, all three fit overloads",
 "Only the quintic full fit is tested; the constraint-dropping fallbacks and the two other overloads never run with arbitrary data.",
 [I+"PolynomialSplineContainer.tpp"],
 [("setData (4 arguments), setData (2 arguments) and the fallback chain between them", I+"PolynomialSplineContainer.tpp")],
 ["PolynomialSplineContainer::get*AtTime, getSplines()"])

prop("C06", "Unusable knot lists are rejected, not crashed on",
 "Every fit overload returns false for knot lists with fewer than two knots or with two consecutive times that do not strictly increase, whatever the values and whatever the container held before, without reading outside the given lists. The container stays usable: a following fit with valid data behaves as on a fresh container.",
 ["inputs", "configurations"], "all knot lists within the size bound (including empty ones), all times, any earlier container content, orders 1..5",
 "No test passes an invalid or empty knot list.",
 [I+"PolynomialSplineContainer.tpp"],
 [("size and duration checks at the top of each setData", I+"PolynomialSplineContainer.tpp")],
 ["return value of setData, memory accesses, evaluation after a following valid fit"])

prop("C07", "Container duration, segment order and active-segment lookup are consistent",
 "After any sequence of added splines, fits and resets, the container duration is the sum of the durations of its splines, the splines are listed in the order they were added, and it is empty exactly when there are none. The active segment at time t is the one whose half-open interval [start, end) contains t, the first for earlier times and the last for times at or after the end, the reported offset is that segment's start time, and an empty container reports no segment (-1).",
 ["inputs", "histories"], "all histories of addSpline/fit/reset within the bound, all durations > 0, all times",
 "One test checks the lookup for three concrete times of one container.",
 [I+"PolynomialSplineContainer.hpp", I+"PolynomialSplineContainer.tpp"],
 [("addSpline, reset", I+"PolynomialSplineContainer.hpp"), ("getActiveSplineIndexAtTime", I+"PolynomialSplineContainer.tpp")],
 ["getContainerDuration, getSplines, isEmpty, getActiveSplineIndexAtTime"],
 [("containerDuration_", "running sum of durations", I+"PolynomialSplineContainer.hpp")])

prop("C08", "Container evaluation at a time is the active segment at its local time",
 "For every container content and every time t, position, velocity and acceleration at t equal those of the segment active at t, evaluated at t minus that segment's start. Times before the start give the values at the start and times after the end give the values at the end, the end getters give the values at the total duration, and an empty container evaluates to zero.",
 ["inputs", "histories"], "all segment coefficients and durations, all times, segment count within the bound, orders 1..5",
 "Tests evaluate single concrete containers at few times.",
 [I+"PolynomialSplineContainer.tpp", I+"PolynomialSpline.hpp"],
 [("getPositionAtTime/getVelocityAtTime/getAccelerationAtTime/getEnd*", I+"PolynomialSplineContainer.tpp")],
 ["get*AtTime, getEnd*"])

prop("C09", "Stepping through a container equals evaluating it at the internal time",
 "After every history of advances by non-negative steps, jumps to arbitrary times, time resets, added splines and refits, the position, velocity and acceleration at the internal time equal the evaluation at that time. An advance moves the internal time by exactly the step and reports true while splines remain (internal time short of the total duration), and otherwise reports false and leaves it unchanged.",
 ["histories", "inputs"], "all operation histories within the bound with arbitrary step sizes, jump times, durations and coefficients",
 "One test advances one container with one fixed step.",
 [I+"PolynomialSplineContainer.hpp", I+"PolynomialSplineContainer.tpp"],
 [("advance, setContainerTime, resetTime, addSpline", I+"PolynomialSplineContainer.tpp")],
 ["getPosition/getVelocity/getAcceleration/getContainerTime/getActiveSplineIndex, return value of advance"],
 [("activeSplineIdx_, timeOffset_, containerTime_", "playback cursor", I+"PolynomialSplineContainer.hpp")])

prop("C10", "A fit or clear leaves no trace of what the curve held before",
 "After any earlier content or playback history, a successful fit leaves a container, scalar curve or vector curve indistinguishable from a fresh one given the same data: same domain, same values and derivatives at all times, same segments, internal time at zero. Clearing or resetting leaves it indistinguishable from a freshly constructed one.",
 ["histories", "inputs"], "all earlier histories within the bound, all new data, every fit overload of container, scalar and vector curve",
 "Tests use each curve object once.",
 [I+"PolynomialSplineContainer.tpp", I+"PolynomialSplineScalarCurve.hpp", I+"PolynomialSplineVectorSpaceCurve.hpp"],
 [("reset() at the start of every fit", I+"PolynomialSplineContainer.tpp"), ("clear()", I+"PolynomialSplineScalarCurve.hpp")],
 ["evaluate, evaluateDerivative, getMinTime, getMaxTime, getSplines, getContainerTime"])

prop("C11", "The scalar curve lives on absolute time and matches its fit data",
 "A scalar curve fitted to strictly increasing times and values covers exactly [first time, last time], evaluates to each value at its absolute time, has the given velocities and accelerations (zero when none are given) at the ends, and its first and second derivatives are continuous across knots and are the derivatives of the evaluated curve. Before the first and after the last time it holds the end values; derivative orders other than 1 and 2 are refused. Fitted from a list of per-segment boundary conditions it starts at time 0 and plays the segments one after another.",
 ["inputs"], "all strictly increasing knot times (any start), values, boundary values and evaluation times, knot count within the bound",
 "Tests check a few numbers; negative and large start times, arbitrary knots and derivative continuity are not covered.",
 [I+"PolynomialSplineScalarCurve.hpp", I+"PolynomialSplineContainer.tpp"],
 [("minTime_ shift in evaluate/evaluateDerivative/getMaxTime", I+"PolynomialSplineScalarCurve.hpp")],
 ["evaluate, evaluateDerivative, getMinTime, getMaxTime"],
 [("minTime_", "absolute start time", I+"PolynomialSplineScalarCurve.hpp")])

prop("C12", "The vector curve is its components, each a scalar curve on absolute time",
 "A vector curve fitted to strictly increasing times and vectors covers exactly [first time, last time], evaluates to each vector at its absolute time, and has the given (or zero) boundary velocities and accelerations. At every time each component of its value and derivatives equals that of a scalar curve fitted to that component alone; derivative orders other than 1 and 2 are refused.",
 ["inputs", "configurations"], "all strictly increasing knot times (any start), vectors, boundary vectors, evaluation times, all three fit overloads, dimensions within the bound",
 "Tests print or compare a few concrete samples for curves starting at time 0.",
 [I+"PolynomialSplineVectorSpaceCurve.hpp", I+"VectorSpaceCurve.hpp"],
 [("per-dimension containers; evaluate/evaluateDerivative/getMaxTime", I+"PolynomialSplineVectorSpaceCurve.hpp")],
 ["evaluate, evaluateDerivative, getMinTime, getMaxTime"])

prop("C13", "Shifting all knot times shifts the curve and changes nothing else",
 "Fitting the same values at times t_i + s instead of t_i, for any shift s, yields a curve (container, scalar or vector) with the same segments, whose domain is shifted by s and whose value and derivatives at t + s equal those of the original at t.",
 ["inputs"], "all shifts, knot times, values, boundary values and evaluation times, knot count within the bound",
 "One test compares two concrete offsets of one curve.",
 [I+"PolynomialSplineContainer.tpp", I+"PolynomialSplineScalarCurve.hpp", I+"PolynomialSplineVectorSpaceCurve.hpp"],
 [("only differences of knot times enter the fit; absolute start kept separately", I+"PolynomialSplineContainer.tpp")],
 ["evaluate, evaluateDerivative, getMinTime, getMaxTime, getSplines"])

prop("C14", "The container self-check accepts exactly the sound containers",
 "For a non-empty container the self-check returns true exactly when the internal time lies in [0, total duration], no spline has a negative duration and no coefficient is NaN.",
 ["inputs", "histories"], "all container contents within the bound, all internal times, NaN in any coefficient position",
 "No test calls the self-check.",
 [I+"PolynomialSplineContainer.tpp"], [("checkContainer", I+"PolynomialSplineContainer.tpp")],
 ["return value of checkContainer"])

prop("C15", "The coefficient manager behaves as a map from time to coefficient",
 "After every history of inserts, overwrites, batch inserts, removals (by time or key), value updates and clears, the manager holds exactly one coefficient for each distinct time inserted and not removed, with the last value written for it. Size, emptiness, membership tests, first and last time, the sorted list of times and iteration all agree with that content, and removing something that is not there is an error.",
 ["histories", "inputs"], "all histories within the operation bound over arbitrary real times and values",
 "Tests run one fixed history over one set of ten equidistant times (and most fail to run in this environment).",
 [I+"LocalSupport2CoefficientManager.hpp", I+"LocalSupport2CoefficientManager-inl.hpp"],
 [("insertCoefficient, removeCoefficient*, updateCoefficient*, clear keep two maps in step", I+"LocalSupport2CoefficientManager-inl.hpp")],
 ["size, empty, getTimes, hasCoefficientAtTime, getMinTime, getMaxTime, coefficientBegin/End"],
 [("timeToCoefficient_", "time-ordered content", I+"LocalSupport2CoefficientManager.hpp"), ("keyToCoefficient_", "key index", I+"LocalSupport2CoefficientManager.hpp")])

prop("C16", "Coefficient keys are unique, stable and resolve to their coefficient",
 "Every coefficient present has a key different from every other key handed out; overwriting a coefficient at the same time keeps its key, inserting at a new time gives a new one. At any point of any history looking a present key up gives the current value and time of exactly that coefficient, updating through it changes exactly that coefficient, the key list follows time order, and removed or cleared keys are no longer known.",
 ["histories", "inputs"], "all histories of inserts, overwrites, removals, updates and clears within the bound, over one or two managers",
 "The tests never remove by key or mix overwrites with lookups.",
 [I+"LocalSupport2CoefficientManager-inl.hpp", S+"KeyGenerator.cpp"],
 [("keyToCoefficient_ index", I+"LocalSupport2CoefficientManager.hpp"), ("KeyGenerator::getNextKey", S+"KeyGenerator.cpp")],
 ["insertCoefficient return value, getKeys, appendKeys, getCoefficientByKey, getCoefficientTimeByKey, hasCoefficientWithKey, updateCoefficientByKey, updateCoefficients"])

prop("C17", "The bracketing query returns the two neighbouring coefficients or fails",
 "For every content and every time t, the query for the coefficients active at t succeeds exactly when there are at least two coefficients and t lies in [first time, last time]; it then returns two neighbouring coefficients with t0 <= t <= t1, where t < t1 unless t is the last time. Otherwise it reports failure and leaves the outputs untouched.",
 ["inputs", "histories"], "all contents within the size bound, all query times",
 "Tests query one equidistant content at knot and mid-interval times.",
 [I+"LocalSupport2CoefficientManager-inl.hpp"], [("getCoefficientsAt", I+"LocalSupport2CoefficientManager-inl.hpp")],
 ["return value and iterators of getCoefficientsAt"])

prop("C18", "Range, window and all-coefficient queries return exactly the right ones",
 "For every content: the all-coefficients query returns each coefficient under its key with its value; the range query for [a, b] overlapping the time span returns exactly the coefficients that support the curve on it: from the last one at or before a (clamped to the span) up to the first one at or after b (clamped); a range that does not overlap returns nothing; and the window query from a up to the last time returns exactly the times >= a in ascending order.",
 ["inputs", "histories"], "all contents within the size bound, all range and window limits",
 "No test calls the range or all-coefficient queries; the window query is untested.",
 [I+"LocalSupport2CoefficientManager-inl.hpp"], [("getCoefficientsInRange, getCoefficients, getTimesInWindow", I+"LocalSupport2CoefficientManager-inl.hpp")],
 ["output of getCoefficientsInRange, getCoefficients, getTimesInWindow"])

prop("C19", "Keys handed out concurrently are all different",
 "Whatever the interleaving, calls to the key generator from any threads return pairwise different keys, also across first use; and within one thread successive keys are different.",
 ["schedules"], "all interleavings of the shared-memory accesses of up to the stated number of threads and calls",
 "No test uses threads; a data race shows only under rare schedules.",
 [S+"KeyGenerator.cpp"], [("mutex around the static counter", S+"KeyGenerator.cpp")],
 ["return values of KeyGenerator::getNextKey"],
 [("key", "static counter", S+"KeyGenerator.cpp")])

prop("C20", "Appending, moving and batch-changing coefficients change only what they name",
 "Appending at the end with a time later than the last time (or to an empty manager) adds exactly that coefficient under a new key, reported if asked for. Modifying a coefficient through its iterator, to a new unused time or to its own time, keeps its key, sets its time and value and leaves all others alone; batch modification of consecutive existing times sets exactly those values. Keys and times resolve consistently afterwards.",
 ["histories", "inputs"], "all contents within the bound, all new times (strictly later than the last for append; unused or own time for modify) and values",
 "No test calls these three operations.",
 [I+"LocalSupport2CoefficientManager-inl.hpp"], [("addCoefficientAtEnd, modifyCoefficient, modifyCoefficientsValuesInBatch", I+"LocalSupport2CoefficientManager-inl.hpp")],
 ["content, keys and times afterwards"])

prop("C21", "Writing a string matrix to CSV and reading it back gives it back",
 "For every non-empty matrix of non-empty rows whose fields contain neither comma nor newline and whose last field in each row is not empty, writing it and loading the file gives exactly the same matrix. Every row and every field is written once, fields separated by commas and rows by newlines, and replaces what the file held before. Writing a matrix without rows and loading a file that does not exist are refused.",
 ["inputs"], "all matrices with rows, columns and field lengths within the bound and arbitrary characters other than comma, newline and NUL",
 "There is no test for the CSV helpers.",
 [S+"helpers.cpp"], [("writeCSV, loadCSV", S+"helpers.cpp")],
 ["file contents, matrix returned by loadCSV"])

prop("C22", "Time-vector CSV files keep every time and value in its place",
 "A table of times and vectors written as time-vector CSV and loaded again has the same number of rows, and row i has the same time and the same vector entries (up to the printed precision of six significant digits). A file with two time columns is loaded with its first column as first time, second as second time and the remaining columns in order as the vector; what the output containers held before is discarded.",
 ["inputs"], "all tables with rows and dimensions within the bound and arbitrary numbers (number formatting and parsing taken as inverse of each other)",
 "There is no test for the CSV helpers.",
 [S+"helpers.cpp"], [("writeTimeVectorCSV, loadTimeVectorCSV, loadTimeTimeVectorCSV", S+"helpers.cpp")],
 ["vectors returned by the load functions, file contents"])

prop("C23", "The cubic Hermite position curve hits its knots with the right tangents",
 "For every strictly increasing list of at least two times and every list of positions, the fitted curve covers exactly [first, last time], evaluates to each position at its time and has the given initial and final derivative (zero for the plain fit) at the ends. At each interior knot its derivative is the slope between the two neighbouring knots.",
 ["inputs"], "all real knot times, positions and end derivatives, knot count within the bound",
 "The curve is not compiled by the build available here and has no test.",
 [S+"CubicHermiteE3Curve.cpp", I+"CubicHermiteE3Curve.hpp"],
 [("fitCurveWithDerivatives, calculateSlope, evaluate, evaluateDerivative", S+"CubicHermiteE3Curve.cpp")],
 ["evaluate, evaluateDerivative, getMinTime, getMaxTime, size"])

prop("C24", "Hermite velocity and acceleration are the derivatives of the position",
 "At every time inside the curve, the first and second derivatives returned are the exact first and second time derivatives of the evaluated position, the linear acceleration query equals the second derivative, and position and velocity are continuous across knots.",
 ["inputs"], "all real knot data and evaluation times within the knot-count bound",
 "No test; finite differences at sample points could not settle it anyway.",
 [S+"CubicHermiteE3Curve.cpp"], [("evaluate, evaluateDerivative, evaluateLinearAcceleration", S+"CubicHermiteE3Curve.cpp")],
 ["evaluate, evaluateDerivative, evaluateLinearAcceleration"])

prop("C25", "The Hermite position curve answers only on its domain and forgets on refit",
 "Evaluation and derivatives succeed exactly for times within [first, last time] and fail elsewhere and on an empty curve, without touching invalid memory; a one-knot curve answers position and first derivative only at its time. Derivative orders other than 1 and 2 are refused. A new fit replaces the earlier curve completely, and clearing empties it.",
 ["inputs", "histories"], "all contents within the bound (including empty and single-knot), all times, all refit histories within the bound",
 "No test.",
 [S+"CubicHermiteE3Curve.cpp", I+"LocalSupport2CoefficientManager-inl.hpp"],
 [("domain test in evaluate*; clear()", S+"CubicHermiteE3Curve.cpp")],
 ["return values, evaluate after refit, isEmpty, size"])

prop("C26", "A periodic Hermite fit closes smoothly",
 "For every strictly increasing list of at least three times and positions whose first and last coincide, the periodic fit gives a curve whose derivative at the first time equals that at the last time, and that common derivative is the slope between the second-to-last and the second knot taken across the seam: (p1 - p[n-2]) divided by (t1 - t0) + (t[n-1] - t[n-2]). All knots are hit.",
 ["inputs"], "all real knot times and positions within the knot-count bound",
 "No test.",
 [S+"CubicHermiteE3Curve.cpp"], [("fitPeriodicCurve", S+"CubicHermiteE3Curve.cpp")],
 ["evaluate, evaluateDerivative at the seam"])

prop("C27", "The SE3 Hermite curve translates like the position curve and hits its poses",
 "For every strictly increasing list of at least two times, every list of poses and every initial and final twist, the fitted SE3 curve evaluates at each knot time to that knot's position and rotation. Its translational part, velocity and acceleration at every time are exactly those of the cubic Hermite curve through the knot positions with neighbour-slope tangents and the given end velocities, independent of the rotations.",
 ["inputs"], "all real knot times, positions and end velocities, all unit quaternions and angular velocities (exponential and logarithmic map taken as any pair of functions satisfying their defining identities), knot count within the bound",
 "The curve needs the kindr library, which is not available in this build; its tests are not run.",
 [S+"CubicHermiteSE3Curve.cpp", I+"CubicHermiteSE3Curve.hpp"],
 [("evaluate, evaluateDerivative, evaluateLinearAcceleration, fitCurveWithDerivatives", S+"CubicHermiteSE3Curve.cpp")],
 ["evaluate, evaluateDerivative, evaluateLinearAcceleration"])

prop("C28", "The SE3 curve's angular velocity is its rotation rate, as prescribed at knots",
 "For every knot data, the rotational part of the first derivative at the first and last time equals the given initial and final angular velocity, and at an interior knot it equals the rotation difference between the neighbouring knots (box-minus, global frame) divided by their time difference. At every time inside the curve it is the global angular velocity of the evaluated rotation: twice the derivative of the quaternion equals the angular velocity times the quaternion. A periodic fit through poses whose first and last coincide has the same twist at both ends, the slope across the seam.",
 ["inputs"], "all real knot times, unit quaternions and angular velocities, knot count within the bound (exponential/logarithm as in C27)",
 "Needs kindr; tests are not run here.",
 [S+"CubicHermiteSE3Curve.cpp"], [("evaluateDerivative rotational part", S+"CubicHermiteSE3Curve.cpp")],
 ["evaluateDerivative"])

prop("C29", "The SE3 Hermite curve answers only on its domain and forgets on refit",
 "Evaluation and derivatives of the SE3 curve succeed exactly for times within [first, last time] and fail elsewhere and on an empty curve, without touching invalid memory; unsupported derivative orders are refused. A new fit replaces the earlier curve completely, and clearing empties it.",
 ["inputs", "histories"], "all contents within the bound, all times, all refit histories within the bound",
 "Needs kindr; tests are not run here.",
 [S+"CubicHermiteSE3Curve.cpp"], [("domain test in evaluate*; clear()", S+"CubicHermiteSE3Curve.cpp")],
 ["return values, evaluate after refit, isEmpty, size"])

prop("C30", "Importing a joint trajectory message selects the named joint and its times",
 "Importing a trajectory message for a joint name returns false, leaving the curve as it was, when the message does not list that joint (including when it lists none), and otherwise returns true and fits exactly the positions of that joint, in order, at their times from start. This holds for scalar joint trajectories, for the translations of multi-DOF trajectories and for the poses of multi-DOF trajectories.",
 ["inputs"], "all joint name lists, joints and points within the bound, all positions and strictly increasing times",
 "The ROS package is not built here and has no tests.",
 ["curves_ros/src/RosJointTrajectoryInterface.cpp", "curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp", "curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp"],
 [("fromMessage", "curves_ros/src/RosJointTrajectoryInterface.cpp")],
 ["return value of fromMessage, evaluate afterwards"])

prop("C31", "Slerp, SE2, discrete and composition curves interpolate their knots",
 "Slerp SE3/SE2 curves, discrete and semi-discrete curves and composition curves evaluate to the fitted value at each knot time and succeed only on their domain.",
 ["inputs"], "all knot data",
 "They need gtsam/kindr expression headers that are not present; several bodies are not implemented.",
 [S+"SlerpSE3Curve.cpp", S+"SlerpSE2Curve.cpp", S+"DiscreteSE3Curve.cpp", S+"SemiDiscreteSE3Curve.cpp", I+"SE3CompositionCurve-inl.hpp"],
 [("evaluate", S+"SlerpSE3Curve.cpp")], ["evaluate"])

prop("C32", "Extending a pose curve keeps the right measurements as its knots",
 "When a cubic Hermite pose curve is extended through a sampling policy with measurements at strictly increasing times, one by one or in any batches, it covers exactly [first, last measured time] and every knot is a measurement with its pose. A measurement becomes a permanent knot if it is the first, or if since the last permanent knot at least the minimum number of other measurements was taken and more than the minimum period has passed; any other is a provisional end that the next measurement replaces. At a permanent knot followed by another one the twist is the slope between its permanent neighbours (at the first knot: to the next). A measurement not later than the end of the curve is refused.",
 ["inputs", "histories"], "all times, poses and minimum periods; numbers of measurements, batch sizes and minimum counts within the bound",
 "No test that runs extends a curve.",
 [I+"CubicHermiteSE3Curve.hpp", I+"SamplingPolicy.hpp"],
 [("SamplingPolicy::extend, defaultExtend, interpolationExtend for CubicHermiteSE3Curve", I+"CubicHermiteSE3Curve.hpp")],
 ["getCurveTimes, size, getMinTime, getMaxTime, evaluate and evaluateDerivative at the knots, failed CHECK"])

prop("C33", "The Slerp curve has its knots at the times it was given",
 "Fitting a Slerp pose curve leaves exactly the given times as knots, setting a curve or extending it by several measurements adds the given times to the knots it has, with one key per knot if asked for, and clearing removes all. Extending by one later measurement at a time, the last knot is always the newest measurement; with sampling ratio 1 all measurements stay, and with ratio r > 1, after the first two measurements, each group of r consecutive measurements leaves one knot, that of its latest measurement.",
 ["inputs", "histories"], "all times and poses; numbers of operations and measurements and the ratio within the bound",
 "No test.",
 [S+"SlerpSE3Curve.cpp", I+"SlerpSE3Curve.hpp", I+"LocalSupport2CoefficientManager-inl.hpp"],
 [("fitCurve, setCurve, extend, SamplingPolicy::extend<SlerpSE3Curve>", I+"SlerpSE3Curve.hpp")],
 ["getCurveTimes, size, isEmpty, getMinTime, getMaxTime, returned keys"])

prop("C34", "A saved pose curve holds the curve's poses at the saved times",
 "Saving a cubic Hermite pose curve writes one row per knot, saving it at given times inside the curve one row per time in the given order: the time, the position x, y, z and the rotation quaternion w, x, y, z that evaluating the curve at that time gives, up to the printed precision.",
 ["inputs"], "all times and poses, numbers of knots and saved times within the bound",
 "No test.",
 [S+"CubicHermiteSE3Curve.cpp", S+"helpers.cpp"],
 [("saveCurveTimesAndValues, saveCurveAtTimes", S+"CubicHermiteSE3Curve.cpp")],
 ["content of the written file, loaded again"])

prop("C35", "Copies of curves and managers are equal and independent",
 "A copy, by construction or by assignment over any earlier content, of a coefficient manager, spline container, scalar, vector, Hermite position or Hermite pose curve behaves like its source: same times, values, keys and evaluation. Changing, extending, clearing or destroying either of the two afterwards does not change the other, and every key of the copy finds the coefficient of the copy. Two managers compare equal exactly when they have the same times and at each the same key and value.",
 ["inputs", "histories"], "all contents, values and times; numbers of coefficients and later operations within the bound",
 "No test copies a curve and changes one of the two.",
 [I+"LocalSupport2CoefficientManager-inl.hpp", I+"PolynomialSplineContainer.hpp", I+"PolynomialSplineScalarCurve.hpp", I+"PolynomialSplineVectorSpaceCurve.hpp", S+"CubicHermiteE3Curve.cpp", I+"CubicHermiteSE3Curve.hpp"],
 [("copy constructor and assignment, equals", I+"LocalSupport2CoefficientManager-inl.hpp")],
 ["getters, evaluate, size, equals of both objects after changing one"])

prop("C36", "A file of an evaluated curve holds the curve's samples",
 "Writing the evaluation of a Hermite position or pose curve with n >= 2 samples to a file leaves a file with one header line that names the columns and one row per sample: row k has the time first + k (last - first) / (n - 1), k from 0, for every such time before the end of the curve (a row at the very end is optional), and the position, (for poses) the rotation quaternion w, x, y, z, the velocity and (for poses) the angular velocity that evaluating the curve at that time gives, up to the six printed decimals. Earlier content of the file is gone. A file that cannot be opened is reported by the return value false.",
 ["inputs"], "all times, positions, rotations and end derivatives; numbers of knots and samples within the bound",
 "No test.",
 [S+"CubicHermiteE3Curve.cpp", S+"CubicHermiteSE3Curve.cpp"],
 [("writeEvalToFile", S+"CubicHermiteE3Curve.cpp"), ("writeEvalToFile", S+"CubicHermiteSE3Curve.cpp")],
 ["content of the written file, return value"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
