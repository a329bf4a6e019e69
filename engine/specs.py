"""Which harness entries, with which bounds, decide which property."""
TR = ["curves/src/polynomial_splines_traits.cpp"]
UNITS = {}
SPECS = {}


def unit(name, src=None, extra=(), **kw):
    UNITS[name] = dict(src=src or name + ".cpp", extra=list(extra), **kw)


ORD = [1, 2, 3, 4, 5]

unit("c01", extra=TR)
SPECS["C01"] = dict(jobs=[dict(unit="c01", entry="h_c01", quick=[dict(order=o) for o in ORD],
                               reach=["from options", "from temporary options", "recomputed on a default spline", "recomputed on a used spline",
                                      "recomputed on a spline with given coefficients", "copied"])],
                    outside="orders above 5; durations <= 0")
unit("c02", extra=TR)
SPECS["C02"] = dict(jobs=[dict(unit="c02", entry="h_c02", quick=[dict(order=o) for o in ORD], reach=["before", "inside", "after"])],
                    outside="orders above 5; negative durations")
unit("c03", extra=TR)
SPECS["C03"] = dict(jobs=[dict(unit="c03", entry="h_c03", quick=[dict(order=o) for o in ORD],
                               reach=["row vector", "times coefficients", "row block", "reference argument"])],
                    outside="orders above 5")
unit("c04", extra=TR)
SPECS["C04"] = dict(jobs=[dict(unit="c04", entry="h_c04", reach=["fitted"],
                               quick=[dict(order=5, n=n, used=n < 5) for n in range(2, 11)] + [dict(order=4, n=n, used=n < 5) for n in range(3, 9)],
                               thorough=[dict(order=5, n=n, used=n < 6) for n in range(2, 17)] + [dict(order=4, n=n, used=n < 6) for n in range(3, 17)])],
                    outside="knot counts above the bound; conditioning of the decomposition (real arithmetic)")
unit("c05", extra=TR)


def c05(nmax):
    v = []
    for n in range(2, nmax + 1):
        for o in ORD:
            v += [dict(order=o, n=n, overload=2, used=n < 4), dict(order=o, n=n, overload=4, used=n < 4)]
            if o <= 3 or (o == 4 and n == 2):
                v.append(dict(order=o, n=n, overload=6, used=n < 4))
    return v


SPECS["C05"] = dict(jobs=[dict(unit="c05", entry="h_c05", reach=["straight", "smooth"], quick=c05(6), thorough=c05(10), samples=1)],
                    outside="knot counts above the bound")
unit("c06", extra=TR)
SPECS["C06"] = dict(jobs=[dict(unit="c06", entry="h_c06", reach=["refused", "usable"], samples=1,
                               quick=[dict(order=o, n=n, m=2) for o in ORD for n in (0, 1, 2, 3)],
                               thorough=[dict(order=o, n=n, m=m) for o in ORD for n in range(0, 5) for m in (2, 3)])],
                    outside="knot counts above the bound; NaN or infinite times")
unit("c07", extra=TR)
SPECS["C07"] = dict(jobs=[dict(unit="c07", entry="h_c07", reach=["empty", "before", "inside", "after"], samples=1,
                               quick=[dict(order=5, ops=3), dict(order=3, ops=2), dict(order=1, ops=2), dict(order=2, ops=2), dict(order=4, ops=2)],
                               thorough=[dict(order=o, ops=4) for o in ORD] + [dict(order=5, ops=5)]),
                          dict(unit="c07", entry="h_c07_many", reach=["before", "inside", "after"], samples=1, quick=[dict(order=5, n=8), dict(order=3, n=12), dict(order=1, n=6)],
                               thorough=[dict(order=o, n=n) for o in ORD for n in (5, 9, 17)])],
                    outside="longer histories; splines of zero or negative duration")
unit("c08", extra=TR)
SPECS["C08"] = dict(jobs=[dict(unit="c08", entry="h_c08", reach=["empty", "before", "inside", "after"], samples=1,
                               quick=[dict(order=o, n=n) for o in ORD for n in range(0, 7)],
                               thorough=[dict(order=o, n=n) for o in ORD for n in range(0, 10)])],
                    outside="more segments than the bound; splines of zero or negative duration")
unit("c09", extra=TR)
SPECS["C09"] = dict(jobs=[dict(unit="c09", entry="h_c09", reach=["advanced", "not advanced", "end"], samples=1,
                               quick=[dict(order=5, ops=3, n=2), dict(order=3, ops=2, n=2), dict(order=1, ops=2, n=1)],
                               thorough=[dict(order=o, ops=4, n=2) for o in ORD] + [dict(order=o, ops=3, n=3) for o in ORD]),
                          dict(unit="c09", entry="h_c09_steps", reach=["played"], samples=1,
                               quick=[dict(order=5, steps=3, n=3), dict(order=4, steps=2, n=2), dict(order=2, steps=2, n=2), dict(order=3, steps=2, n=6)],
                               thorough=[dict(order=o, steps=5, n=4) for o in ORD])],
                    outside="longer histories; negative steps; splines of zero or negative duration")
unit("c10", extra=TR)
SPECS["C10"] = dict(jobs=[dict(unit="c10", entry="h_c10", reach=["container"], samples=1, quick=[dict(order=o, n=3) for o in ORD],
                               thorough=[dict(order=o, n=n) for o in ORD for n in (2, 3, 4)]),
                          dict(unit="c10", entry="h_c10_scalar", reach=["scalar"], quick=[{}]),
                          dict(unit="c10", entry="h_c10_vector", reach=["vector"], quick=[{}])],
                    outside="longer earlier histories")
unit("c11", extra=TR)
SPECS["C11"] = dict(jobs=[dict(unit="c11", entry="h_c11", reach=["knots"], quick=[dict(n=n) for n in (2, 3, 4, 5, 6)], thorough=[dict(n=n) for n in range(2, 9)]),
                          dict(unit="c11", entry="h_c11_inside", reach=["inside"], quick=[dict(n=n) for n in (2, 3, 4)], thorough=[dict(n=n) for n in (2, 3, 4)]),
                          dict(unit="c11", entry="h_c11_options", reach=["options"], quick=[dict(n=n) for n in (1, 2, 3, 7)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)])],
                    outside="knot counts above the bound")
unit("c12", extra=TR)
SPECS["C12"] = dict(jobs=[dict(unit="c12", entry="h_c12_3", reach=["knots", "components"], quick=[dict(n=2), dict(n=3), dict(n=4), dict(n=5)], thorough=[dict(n=n) for n in range(2, 8)]),
                          dict(unit="c12", entry="h_c12_1", reach=["knots", "components"], quick=[dict(n=2)], thorough=[dict(n=n) for n in (2, 3, 4)]),
                          dict(unit="c12", entry="h_c12_2", reach=["knots", "components"], quick=[dict(n=3)], thorough=[dict(n=n) for n in (2, 3, 4)]),
                          dict(unit="c12", entry="h_c12_7", reach=["knots", "components"], quick=[dict(n=2)], thorough=[dict(n=n) for n in (2, 3)])],
                    outside="knot counts and dimensions above the bound")
unit("c13", extra=TR)
SPECS["C13"] = dict(jobs=[dict(unit="c13", entry="h_c13", reach=["container"], samples=1, quick=[dict(order=o, n=n) for o in ORD for n in (2, 3, 5)],
                               thorough=[dict(order=o, n=n) for o in ORD for n in range(2, 8)]),
                          dict(unit="c13", entry="h_c13_scalar", reach=["scalar"], quick=[dict(n=2), dict(n=3)], thorough=[dict(n=n) for n in (2, 3, 4, 5)]),
                          dict(unit="c13", entry="h_c13_vector", reach=["vector"], quick=[dict(n=3)], thorough=[dict(n=n) for n in (2, 3, 4)])],
                    outside="knot counts above the bound; rounding of t + s")
unit("c14", extra=TR)
SPECS["C14"] = dict(jobs=[dict(unit="c14", entry="h_c14", reach=["sound", "unsound"], samples=1,
                               quick=[dict(order=5, n=1), dict(order=5, n=2), dict(order=1, n=4), dict(order=3, n=2)],
                               thorough=[dict(order=o, n=n) for o in ORD for n in (1, 2, 3)]),
                          dict(unit="c14", entry="h_c14_step", reach=["stepped"], samples=1, quick=[dict(order=5, n=2), dict(order=3, n=6)],
                               thorough=[dict(order=o, n=n) for o in ORD for n in (1, 2, 3, 4)])],
                    outside="the empty container; more segments than the bound")
KG = ["curves/src/KeyGenerator.cpp"]
unit("c15", extra=KG)
SPECS["C15"] = dict(jobs=[dict(unit="c15", entry="h_c15", reach=["content", "emptied"], quick=[dict(init=2, ops=2), dict(init=0, ops=3), dict(init=4, ops=1), dict(init=10, ops=1)],
                               thorough=[dict(init=2, ops=3), dict(init=4, ops=2), dict(init=6, ops=1)]),
                          dict(unit="c15", entry="h_c15_absent", reach=["absent"], quick=[dict(init=2, ops=1), dict(init=0, ops=2), dict(init=9, ops=0)],
                               thorough=[dict(init=4, ops=1), dict(init=6, ops=0)]),
                          dict(unit="c15", entry="h_c15_missing", reach=["missing time", "missing key"], quick=[dict(init=2, ops=1), dict(init=0, ops=0)],
                               thorough=[dict(init=2, ops=2), dict(init=4, ops=1)])],
                    outside="longer histories; NaN times")
SPECS["C16"] = dict(jobs=[dict(unit="c15", entry="h_c16", reach=["keys"], quick=[dict(init=2, ops=2), dict(init=0, ops=3), dict(init=4, ops=1), dict(init=10, ops=1)],
                               thorough=[dict(init=2, ops=3), dict(init=4, ops=2), dict(init=6, ops=1)]),
                          dict(unit="c15", entry="h_c16_two", reach=["two"], quick=[dict(ops=4)], thorough=[dict(ops=6)]),
                          dict(unit="c15", entry="h_c16_many", reach=["many keys"], quick=[dict(n=70000)], thorough=[dict(n=300000)]),
                          dict(unit="c15", entry="h_c16_missing", reach=["unknown key"], quick=[dict(init=2, ops=1), dict(init=0, ops=0)],
                               thorough=[dict(init=2, ops=2), dict(init=4, ops=1)])],
                    outside="longer histories; NaN times; more keys than the bound")
unit("c17", extra=KG)
SPECS["C17"] = dict(jobs=[dict(unit="c17", entry="h_c17", reach=["bracketed", "not bracketed"], quick=[dict(n=n) for n in (0, 1, 2, 3, 4, 9, 18)],
                               thorough=[dict(n=n) for n in list(range(0, 18)) + [33]]),
                          dict(unit="c17", entry="h_c17_history", reach=["bracketed", "not bracketed"], samples=1, quick=[dict(n=n) for n in (1, 2, 3, 6)],
                               thorough=[dict(n=n) for n in (1, 2, 3, 4, 6, 8)])],
                    outside="more coefficients than the bound; NaN times; more than one change between queries")
SPECS["C18"] = dict(jobs=[dict(unit="c17", entry="h_c18_range", reach=["range", "no overlap"], quick=[dict(n=n) for n in (0, 1, 2, 3, 4, 8)], thorough=[dict(n=n) for n in range(0, 6)]),
                          dict(unit="c17", entry="h_c18_all", reach=["all"], quick=[dict(n=n) for n in (0, 1, 3, 9)], thorough=[dict(n=n) for n in range(0, 6)]),
                          dict(unit="c17", entry="h_c18_window", reach=["window"], quick=[dict(n=n) for n in (1, 2, 3, 4, 9)], thorough=[dict(n=n) for n in range(1, 7)])],
                    outside="more coefficients than the bound; windows that do not reach to the last time (refused by the code)")
SPECS["C20"] = dict(jobs=[dict(unit="c17", entry="h_c20_append", reach=["appended"], quick=[dict(n=n, adds=2) for n in (0, 1, 2, 3, 9)], thorough=[dict(n=n, adds=3) for n in range(0, 5)]),
                          dict(unit="c17", entry="h_c20_append_refused", reach=["too early"], quick=[dict(n=n) for n in (1, 2)], thorough=[dict(n=n) for n in (1, 2, 3)]),
                          dict(unit="c17", entry="h_c20_modify", reach=["moved", "same time"], quick=[dict(n=n) for n in (1, 2, 3, 7)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)]),
                          dict(unit="c17", entry="h_c20_batch", reach=["batch"], quick=[dict(n=n) for n in (1, 2, 3, 4, 8)], thorough=[dict(n=n) for n in range(1, 6)])],
                    outside="more coefficients than the bound; moving onto the time of another coefficient (unspecified)")
unit("c19", extra=KG)
SPECS["C19"] = dict(custom="c19", quick=[(2, 2, 0), (2, 2, 1), (3, 1, 0), (3, 1, 1)], thorough=[(2, 3, 0), (2, 4, 1), (3, 2, 0), (3, 2, 1), (4, 1, 0), (4, 1, 1)],
                    jobs=[], outside="more threads or calls; wrap-around of the counter; busy waiting beyond 60 shared accesses; weaker memory orders than sequential consistency",
                    technique="SMT query over all interleavings of the shared-memory events of the symbolically executed threads")
HP = ["curves/src/helpers.cpp"]
unit("c21", extra=HP, flags=["-include", "vf_streams.hpp", "-D_GLIBCXX_ASSERTIONS"])
SPECS["C21"] = dict(jobs=[dict(unit="c21", entry="h_c21", reach=["written", "loaded", "overwritten"],
                               quick=[dict(rows=1, cols=1, len=4, old=0), dict(rows=1, cols=3, len=2, old=1), dict(rows=2, cols=2, len=1, old=1), dict(rows=3, cols=1, len=2, old=0)],
                               thorough=[dict(rows=1, cols=4, len=2, old=1), dict(rows=2, cols=2, len=2, old=1), dict(rows=2, cols=3, len=1, old=0), dict(rows=4, cols=1, len=2, old=0)]),
                          dict(unit="c21", entry="h_c21_large", reach=["large"],
                               quick=[dict(rows=1, cols=2, len=300), dict(rows=260, cols=1, len=1), dict(rows=1, cols=260, len=1)],
                               thorough=[dict(rows=1, cols=2, len=9000), dict(rows=1100, cols=1, len=2), dict(rows=1, cols=1100, len=2)]),
                          dict(unit="c21", entry="h_c21_refused", reach=["absent file", "empty matrix"], quick=[{}])],
                    note="The file and string streams of the C++ library are replaced by an in-memory stand-in in the symbolic build; the replay uses the real ones.",
                    outside="larger matrices and fields; failing writes (full disk, missing permission); the stream library itself")
SPECS["C22"] = dict(jobs=[dict(unit="c21", entry="h_c22", reach=["round trip"], quick=[dict(rows=1, dim=1), dict(rows=2, dim=2), dict(rows=3, dim=1), dict(rows=2, dim=4)],
                               thorough=[dict(rows=r, dim=d) for r in (1, 2, 4, 6) for d in (1, 2, 3, 6)]),
                          dict(unit="c21", entry="h_c22_one", reach=["one time"], quick=[dict(rows=2, dim=2), dict(rows=1, dim=3), dict(rows=3, dim=1)],
                               thorough=[dict(rows=r, dim=d) for r in (1, 2, 4, 6) for d in (1, 2, 3, 6)]),
                          dict(unit="c21", entry="h_c22_two", reach=["two times"], quick=[dict(rows=1, dim=1), dict(rows=2, dim=2), dict(rows=3, dim=1), dict(rows=2, dim=4)],
                               thorough=[dict(rows=r, dim=d) for r in (1, 2, 4, 6) for d in (1, 2, 3, 6)])],
                    note="The file and string streams of the C++ library are replaced by an in-memory stand-in in the symbolic build, numbers written with at least 6 "
                         "significant digits are taken to parse back to themselves (with fewer digits: to any value within the rounding); the replay uses the real streams.",
                    outside="larger tables; numbers that are not finite; rounding to the printed digits")
STUB = ["-I%s/stubs" % __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))), "harness")]
E3 = ["curves/src/CubicHermiteE3Curve.cpp", "curves/src/KeyGenerator.cpp", "curves/src/SE3Curve.cpp"]
KINDR = "The kindr library is not installed; harness/stubs/kindr stands in for it in both builds."
unit("c23", extra=E3, pre_inc=STUB)
SPECS["C23"] = dict(jobs=[dict(unit="c23", entry="h_c23", reach=["plain", "with derivatives"], samples=1,
                               quick=[dict(n=2, used=1), dict(n=3, used=1), dict(n=4, used=0), dict(n=5, used=0), dict(n=9, used=0)],
                               thorough=[dict(n=n, used=n < 6) for n in range(2, 9)])],
                    note=KINDR, outside="more knots; rounding")
SPECS["C24"] = dict(jobs=[dict(unit="c23", entry="h_c24", reach=["inside"], samples=1, quick=[dict(n=n) for n in (2, 3, 4, 5, 8)], thorough=[dict(n=n) for n in range(2, 9)])],
                    note=KINDR, outside="more knots; rounding")
SPECS["C25"] = dict(jobs=[dict(unit="c23", entry="h_c25", reach=["inside", "outside", "one knot", "cleared"], samples=1,
                               quick=[dict(n=0, used=1), dict(n=1, used=1), dict(n=2, used=1), dict(n=3, used=0)],
                               thorough=[dict(n=n, used=1) for n in range(0, 5)])],
                    note=KINDR, outside="more knots; NaN times; the second derivative of a one-knot curve")
SPECS["C26"] = dict(jobs=[dict(unit="c23", entry="h_c26", reach=["periodic"], samples=1,
                               quick=[dict(n=3, used=1), dict(n=4, used=0), dict(n=5, used=0), dict(n=8, used=0)], thorough=[dict(n=n, used=n < 5) for n in range(3, 9)])],
                    note=KINDR, outside="more knots; rounding")
SE3 = ["curves/src/CubicHermiteSE3Curve.cpp", "curves/src/SlerpSE3Curve.cpp", "curves/src/SE3Curve.cpp", "curves/src/KeyGenerator.cpp", "curves/src/helpers.cpp"]
unit("c27", extra=SE3, pre_inc=STUB)
SPECS["C27"] = dict(jobs=[dict(unit="c27", entry="h_c27", reach=["plain", "with derivatives"], samples=1, cfg=dict(cut=8000), quick=[dict(n=2, used=1), dict(n=3, used=0), dict(n=4, used=0)],
                               thorough=[dict(n=n, used=n < 4) for n in range(2, 7)]),
                          dict(unit="c27", entry="h_c27_translation", reach=["inside"], samples=1, cfg=dict(cut=2000), quick=[dict(n=n) for n in (2, 3, 4, 7)],
                               thorough=[dict(n=n) for n in range(2, 8)])],
                    note=KINDR, outside="more knots; rounding; rotations that are not given by unit quaternions")
SPECS["C28"] = dict(jobs=[dict(unit="c27", entry="h_c28", reach=["knots", "periodic"], samples=1, cfg=dict(cut=8000), quick=[dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=n) for n in range(2, 7)]),
                          dict(unit="c27", entry="h_c28_rate", reach=["rate"], samples=2, cfg=dict(cut=120000), quick=[dict(n=2, rot=3, five=5), dict(n=3, rot=0, five=5)], thorough=[dict(n=2, rot=3, five=5), dict(n=3, rot=0, five=5), dict(n=4, rot=0, five=5)])],
                    note=KINDR, outside="more knots; rounding; between the knots of several segments: orientations other than those in the harness (quick)")
SPECS["C29"] = dict(jobs=[dict(unit="c27", entry="h_c29", reach=["inside", "outside", "one knot", "cleared"], samples=1, cfg=dict(cut=2000),
                               quick=[dict(n=0, used=1), dict(n=1, used=1), dict(n=2, used=1), dict(n=3, used=0)], thorough=[dict(n=n, used=1) for n in range(0, 5)])],
                    note=KINDR, outside="more knots; NaN times; the acceleration of a one-knot curve")
ROS = ["curves_ros/src/RosJointTrajectoryInterface.cpp", "curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp", "curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp"]
unit("c30", extra=ROS + SE3 + TR, pre_inc=STUB, flags=["-include", "vf_streams.hpp", "-D_GLIBCXX_ASSERTIONS"])
J = [dict(n=2, joints=0, lens=4), dict(n=5, joints=1, lens=1), dict(n=3, joints=1, lens=4), dict(n=2, joints=2, lens=4), dict(n=2, joints=3, lens=1)]
JT = J + [dict(n=n, joints=j, lens=2) for n in (2, 3, 4) for j in (1, 2, 3)] + [dict(n=2, joints=4, lens=1)]
SPECS["C30"] = dict(jobs=[dict(unit="c30", entry="h_c30_scalar", reach=["scalar", "scalar unchanged", "scalar refused", "scalar imported before"], samples=1, quick=J, thorough=JT),
                          dict(unit="c30", entry="h_c30_translation", reach=["translation", "translation unchanged", "translation refused", "translation imported before"], samples=1,
                               quick=[J[0], J[1], dict(n=2, joints=1, lens=4), dict(n=3, joints=2, lens=2), J[4]], thorough=JT),
                          dict(unit="c30", entry="h_c30_pose", reach=["pose", "pose unchanged", "pose refused", "pose imported before"], samples=1, cfg=dict(cut=2000),
                               quick=[J[0], J[1], dict(n=3, joints=1, lens=4), dict(n=2, joints=2, lens=2), J[4]], thorough=JT)],
                    note=KINDR + " The ROS message headers are not installed either; harness/stubs has their fields (seconds and nanoseconds as arbitrary reals).",
                    outside="more joints and points, longer names; messages that list a joint twice, or with fewer positions than joints; fewer than two points")
unit("c32", extra=SE3, pre_inc=STUB, flags=["-include", "vf_streams.hpp", "-D_GLIBCXX_ASSERTIONS"])
SPECS["C32"] = dict(jobs=[dict(unit="c32", entry="h_c32", reach=["provisional end", "permanent end", "tangent", "two curves"], samples=1, cfg=dict(cut=8000),
                               quick=[dict(n=n, m=1, batch=1, rot=1) for n in (1, 2, 3, 4)] + [dict(n=5, m=1, batch=2, rot=0), dict(n=5, m=2, batch=5, rot=0), dict(n=6, m=3, batch=1, rot=0),
                                      dict(n=7, m=1, batch=1, rot=0), dict(n=10, m=2, batch=3, rot=0), dict(n=11, m=1, batch=4, rot=0)],
                               thorough=[dict(n=n, m=m, batch=b, rot=r) for n in range(1, 9) for m in (1, 2, 3, 4) for b in (1, 3) for r in ((0, 1) if n < 6 else (0,))]),
                          dict(unit="c32", entry="h_c32_past", reach=["past"], samples=1, quick=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in range(1, 6)])],
                    note=KINDR, outside="more measurements; a minimum of zero measurements; a policy reused for another curve or after a refit; tangents of the last two knots")
SPECS["C33"] = dict(jobs=[dict(unit="c32", entry="h_c33_batch", reach=["batches"], samples=1, quick=[dict(ops=1, n=3), dict(ops=2, n=2)],
                               thorough=[dict(ops=2, n=4), dict(ops=3, n=2), dict(ops=3, n=3)]),
                          dict(unit="c32", entry="h_c33_single", reach=["one by one"], samples=1, quick=[dict(n=n, ratio=r) for n, r in ((14, 1), (18, 2), (17, 3), (18, 4), (12, 6))],
                               thorough=[dict(n=40, ratio=r) for r in range(1, 11)])],
                    note=KINDR, outside="more knots; changing the sampling ratio between measurements; the poses of the knots, which the class offers no way to read")
SPECS["C34"] = dict(jobs=[dict(unit="c32", entry="h_c34", reach=["knots", "at times", "saved before"], samples=1, cfg=dict(cut=8000), quick=[dict(n=2, at=0, rot=1), dict(n=3, at=0, rot=1), dict(n=2, at=1, rot=1), dict(n=3, at=2, rot=0)],
                               thorough=[dict(n=n, at=0, rot=1) for n in (2, 3, 4, 5)] + [dict(n=n, at=a, rot=0) for n in (2, 3) for a in (1, 2)])],
                    note=KINDR, outside="more knots; rounding to the printed digits; times outside the curve")
unit("c35", extra=TR + KG)
unit("c35h", extra=SE3 + ["curves/src/CubicHermiteE3Curve.cpp"], pre_inc=STUB)
SPECS["C35"] = dict(jobs=[dict(unit="c35", entry="h_c35_manager", reach=["copied", "equal", "different", "outlived"], samples=1,
                               quick=[dict(n=0, after=1), dict(n=1, after=1), dict(n=2, after=0), dict(n=3, after=0)], thorough=[dict(n=n, after=1) for n in (0, 1, 2, 3)]),
                          dict(unit="c35", entry="h_c35_container", reach=["container"], samples=1, quick=[dict(order=o) for o in (5, 2)], thorough=[dict(order=o) for o in ORD]),
                          dict(unit="c35", entry="h_c35_scalar", reach=["scalar"], quick=[{}]),
                          dict(unit="c35", entry="h_c35_vector", reach=["vector"], quick=[{}]),
                          dict(unit="c35h", entry="h_c35_e3", reach=["copied curve"], quick=[dict(n=2), dict(n=3)], thorough=[dict(n=n) for n in (2, 3, 4)]),
                          dict(unit="c35h", entry="h_c35_se3", reach=["copied curve"], cfg=dict(cut=2000), quick=[dict(n=2), dict(n=3)], thorough=[dict(n=n) for n in (2, 3, 4)]),
                          dict(unit="c35h", entry="h_c35_extend", reach=["extended copy", "permanent"], cfg=dict(cut=2000), quick=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=n) for n in range(1, 8)])],
                    note=KINDR, outside="more knots and longer histories before and after the copy")
unit("c36", extra=SE3 + ["curves/src/CubicHermiteE3Curve.cpp"], pre_inc=STUB, flags=["-include", "vf_streams.hpp", "-D_GLIBCXX_ASSERTIONS"])
SPECS["C36"] = dict(jobs=[dict(unit="c36", entry="h_c36_e3", reach=["positions"], samples=1, quick=[dict(n=2, samples=2), dict(n=2, samples=5), dict(n=3, samples=4)],
                               thorough=[dict(n=n, samples=s) for n in (2, 3, 4) for s in (2, 3, 5, 8)]),
                          dict(unit="c36", entry="h_c36_se3", reach=["poses"], samples=1, cfg=dict(cut=2000), quick=[dict(n=2, samples=2, rot=1, turn=1), dict(n=2, samples=3, rot=0, turn=0), dict(n=3, samples=4, rot=0, turn=0)],
                               thorough=[dict(n=n, samples=s, rot=0, turn=0) for n in (2, 3) for s in (2, 3, 5)] + [dict(n=3, samples=2, rot=1, turn=1)]),
                          dict(unit="c36", entry="h_c36_refused", reach=["refused"], samples=1, quick=[{}])],
                    note=KINDR + " The C and C++ file functions are replaced by an in-memory stand-in in the symbolic build; the replay uses the real ones.",
                    outside="more knots and samples; fewer than two samples; failing writes (full disk)")
