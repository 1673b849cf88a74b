R = "real"
JOBS = {
    "quick": [("vh_dir", [0, 1, 0, 0], R)] + [("vh_dir", [c, 0, 0, 0], R) for c in (0, 1, 2, 3, 4, 5)]
    + [("vh_points", [1, 2, 0, 0], R), ("vh_points", [2, 1, 1, 1], R), ("vh_points", [3, 1, 2, 1], R), ("vh_points", [2, 2, 3, 2], R)] + [("vh_large", [7, 60, 1, 1], ""), ("vh_large", [1, 200, 2, 0], ""), ("vh_large", [25, 9, 3, 2], ""), ("vh_large", [3, 40, 4, 1], ""), ("vh_large", [2, 120, 6, 2], ""), ("vh_flow", [5, 40, 3, 1], ""), ("vh_flow", [4, 50, 6, 2], ""), ("vh_flow", [1, 30, 4, 3], "")],
    "thorough": [("vh_dir", [c, 1, 0, 0], R) for c in (2, 3, 5, 6, 7, 8)]
    + [("vh_points", [4, 1, 0, 1], R), ("vh_points", [3, 3, 1, 2], R), ("vh_points", [1, 4, 3, 1], R)],
}
COVERS = [1, 2, 3]
BOUNDS = "vh_dir(0, 1): one column, every reference direction with polar half-angle tangent in (0.1, 10), azimuth half-angle tangent in (-20, 20) and length factor in (0.05, 20), exact reals; the other vh_dir: single azimuths, including the axis directions; vh_points(cols, n): every coordinate in (-10, 10) of n points in cols columns, for a fixed reference direction, fixed orthogonal components and means per column; vh_large: more fixed directions, columns and points; vh_flow: the whole stage with the computed components, fixed data"
OUTSIDE = "reference directions on or within about 11 degrees of the last axis (the rotation is undefined on it), float rounding, the computation of the components (C25)"
ASSUMPTIONS = ["f32 arithmetic taken as exact real arithmetic; every counterexample is replayed with f32", "comparisons of terms that differ by a constant as rational functions are decided by a polynomial normal form in the engine before the solver is asked"]
TAGS = {1: "rotation finishes with one matrix", 2: "shape", 3: "reference direction", 4: "orthogonal", 5: "determinant", 6: "number of points", 7: "coordinates", 8: "reduced by other components than the column's own", 9: "reference reduced differently from the data"}
