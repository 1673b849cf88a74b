R = "real"
JOBS = {
    "quick": [("vh_labels", [3, 1, 4, 0], R), ("vh_labels", [3, 1, 4, 1], R), ("vh_labels", [3, 1, 4, 2], R), ("vh_labels", [3, 1, 4, 3], R), ("vh_labels", [3, 1, 4, 4], R), ("vh_labels", [3, 2, 3, 1], R), ("vh_nearest", [4, 1, 60, 140], R), ("vh_nearest", [4, 2, 60, 141], R), ("vh_equal", [3, 1, 3, 1], ""), ("vh_equal", [2, 2, 2, 2], ""), ("vh_large", [40, 3, 9, 1], ""), ("vh_large", [90, 1, 30, 2], ""), ("vh_large", [25, 5, 2, 3], "")],
    "thorough": [("vh_labels", [4, 1, 5, 0], R), ("vh_labels", [4, 1, 5, 1], R), ("vh_labels", [4, 1, 5, 2], R), ("vh_labels", [4, 1, 5, 3], R), ("vh_labels", [4, 1, 5, 4], R), ("vh_labels", [3, 3, 3, 0], R), ("vh_labels", [4, 2, 3, 2], R), ("vh_nearest", [5, 2, 61, 140], R), ("vh_nearest", [6, 1, 1, 248], R), ("vh_equal", [4, 2, 3, 2], ""), ("vh_equal", [6, 1, 2, 3], "")],
}
COVERS = [1, 2, 3, 4]
BOUNDS = "vh_labels(n, dims, m, at): n intersections in dims dimensions, the extremes of each column fixed at arbitrary rows, all other coordinates arbitrary; m neighbouring grid positions (start, middle or end of the 250) with arbitrary densities in [0, 1], the others flat or with one peak in the middle; vh_nearest: three given peaks, arbitrary coordinates; vh_equal: the real density estimation on every combination of few values; vh_large: many fixed values, dimensions and peaks"
OUTSIDE = "densities that vary at more than m positions, other extremes, the density estimate itself (C15)"
ASSUMPTIONS = ["f32 arithmetic taken as exact real arithmetic; every counterexample is replayed with f32"]
TAGS = {1: "exactly one answer", 2: "one label per value", 3: "labels without gaps in order of first appearance", 4: "no peak: one center for all", 5: "center is a peak", 6: "center is a nearest peak", 7: "different labels for the same centers", 8: "equal values, different labels"}
