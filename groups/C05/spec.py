R = "real"
JOBS = {
    "quick": [("vh_plane2", [i], R) for i in (0, 1, 2, 3, 4)] + [("vh_planed", [d, 1, a], R) for d in (2, 4) for a in (0, 1, 2, 4)] + [("vh_dir", [2, 1], R), ("vh_dir", [4, 1], R)]
        + [("vh_stored", [8, s, 2, d], R) for s in (0, 1, 3, 6) for d in (0, 2)] + [("vh_stored", [5, 2, 2, 1], R), ("vh_stored", [8, 1, 4, 0], R), ("vh_stored", [5, 3, 4, 1], R), ("vh_stored", [5, 3, 6, 1], R), ("vh_stored", [7, 1, 8, 1], R), ("vh_planed", [6, 1, 2], R)],
    "thorough": [("vh_plane2", [i], R) for i in (0, 1, 2, 3, 4)] + [("vh_planed", [d, k, a], R) for d in (2, 4, 6) for a in range(6) for k in (0, 1, 2)] + [("vh_dir", [d, a], R) for d in (2, 4) for a in range(6)]
        + [("vh_stored", [r, s, 2, d], R) for r in (5, 8) for s in range(r) for d in (0, 1, 2)] + [("vh_stored", [r, s, k, 1], R) for r in (4, 7) for s in range(r) for k in (4, 6)],
}
COVERS = [1, 2, 3, 4]
BOUNDS = "vh_plane2: two dimensions, line and plane arbitrary in (-10,10) (0) or plane from a list; vh_planed/vh_dir: 2, 4 (6) dimensions, border planes at listed angles, arbitrary line start or arbitrary line direction; vh_stored(rate,border,dims,direction): a transition through the real pipeline, start point arbitrary in a box (more than 4 dimensions: three listed ones), listed directions"
OUTSIDE = "lines closer than |det| 0.5 to parallel, coordinates beyond 10, binary32 rounding (checked with a tolerance), more dimensions"
ASSUMPTIONS = ["floats are real numbers; matrix inversion is the Gauss-Jordan stand-in for LAPACK"]
TAGS = {1: "dimension of the crossing point", 2: "crossing point not on the plane", 3: "crossing point not on the line", 4: "number of intersections", 5: "number of stored values", 6: "negative radius", 7: "stored value is not the radial distance of the crossing"}
