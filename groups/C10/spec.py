S = "symhash"
JOBS = {
    "quick": [("vh_raw", [4, 6, 3, 1], S), ("vh_raw", [3, 5, 2, 0], S), ("vh_raw", [3, 7, 4, 1], S), ("vh_final", [3, 5, 2, 1], S), ("vh_raw", [5, 4, 2, 1], S), ("vh_raw", [60, 50, 10, 1], ""), ("vh_raw", [40, 90, 5, 1], ""), ("vh_final", [150, 60, 7, 1], "")],
    "thorough": [("vh_raw", [5, 7, 3, 1], S), ("vh_raw", [4, 5, 2, 0], S), ("vh_raw", [4, 8, 5, 1], S), ("vh_final", [5, 5, 2, 1], S), ("vh_raw", [6, 5, 2, 1], S)],
}
COVERS = [1, 2, 3]
BOUNDS = "vh_raw(n,points,ql,chain): any n edges (any nodes among 2, any time-ordered point ids, chained or not) over `points` embedded points, query length ql, one worker (n > 10: three fixed larger graphs); vh_final: the delivered normalised score, two workers"
OUTSIDE = "longer series; edge lists whose edges all lie at the first point"
ASSUMPTIONS = ["floating point evaluated with IEEE f32 semantics on integers that are exact", "some edge after the first point"]
TAGS = {1: "number of scores", 2: "raw score", 3: "one response", 4: "delivered score"}
