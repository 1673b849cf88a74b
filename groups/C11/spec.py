S = "symhash"
JOBS = {
    "quick": [("vh_threads", [3, 6, 2, t], S) for t in (1, 2, 4)] + [("vh_order", [3, 5, 2, 2], S), ("vh_order", [2, 6, 2, 3], S), ("vh_order", [2, 5, 2, 4], S), ("vh_long", [9, 3, 3, 0], S), ("vh_long", [8, 2, 4, 0], S), ("vh_long", [6, 3, 4, 0], S), ("vh_long", [7, 3, 1, 0], S), ("vh_large", [50, 60, 5, 7], ""), ("vh_large", [30, 40, 4, 35], ""), ("vh_large", [40, 103, 10, 16], ""), ("vh_large", [90, 50, 6, 8], "")],
    "thorough": [("vh_threads", [4, 7, 2, t], S) for t in (1, 2, 3, 4, 5, 6)] + [("vh_order", [4, 6, 2, 2], S), ("vh_order", [3, 7, 2, 3], S), ("vh_order", [2, 7, 2, 4], S), ("vh_order", [2, 5, 2, 5], S), ("vh_long", [16, 3, 4, 0], S), ("vh_long", [13, 4, 5, 0], S), ("vh_long", [7, 3, 5, 0], S), ("vh_long", [20, 3, 3, 0], S)],
}
COVERS = [1, 2]
BOUNDS = "vh_threads(n,points,ql,t): any n edges, t workers, default order; vh_order: every completion order; vh_long(points,ql,t): fixed longer graphs with any last point that has an edge, every completion order; vh_large: three fixed larger graphs each, many workers, default order"
OUTSIDE = "more workers and longer series"
ASSUMPTIONS = ["score is not constant", "some edge after the first point"]
TAGS = {1: "exactly one response", 2: "number of scores", 3: "score"}
