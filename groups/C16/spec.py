JOBS = {
    "quick": [("vh_stats", [1, 3, 2, 0], "real"), ("vh_stats", [2, 2, 1, 0], "real"), ("vh_stats", [3, 1, 1, 0], "real"), ("vh_order", [2, 2, 2, 0], ""), ("vh_at", [3, 1, 1, 0], ""), ("vh_large", [1, 90, 5, 0], ""), ("vh_large", [3, 40, 2, 0], ""), ("vh_large", [7, 11, 3, 0], ""), ("vh_large", [2, 600, 1, 0], ""), ("vh_large", [2, 15, 9, 0], "")],
    "thorough": [("vh_stats", [1, 5, 3, 0], "real"), ("vh_stats", [2, 3, 2, 0], "real"), ("vh_stats", [3, 2, 1, 0], "real"), ("vh_stats", [4, 1, 1, 0], "real"), ("vh_order", [2, 3, 2, 0], ""), ("vh_at", [3, 2, 2, 0], ""), ("vh_at", [4, 1, 1, 0], "")],
}
COVERS = [1, 2]
BOUNDS = "vh_stats(k,max,cols): k machines with 1..max+1 rows each (any combination) plus the overlap, any real values in -10..10; vh_order: fixed values, every interleaving; vh_at: every interleaving at one arbitrary machine; vh_large: more fixed rows, columns and machines, default order"
OUTSIDE = "longer series; rounding beyond 0.02 in the variance (values are modelled as reals)"
ASSUMPTIONS = ["real arithmetic stands for f32; counterexamples are replayed in f32", "the main machine has read its own part before reports of others can arrive, as read_csv does"]
TAGS = {1: "exactly one result per machine", 2: "row count", 3: "number of columns", 4: "minimum", 5: "maximum", 6: "standard deviation"}
