R = ""
JOBS = {
    "quick": [("vh_rows", [14, 9, 5, 0], R), ("vh_rows", [9, 12, 4, 1], R), ("vh_order", [5, 3, 4, 0], R), ("vh_order", [3, 4, 3, 1], R), ("vh_whole", [6, 3, 2, 0], R), ("vh_large", [103, 16, 6, 0], R), ("vh_large", [64, 7, 250, 1], R), ("vh_large", [199, 33, 5, 1], R)],
    "thorough": [("vh_rows", [40, 24, 4, 0], R), ("vh_rows", [25, 30, 6, 2], R), ("vh_order", [9, 4, 4, 0], R), ("vh_order", [7, 5, 3, 1], R), ("vh_whole", [9, 4, 2, 1], R)],
}
COVERS = [1, 2, 3, 4]
BOUNDS = "vh_rows(n, t): every number of rows 2..n and threads 1..t, default order; vh_large(n, t): many rows and threads; vh_order(n, t): every completion order of t helpers for two requests in a row; vh_whole: every order, whole clustering compared with one thread; row values fixed (three sets)"
OUTSIDE = "the values of the rows (fixed), the numerics of LAPACK's inverse and Cholesky factor (replaced by plain algorithms), more rows and threads"
ASSUMPTIONS = ["workers of a pool take the next message when idle and finish in any order"]
TAGS = {1: "exactly one result per request", 2: "length", 3: "estimate over all rows", 4: "labels depend on threads or order"}
