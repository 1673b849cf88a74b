R = ""
JOBS = {
    "quick": [("vh_cols", [9, 9, 1, 0], R), ("vh_cols", [4, 3, 0, 0], R), ("vh_order", [4, 3, 1, 0], R), ("vh_order", [3, 4, 1, 0], R), ("vh_order", [5, 2, 1, 0], R), ("vh_large", [130, 7, 1, 0], R), ("vh_large", [40, 64, 2, 0], R), ("vh_large", [257, 256, 1, 0], R)],
    "thorough": [("vh_cols", [20, 12, 1, 0], R), ("vh_order", [6, 3, 1, 0], R), ("vh_order", [5, 4, 1, 0], R), ("vh_order", [8, 2, 1, 0], R)],
}
COVERS = [1, 2, 3]
BOUNDS = "vh_cols(c,t): every number of columns 1..c and threads 1..t, default order; vh_order: additionally every completion order of the workers; vh_large(c,t): many columns and threads, default order"
OUTSIDE = "more columns and threads; the statistics stage before and the stages after"
ASSUMPTIONS = ["one FIFO of local messages per machine; workers of a pool take the next message when idle and finish in any order"]
TAGS = {1: "exactly one result", 2: "column handed to a worker exactly once", 3: "result collected exactly once", 4: "next stage starts exactly once after all results", 5: "columns missing in the next stage"}
