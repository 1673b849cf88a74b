JOBS = {
    "quick": [("vh_order", [2, 2, 1, 0], ""), ("vh_at", [3, 1, 1, 0], ""), ("vh_at", [3, 2, 1, 0], ""), ("vh_join", [2, 2, 1, 0], "real"), ("vh_join", [3, 1, 1, 0], "real"), ("vh_large", [4, 12, 3, 0], ""), ("vh_large", [6, 4, 2, 0], "")],
    "thorough": [("vh_order", [2, 3, 2, 0], ""), ("vh_order", [3, 1, 1, 0], ""), ("vh_at", [4, 1, 1, 0], ""), ("vh_at", [3, 2, 2, 0], ""), ("vh_join", [3, 2, 1, 0], "real"), ("vh_join", [4, 1, 2, 0], "real")],
}
COVERS = [1, 2, 3]
BOUNDS = "vh_order(k,len,t): k machines with len windows each, any number of leading windows with edges, every interleaving; vh_at: every interleaving at one arbitrary machine; vh_join: arbitrary real scores in default order; vh_large: more and longer parts in default order"
OUTSIDE = "larger clusters and longer parts, rounding beyond 1e-3"
ASSUMPTIONS = ["the first machine has a window with an edge", "per-sender FIFO delivery between machines"]
TAGS = {1: "exactly one result per node", 2: "number of scores", 3: "score"}
