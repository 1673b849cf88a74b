R = ""
JOBS = {
    "quick": [("vh_graph", [1, 4, 4, 0], R), ("vh_graph", [2, 3, 4, 0], R), ("vh_graph", [2, 2, 6, 0], R), ("vh_graph", [2, 2, 5, 0], R), ("vh_graph", [3, 2, 4, 0], R), ("vh_at", [2, 2, 4, 1], R), ("vh_at", [2, 2, 2, 1], R), ("vh_correct", [2, 3, 4, 0], R), ("vh_correct", [2, 2, 4, 2], R), ("vh_part", [3, 2, 3, 2], R), ("vh_walk", [4, 2, 4, 0], R), ("vh_walk", [4, 2, 9, 0], R), ("vh_walk", [5, 2, 5, 0], R), ("vh_long", [2, 25, 20, 0], R), ("vh_long", [3, 20, 8, 1], R), ("vh_long", [4, 30, 100, 0], R), ("vh_long", [5, 8, 30, 1], R), ("vh_long", [1, 60, 12, 1], R), ("vh_late", [3, 3, 6, 120], R)],
    "thorough": [("vh_graph", [3, 2, 5, 0], R), ("vh_graph", [3, 2, 6, 0], R), ("vh_walk", [4, 3, 8, 0], R), ("vh_walk", [6, 2, 12, 0], R), ("vh_graph", [2, 3, 5, 0], R), ("vh_graph", [2, 3, 6, 0], R), ("vh_graph", [2, 4, 4, 0], R), ("vh_order", [2, 2, 4, 1], R), ("vh_at", [2, 2, 4, 0], R), ("vh_at", [3, 2, 3, 1], R), ("vh_part", [3, 2, 3, 0], R), ("vh_part", [3, 2, 3, 1], R), ("vh_correct", [3, 2, 4, 0], R), ("vh_correct", [2, 2, 4, 1], R)],
}
COVERS = [1, 2, 3, 5]
BOUNDS = "vh_graph(k,n,rate): k machines with n points each in every combination of segments (parts without any transition included), messages in default order; vh_walk: up to 5 machines, walks that are regular but for one step; vh_correct: the same with self-correction; vh_at / vh_order / vh_part: fixed or nearly regular walks, every interleaving at one machine / of everything / from one stage to the next but one; vh_long: three long fixed sequences each, default order; vh_late: 3 or 4 machines of which an arbitrary one is slow from an arbitrary step on: everything the others send arrives before it goes on"
OUTSIDE = "more than 5 machines, longer parts, more than 9 segments; clusterings other than near/far from the origin; crossings between two parts are not counted for self-correction"
ASSUMPTIONS = ["points have consecutive ids over the cluster", "the clustering actor is replaced by a fixed one (C14 covers it); a cluster clusters each segment on one machine, so labels do not depend on the number of machines", "per-sender FIFO delivery between machines"]
TAGS = {1: "a machine does not reach the end of the edge estimation", 2: "number of edges", 3: "edges", 9: "segment"}
