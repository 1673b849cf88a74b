S = "symhash"
JOBS = {
    "quick": [("vh_chain", [1, 4, 120, 0], S), ("vh_chain", [2, 3, 40, 1], S), ("vh_chain", [3, 2, 20, 1], S), ("vh_chain", [2, 4, 120, 0], S), ("vh_chain", [40, 50, 100, 1], ""), ("vh_chain", [60, 5, 10, 0], ""), ("vh_chain", [30, 2, 5, 1], "")],
    "thorough": [("vh_chain", [1, 7, 500, 1], S), ("vh_chain", [2, 5, 200, 1], S), ("vh_chain", [3, 3, 100, 1], S), ("vh_chain", [4, 2, 100, 0], S)],
}
COVERS = [1, 2]
BOUNDS = "vh_chain(n,b,r,gaps): n transitions, each crossing 1..b borders at any position relative to the wrap-around, any sampling rate in 2b..r, any cluster of each node (4 values), with or without points without transition in between (n > 10: four fixed larger paths each)"
OUTSIDE = "more transitions and borders; clusters of nodes (several machines) are C07"
ASSUMPTIONS = ["nodes of a transition are stored in ascending segment order, as node estimation does"]
TAGS = {1: "edge estimation does not finish", 2: "number of edges", 3: "edge starts at the wrong node", 4: "edge ends at the wrong node", 5: "edge attributed to the wrong point"}
