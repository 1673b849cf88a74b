S = "symhash"
JOBS = {
    "quick": [("vh_count", [3, 2, 2, 0], S), ("vh_count", [4, 2, 2, 1], S), ("vh_exchange", [2, 2, 2, 0], S), ("vh_order", [2, 1, 2, 0], S), ("vh_at", [3, 2, 0, 0], S), ("vh_at", [4, 1, 0, 0], S), ("vh_count", [60, 3, 6, 0], ""), ("vh_count", [60, 4, 3, 1], ""), ("vh_exchange", [3, 24, 3, 0], "")],
    "thorough": [("vh_count", [4, 2, 2, 0], S), ("vh_count", [6, 2, 2, 1], S), ("vh_exchange", [3, 2, 2, 0], S), ("vh_order", [2, 2, 2, 0], S), ("vh_at", [3, 3, 0, 0], S), ("vh_at", [4, 1, 0, 0], S)],
}
COVERS = [1, 2, 3, 4]
BOUNDS = "vh_count(n,segs,clusters,chain): any n edges over segs*clusters graph nodes on one machine; vh_exchange(k,n,segs): k machines with any n edges each, default order (more than 20 edges, or 10 per machine: fixed larger graphs); vh_order: additionally every interleaving; vh_at(k,n): fixed edges, every interleaving at one arbitrary machine"
OUTSIDE = "longer edge lists, larger clusters"
ASSUMPTIONS = ["per-sender FIFO delivery between machines", "the degrees a cluster node contributes are those of its own edges"]
TAGS = {1: "edge weight", 2: "node degree", 3: "edge weight in a cluster", 4: "node degree in a cluster", 5: "exchange does not finish"}
