S = "symhash"
JOBS = {
    "quick": [("vh_move", [2, 2, 101, 0], S), ("vh_move", [2, 2, 101, 1], S), ("vh_move", [3, 40, 1000, 0], ""), ("vh_move", [4, 30, 43, 5], ""), ("vh_move", [7, 12, 300, 3], ""), ("vh_move", [3, 1, 47, 0], S), ("vh_move", [4, 1, 30, 0], S), ("vh_order", [2, 1, 7, 0], S), ("vh_at", [3, 1, 10, 0], S), ("vh_lag", [3, 12, 31, 40], "")],
    "thorough": [("vh_move", [2, 3, 1001, 0], S), ("vh_move", [3, 2, 211, 0], S), ("vh_move", [5, 1, 99, 0], S), ("vh_order", [2, 2, 7, 0], S), ("vh_order", [3, 1, 10, 0], S), ("vh_at", [4, 1, 14, 0], S)],
}
COVERS = [1, 2]
BOUNDS = "vh_move(k,n,rows): k machines with n edges each, every end point id in 0..rows-1, default order, the graph nodes all different (d = 0) or alike (n > 10: four fixed larger graphs each); vh_order(k,n,rows): additionally every interleaving of deliveries and local steps on all machines; vh_at(k,n,rows): every interleaving at one arbitrary machine, the others run eagerly; vh_lag: 3 or 4 machines of which an arbitrary one is slow from an arbitrary step on: everything the others send arrives before it goes on"
OUTSIDE = "more edges per machine, more machines, exploring all machines' interleavings jointly for 3 and more"
ASSUMPTIONS = ["per-sender FIFO delivery between machines; one FIFO per machine for local messages"]
TAGS = {1: "redistribution does not finish", 2: "edges not sorted by time", 3: "edge at the wrong node", 4: "edge altered", 5: "edge lost or duplicated"}
