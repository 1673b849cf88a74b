TITLE = "segment ownership"
JOBS = {
    "quick": [("vh_own", [6, 128], "qt=60"), ("vh_mono", [8, 512], "qt=60"), ("vh_next", [6, 128], "qt=60")],
    "thorough": [("vh_own", [16, 512], "qt=300"), ("vh_mono", [32, 4096], "qt=300"), ("vh_next", [12, 512], "qt=300")],
}
COVERS = [1]
BOUNDS = "args = (largest number of cluster nodes, largest rate); rate, segment and offset symbolic; cluster size split case by case"
TAGS = {1: "a segment is owned by a node outside the cluster", 2: "first segment out of range", 3: "a node does not own its own first segment",
        4: "ownership not monotone/contiguous", 5: "node 0 does not own segment 0", 6: "last node does not own the last segment",
        7: "first segment out of range", 8: "reported first segment has another owner", 9: "reported first segment is not the lowest of its owner"}
