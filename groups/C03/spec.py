JOBS = {
    "quick": [("vh_seg", [4, 64], "symhash"), ("vh_seg", [3, 128], "symhash"), ("vh_corr", [3, 4], "real"), ("vh_corr", [4, 3], "real"), ("vh_corr", [3, 5], "real"), ("vh_large", [300, 100, 0], ""), ("vh_large", [150, 7, 3], ""), ("vh_large", [200, 360, 1], ""), ("vh_large", [120, 2, 1], ""), ("vh_drift", [120, 100, 3, 2], ""), ("vh_drift", [120, 100, 97, 3], ""), ("vh_drift", [101, 16, 15, 0], ""), ("vh_drift", [90, 25, 12, 5], ""), ("vh_drift", [90, 25, 14, 2], "")],
    "thorough": [("vh_seg", [6, 128], "symhash"), ("vh_corr", [4, 5], "real"), ("vh_corr", [4, 6], "real"), ("vh_corr", [5, 4], "real")],
}
COVERS = [1, 2, 3]
BOUNDS = "vh_seg(n,R): n consecutive points with arbitrary segments, every rate 1..R; vh_corr(n,r): n points with arbitrary real coordinates in (-1,1)^2 away from sector borders (relative distance 0.001), rate r, self-correction on; vh_large, vh_drift: long fixed sequences without and with self-correction"
TAGS = {1: "segmentation does not finish with exactly one SegmentedMessage", 2: "transition missing or superfluous", 3: "wrong end point",
        4: "transition altered", 5: "superfluous transitions", 6: "points mirrored wrongly", 7: "wrong transitions after self-correction"}
