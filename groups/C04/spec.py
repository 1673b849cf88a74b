JOBS = {
    "quick": [("vh_one", [r, 2, 7], "symhash") for r in (2, 3, 4, 5, 8, 9, 12, 15)] + [("vh_borders", [2, r, 2, 0], "symhash") for r in (4, 5)] + [("vh_borders", [3, 3, 2, 5], "symhash"), ("vh_borders", [2, 4, 4, 0], "symhash"), ("vh_many", [60, 100, 2, 3], ""), ("vh_many", [4, 400, 2, 0], "")],
    "thorough": [("vh_one", [r, 2, 7], "symhash") for r in range(2, 41)] + [("vh_borders", [2, r, 2, 0], "symhash") for r in (4, 5, 6, 7, 8, 9)] + [("vh_borders", [3, r, 2, 5], "symhash") for r in (3, 4, 5)] + [("vh_borders", [2, 4, 6, 0], "symhash"), ("vh_many", [200, 100, 2, 3], ""), ("vh_many", [12, 1000, 2, 0], "")],
}
COVERS = [1, 2]
BOUNDS = "vh_one(rate,dims): one transition, all start segments and all distances 1..rate/2; vh_borders(n,rate,dims): n transitions with arbitrary segments each; vh_many(n,rate,dims): three fixed families of n transitions spread over the ring with all kinds of distances, 1 to 3 threads"
OUTSIDE = "more transitions at once, larger rates; coordinates are fixed values in general position (coordinates are C05)"
ASSUMPTIONS = ["transitions are those segmentation can produce (C03)"]
TAGS = {1: "intersection calculation does not finish", 2: "intersection filed under another segment", 3: "border without / with superfluous intersection", 4: "border recorded twice", 5: "superfluous intersections in a segment"}
