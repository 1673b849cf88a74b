NQ = [1, 2, 3, 4, 5, 7, 8, 12, 16, 20]
JOBS = {
    "quick": [("vh_sector", [n, 2], "real,symhash") for n in NQ] + [("vh_sector", [6, 6], "real,symhash"), ("vh_many", [3, 4], "real,symhash"), ("vh_many", [4, 3], "real,symhash")] + [("vh_fixed", [m, n, d, e], "") for m, n, d, e in ((60, 100, 2, 0), (40, 16, 6, 1), (120, 360, 4, 2), (30, 4, 2, 3), (60, 64, 2, 5), (50, 27, 3, 4), (260, 250, 2, 7), (12, 1, 2, 1), (12, 2, 2, 1))],
    "thorough": [("vh_sector", [n, 2], "real,symhash") for n in list(range(1, 25)) + [30, 32, 36, 40, 50]] + [("vh_sector", [n, 8], "real,symhash") for n in (3, 16)] + [("vh_many", [4, 5], "real,symhash"), ("vh_many", [3, 8], "real,symhash")],
}
COVERS = [1, 2, 3]
BOUNDS = "vh_sector(n,d): one point, n sectors (listed values), any real coordinates in (-1000,1000)^d that keep a relative distance of 0.001 from sector borders; vh_many(m,n): m points in (-1,1)^2; ids symbolic; vh_fixed(m,n,d): m fixed points in d dimensions and n sectors, for powers of two also exactly on the axes"
OUTSIDE = "points within 0.1% of a sector border (binary32 rounding of the angle may decide either way there); other numbers of sectors"
ASSUMPTIONS = ["floats are real numbers; atan2 is characterised by its quadrant and by its order relative to the sector borders (cross products)"]
TAGS = {1: "number of points", 2: "point id", 3: "segment id out of range", 4: "point in wrong sector", 5: "coordinates changed", 6: "mirroring changes ids or count",
        7: "mirrored point in wrong sector", 8: "mirroring changes other coordinates", 9: "order/ids of points", 10: "wrong sector"}
