R = "real"
JOBS = {
    "quick": [("vh_ref", [3, 2, 1, 0], R), ("vh_ref", [4, 4, 1, 0], R), ("vh_ref", [2, 2, 2, 0], R), ("vh_two", [2, 1, 0, 0], R), ("vh_large", [80, 50, 1, 16], ""), ("vh_large", [30, 11, 7, 3], "")],
    "thorough": [("vh_ref", [5, 5, 1, 0], R), ("vh_ref", [3, 3, 2, 0], R), ("vh_ref", [3, 2, 3, 0], R), ("vh_two", [3, 2, 0, 0], R)],
}
COVERS = [1, 2, 3]
BOUNDS = "vh_ref(rows,pl,cols): any series with real values in -100..100, every latent 1..pl-1; vh_two(pl,cols): two machines, extremes in either part; vh_large: fixed longer series"
OUTSIDE = "longer series, larger patterns; rounding beyond 0.01"
ASSUMPTIONS = ["real arithmetic stands for f32; counterexamples are replayed in f32"]
TAGS = {1: "exactly one result", 2: "shape of the reference set", 3: "value of the reference set"}
