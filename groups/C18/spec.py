R = "real"
JOBS = {
    "quick": [("vh_embed", [9, 4, 1, 0], R), ("vh_embed", [6, 3, 2, 1], R), ("vh_embed", [9, 6, 1, 0], R), ("vh_embed", [6, 2, 3, 0], R), ("vh_embed", [10, 5, 1, 1], R), ("vh_embed", [5, 3, 1, 2], R), ("vh_embed", [10, 3, 2, 3], R), ("vh_large", [80, 50, 1, 16], ""), ("vh_large", [61, 20, 3, 6], ""), ("vh_large", [45, 12, 12, 11], ""), ("vh_large", [130, 7, 2, 1], ""), ("vh_large", [75, 60, 2, 33], "")],
    "thorough": [("vh_embed", [20, 6, 1, 0], R), ("vh_embed", [12, 4, 2, 1], R), ("vh_embed", [16, 10, 2, 0], R), ("vh_embed", [8, 3, 4, 0], R), ("vh_embed", [20, 12, 1, 1], R), ("vh_embed", [7, 4, 1, 2], R), ("vh_embed", [4, 2, 3, 2], R), ("vh_embed", [20, 5, 2, 3], R)],
}
COVERS = [1, 2]
BOUNDS = "vh_embed(rows,pl,cols): any series of pl..rows rows and cols columns with real values in -100..100 that are monotone per column (strictly, weakly or constant), pattern length pl, every latent 1..pl-1, local run with two preprocessing workers; vh_large: fixed longer series"
OUTSIDE = "longer series, larger patterns; series that are not monotone (the order of the values only selects minimum and maximum, which the embedding does not use); rounding beyond 0.001"
ASSUMPTIONS = ["real arithmetic stands for f32; counterexamples are replayed in f32"]
TAGS = {1: "exactly one result", 2: "shape of the phase space", 3: "value of the phase space"}
