JOBS = {
    "quick": [("vh_scale", [2, 1, 100, 0], "real"), ("vh_scale", [3, 2, 100, 0], "real"), ("vh_scale", [3, 1, 1, 6], "real"), ("vh_scale", [3, 1, 1, 3], "real"), ("vh_scale", [4, 1, 1000, 0], "real"), ("vh_file", [3, 1, 0, 0], ""), ("vh_file", [4, 2, 0, 0], "")],
    "thorough": [("vh_scale", [5, 2, 10000, 0], "real"), ("vh_scale", [4, 3, 10000, 0], "real"), ("vh_file", [5, 3, 0, 0], ""), ("vh_file", [6, 2, 0, 0], "")],
}
COVERS = [1, 2, 3]
BOUNDS = "vh_scale(n,t,m,d): any n real raw scores in -m..m (times 10^-d), not constant (some two differ by 0.01 times 10^-d), t workers; vh_file(n,t): raw scores from a fixed set of values incl. extremes, the file may exist already, the written file is parsed back"
OUTSIDE = "rounding error beyond the stated tolerance 1e-3 (scores are modelled as reals), constant scores"
ASSUMPTIONS = ["real arithmetic stands for f32; counterexamples are replayed in f32"]
TAGS = {1: "exactly one response", 2: "number of scores", 3: "score outside [0,1]", 4: "smallest score is not 0", 5: "largest score is not 1", 6: "order of two scores reversed", 7: "proportions", 8: "number of scores in the file", 9: "score in the file"}
