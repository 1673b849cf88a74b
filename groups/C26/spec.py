R = ""
JOBS = {
    "quick": [("vh_run", [45, 2, 1, 0], R), ("vh_run", [50, 3, 1, 1], R), ("vh_run", [45, 4, 1, 2], R), ("vh_fit", [45, 2, 0, 2], R), ("vh_fit", [50, 1, 0, 3], R), ("vh_fit", [70, 3, 0, 2], R), ("vh_fit", [110, 2, 0, 3], R)],
    "thorough": [("vh_run", [45, 2, 2, 0], R), ("vh_run", [60, 3, 1, 0], R), ("vh_run", [60, 4, 1, 1], R), ("vh_run", [60, 3, 1, 2], R), ("vh_fit", [60, 3, 1, 2], R)],
}
COVERS = [1, 2, 3]
BOUNDS = "vh_run(rows,threads,few,variant): whole local runs on fixed series (45-60 rows, 2-3 columns), 1-4 threads, all schedules of workers and actors that deviate from the default order at up to `few` arbitrary steps"
OUTSIDE = "more deviations (C12, C14, C17, C19 and C25 take every order of one stage), other series, inputs without any transition"
ASSUMPTIONS = ["the series has transitions and a non-constant raw score", "handlers run to completion; messages of one node's actors are delivered in the order in which they were sent", "LAPACK is replaced by the stand-in in /verif/shims/linalg"]
TAGS = {1: "one result", 2: "length of the score", 3: "same score as in the default order"}
