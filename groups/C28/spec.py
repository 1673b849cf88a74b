R = ""
JOBS = {
    "quick": [("vh_still", [2, 120, 1, 1], R), ("vh_still", [3, 180, 2, 1], R), ("vh_still", [4, 240, 2, 3], R), ("vh_order", [2, 58, 1, 2], R), ("vh_same", [2, 90, 2, 0], R), ("vh_same", [2, 90, 3, 1], R), ("vh_same", [3, 130, 2, 2], R), ("vh_same", [3, 140, 1, 3], R), ("vh_same", [4, 203, 2, 4], R), ("vh_same", [5, 260, 3, 5], R), ("vh_rows", [3, 120, 7, 1], R), ("vh_rows", [2, 60, 6, 2], R), ("vh_rows", [4, 130, 5, 3], R)],
    "thorough": [("vh_order", [2, 80, 1, 1], R), ("vh_order", [3, 90, 1, 2], R), ("vh_rows", [2, 60, 30, 0], R), ("vh_rows", [3, 90, 30, 1], R), ("vh_rows", [4, 130, 24, 2], R), ("vh_rows", [5, 170, 20, 3], R), ("vh_rows", [6, 200, 12, 4], R), ("vh_same", [7, 400, 2, 5], R)],
}
COVERS = [1, 2, 3, 4]
BOUNDS = "whole runs on fixed series (60-400 rows, 1-3 columns, 1-3 threads, with and without self-correction) with 2-7 machines compared with one machine: vh_same in default order; vh_still: the series stands still in an arbitrary part, up to it or from it on, so that machines have no transitions; vh_rows: every number of rows in a range; vh_order(k,rows,few): every schedule of all machines that deviates from the default order at up to `few` arbitrary steps"
OUTSIDE = "other series; more deviations (C07, C08, C09, C13, C16, C17, C25 and C27 take every order of one stage)"
ASSUMPTIONS = ["the series has transitions and a score that is not constant", "scores are compared with tolerance 0.01", "per-sender FIFO delivery between machines"]
TAGS = {1: "exactly one result per machine", 2: "number of scores", 3: "score differs from that of a single machine"}
