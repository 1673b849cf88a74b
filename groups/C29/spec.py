R = ""
JOBS = {
    "quick": [("vh_file", [48, 3, 0, 2], R), ("vh_file", [55, 4, 1, 1], R), ("vh_order", [42, 1, 2, 2], R)],
    "thorough": [("vh_file", [60, 5, 2, 3], R), ("vh_file", [150, 3, 1, 4], R), ("vh_order", [60, 1, 0, 3], R)],
}
COVERS = [1, 2, 3, 4]
BOUNDS = "vh_file(rows,cols,variant,threads): a fixed series, every column range (start, and end given from the front, from the back, or as 0) and 1..threads workers, from the file to the output file; vh_order(rows,few,variant,threads): the whole run with one deviation from the default order of messages at any step; against the run on the selected columns as an array"
OUTSIDE = "other series and parameters; more deviations; cluster runs (C28)"
ASSUMPTIONS = ["actix and LAPACK are replaced by the models described in DESIGN.md"]
TAGS = {1: "length of the returned score", 2: "a run on a file returns no score", 3: "number of lines in the output file", 4: "score in the output file"}
