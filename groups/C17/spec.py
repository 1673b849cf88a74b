R = ""
JOBS = {
    "quick": [("vh_read", [1, 5, 3, 3], R), ("vh_read", [2, 9, 3, 2], R), ("vh_read", [3, 11, 2, 1], R), ("vh_at", [2, 6, 2, 1], R), ("vh_large", [5, 63, 7, 3], R), ("vh_large", [3, 131, 20, 2], R), ("vh_large", [1, 90, 50, 4], R)],
    "thorough": [("vh_read", [1, 8, 3, 4], R), ("vh_read", [2, 14, 4, 3], R), ("vh_read", [3, 18, 3, 2], R), ("vh_read", [4, 15, 2, 1], R), ("vh_at", [2, 9, 3, 2], R), ("vh_at", [3, 8, 2, 1], R)],
}
COVERS = [1, 2, 3]
BOUNDS = "vh_read(k,max,pl,cols): k machines, every row count from k*pl to max, pattern length pl, every non-empty column range given by a positive, zero or negative end; vh_at: additionally every interleaving at one arbitrary machine, including the data arriving before the machine is ready; vh_large(k,rows,pl,cols): more rows and machines, every column range, default order; empty lines between rows and at the end; values: positive, negative, integer, small, large, with exponent"
OUTSIDE = "shares that are not longer than the overlap; cell values other than the listed ones, quoting, malformed files"
ASSUMPTIONS = ["the file system is a model inside the engine with the behaviour of open, read, write, lseek and close"]
TAGS = {1: "exactly one result per machine", 2: "number of rows", 3: "number of columns", 4: "cell value", 5: "shape of the phase space"}
