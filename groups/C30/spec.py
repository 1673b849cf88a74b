R = ""
JOBS = {
    "quick": [("vh_one", [1, 0, 0, 0], R), ("vh_one", [3, 0, 0, 0], R), ("vh_all", [2, 0, 0, 0], R)],
    "thorough": [("vh_one", [5, 0, 0, 0], R), ("vh_all", [4, 0, 0, 0], R)],
}
COVERS = [1, 2, 3]
BOUNDS = "vh_one(digits): every option alone, as long option, short option or with =, for every number with that many digits, and every role; vh_all(digits): all options together, starting with any of them"
OUTSIDE = "numbers with more digits, other paths and addresses, subsets of the options, options behind the role, malformed arguments"
ASSUMPTIONS = []
TAGS = {1: "the options are accepted", 2: "number", 3: "column range", 4: "own address", 5: "output path", 6: "flag", 7: "role", 8: "main machine"}
