R = ""
JOBS = {
    "quick": [("vh_join", [2, 1, 0, 0], R), ("vh_join", [3, 2, 0, 0], R), ("vh_at", [4, 1, 0, 0], R), ("vh_at", [3, 0, 0, 0], "seed=7"), ("vh_at", [4, 0, 0, 0], "seed=3"), ("vh_large", [8, 3, 0, 0], "seed=2"), ("vh_large", [12, 5, 0, 0], "seed=9"), ("vh_large", [6, 0, 0, 0], "seed=4")],
    "thorough": [("vh_at", [5, 2, 0, 0], R), ("vh_join", [3, 1, 0, 0], "seed=5"), ("vh_at", [4, 3, 0, 0], "seed=11")],
}
COVERS = [1, 2]
BOUNDS = "vh_join(k): k machines, every interleaving of the join notices (each at any time, at every machine) and of the member lists; vh_at(k): every interleaving at one arbitrary machine, the others eager; the main machine's address has two ranks among the addresses; vh_large: more machines, default order"
OUTSIDE = "more machines; members that leave or join twice"
ASSUMPTIONS = ["each machine hears of each other machine exactly once, in any order", "messages between two machines arrive in order"]
TAGS = {1: "starts exactly once", 2: "starts before all members are connected", 3: "number of members", 4: "main machine is number 0", 5: "numbering differs between machines"}
