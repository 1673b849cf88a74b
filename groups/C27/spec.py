R = ""
JOBS = {
    "quick": [("vh_same", [2, 7, 2, 2], R), ("vh_same", [2, 9, 3, 2], R), ("vh_same", [2, 8, 2, 3], R), ("vh_same", [3, 8, 2, 2], R), ("vh_any", [2, 9, 2, 6], R), ("vh_large", [3, 61, 5, 60], R), ("vh_large", [2, 80, 20, 100], R), ("vh_large", [5, 45, 3, 80], R), ("vh_large", [4, 31, 8, 15], R), ("vh_slow", [3, 14, 2, 120], R)],
    "thorough": [("vh_same", [2, 10, 3, 3], R), ("vh_same", [3, 8, 2, 3], R), ("vh_same", [3, 11, 3, 2], R), ("vh_same", [4, 11, 2, 2], R), ("vh_any", [3, 11, 2, 8], R)],
}
COVERS = [1, 2, 3, 4]
BOUNDS = "vh_same(k,rows,ql,n): k machines, every path of n edges over 2k segments that the segmentation can produce (consecutive segments within a transition), at any points of a series with that many rows, default order; vh_any: three fixed longer paths, every interleaving at one arbitrary machine; vh_large: four fixed longer paths each, default order; vh_slow: 3 or 4 machines of which an arbitrary one is slow from an arbitrary step on: everything the others send arrives before it goes on"
OUTSIDE = "longer paths and series, more machines"
ASSUMPTIONS = ["an edge is built on the machine that owns the segment of its start node (C07)", "some edge after the first point and a score that is not constant", "per-sender FIFO delivery between machines"]
TAGS = {1: "exactly one result per machine", 2: "number of scores", 3: "score"}
