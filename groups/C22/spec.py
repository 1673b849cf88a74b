R = ""
JOBS = {
    "quick": [("vh_direct", [4, 0, 0, 0], R), ("vh_ring", [4, 0, 0, 0], R), ("vh_direct", [3, 0, 0, 0], R), ("vh_ring", [3, 0, 0, 0], R), ("vh_helper", [10, 0, 0, 0], R), ("vh_at", [2, 2, 4, 1], R), ("vh_correct", [2, 2, 4, 2], R), ("vh_part", [3, 2, 3, 0], R), ("vh_part", [3, 2, 3, 2], R), ("vh_any", [2, 9, 2, 6], R), ("vh_slow", [3, 14, 2, 120], R), ("vh_slow", [4, 17, 3, 120], R), ("vh_late", [3, 3, 6, 120], R), ("vh_late", [4, 3, 8, 160], R), ("vh_edges", [3, 12, 31, 40], R), ("vh_edges", [4, 11, 43, 50], R)],
    "thorough": [("vh_direct", [5, 0, 0, 0], R), ("vh_ring", [5, 0, 0, 0], R), ("vh_helper", [14, 0, 0, 0], R), ("vh_part", [3, 2, 3, 0], R), ("vh_part", [3, 2, 3, 1], R), ("vh_part", [3, 2, 3, 2], R), ("vh_correct", [2, 2, 4, 1], R), ("vh_any", [3, 11, 2, 5], R)],
}
COVERS = [1, 2, 3]
BOUNDS = "vh_direct(n), vh_ring(n): every exchange of 1..n messages in each direction and every interleaving of start, sends, arrivals and mailbox handling; vh_helper(s): any number of parts (8 bit) and every history of s events; the exchanges that use the protocols: vh_at, vh_part, vh_correct (points to edges, as in C07) and vh_any (edges to scores, as in C27) with 2 or 3 machines and every interleaving at one machine; vh_late, vh_slow, vh_edges: 3 or 4 machines of which an arbitrary one is slow from an arbitrary step on: everything the others send arrives before it goes on"
OUTSIDE = "longer exchanges; more machines; more data in the exchanges than in C07 and C27"
ASSUMPTIONS = ["every peer sends its messages once and in order"]
TAGS = {1: "early message taken, late message kept, or an exchange that does not complete once", 2: "completion, or lost data", 3: "message or data lost, doubled or changed", 4: "order of arrival", 5: "completion of workers"}
