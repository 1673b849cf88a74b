R = ""
JOBS = {
    "quick": [("vh_explain", [3, 2, 6, 2], R), ("vh_explain", [2, 1, 7, 3], R), ("vh_many", [4, 2, 10, 2], R), ("vh_many", [3, 3, 12, 1], R), ("vh_large", [12, 2, 70, 9], R), ("vh_large", [30, 4, 41, 20], R), ("vh_large", [5, 1, 120, 3], R)],
    "thorough": [("vh_explain", [5, 2, 7, 2], R), ("vh_explain", [4, 3, 8, 3], R), ("vh_many", [5, 3, 16, 3], R)],
}
COVERS = [1, 2, 3]
BOUNDS = "3 segments; up to 5 intersections of the first segment in every clustering (labels and coinciding center coordinates arbitrary), 1-3 dimensions; up to 3 edges at any places over 6-8 positions, or up to 20 edges over 10-16 positions; query length 2-3; 1-3 threads; vh_large: larger fixed graphs"
OUTSIDE = "how the clusters are found (C14); more segments, more edges; cluster runs (explanations are local only); values are compared with tolerance 1e-3"
ASSUMPTIONS = ["the clustering actor is replaced by one that answers with arbitrary labels and centers", "the edges are put in place of those the edge estimation would find (C07 covers that)"]
TAGS = {1: "the run ends once", 2: "one row per score position", 3: "the run ends before the explanation is written", 4: "median", 5: "mean rarity of the window's clusters"}
