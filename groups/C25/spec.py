R = "real"
JOBS = {
    "quick": [("vh_alg", [1, 6, 5, 1], R), ("vh_alg", [2, 3, 2, 1], R), ("vh_alg", [3, 2, 2, 1], R), ("vh_alg", [1, 3, 2, 2], R),
              ("vh_split", [1, 17, 17, 1], ""), ("vh_split", [2, 3, 3, 2], ""), ("vh_split", [5, 2, 1, 1], ""),
              ("vh_order", [1, 5, 3, 2], ""), ("vh_order", [1, 4, 4, 1], ""), ("vh_order", [2, 2, 1, 2], ""),
              ("vh_at", [3, 2, 1, 1], ""), ("vh_at", [2, 2, 2, 1], ""), ("vh_at", [2, 2, 1, 3], ""),
              ("vh_vectors", [1, 8, 4, 4], ""), ("vh_vectors", [2, 6, 2, 5], ""), ("vh_large", [1, 150, 16, 2], ""), ("vh_large", [1, 99, 33, 1], ""), ("vh_large", [9, 12, 3, 2], ""), ("vh_large", [6, 30, 5, 4], "")],
    "thorough": [("vh_alg", [1, 9, 9, 1], R), ("vh_alg", [3, 3, 3, 1], R), ("vh_alg", [4, 2, 1, 2], R),
                 ("vh_split", [1, 40, 24, 1], ""), ("vh_split", [3, 4, 4, 2], ""), ("vh_split", [7, 2, 1, 1], ""), ("vh_split", [6, 1, 2, 2], ""),
                 ("vh_order", [1, 8, 5, 1], ""), ("vh_order", [2, 2, 1, 3], ""), ("vh_order", [2, 2, 2, 1], ""),
                 ("vh_at", [4, 1, 1, 1], ""), ("vh_at", [3, 2, 1, 2], ""), ("vh_at", [2, 3, 2, 2], ""), ("vh_at", [4, 1, 1, 2], ""), ("vh_at", [5, 1, 1, 1], ""),
                 ("vh_vectors", [3, 6, 6, 8], ""), ("vh_vectors", [1, 20, 12, 6], "")],
}
COVERS = [1, 2, 3, 4]
BOUNDS = "vh_alg(k, r, t, c): k machines with 1..r rows each, 1..t threads, c columns of 3 dimensions: every matrix with entries in (-10, 10), exact reals; vh_split, vh_large: more rows, threads and machines, fixed matrices; vh_order(k, r, t, c): every order of all messages (starts, means, decompositions, components, rotation matrices, helper messages) for fixed matrices; vh_at: every order at one arbitrary machine, the others eager; vh_vectors: fixed matrices, threads and row counts chosen, components compared with the eigenvectors of the scatter matrix"
OUTSIDE = "the numerics of QR and SVD themselves (LAPACK is replaced: A = I*A and a recording SVD for symbolic matrices, Householder and Jacobi for fixed ones), data with fewer than one row on a machine"
ASSUMPTIONS = ["messages between two machines arrive in order", "helpers are single-threaded actors that run in any order", "f32 arithmetic taken as exact real arithmetic for symbolic matrices; comparisons of terms that differ by a constant as rational functions are decided by a polynomial normal form in the engine before the solver is asked"]
TAGS = {1: "every machine gets every column's components once and goes on", 2: "machines disagree", 3: "means", 4: "scatter matrix of all rows", 5: "components", 6: "orthonormal", 7: "eigenvectors of the scatter matrix", 8: "largest first", 9: "sign"}
