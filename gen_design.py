#!/usr/bin/env python3
"""writes DESIGN.md: the text in design_text.md, with the per-property part filled in from
properties.jsonl, groups/*/spec.py and the notes below"""
import json, os, importlib.util
V = os.path.dirname(os.path.abspath(__file__))
NOTE = {
"C01": "Bit-vector symbolic execution of the ownership functions with symbolic rate, segment and ring offset; the cluster size is split case by case so that the divisions have a constant divisor. Oracle: ownership is defined by what the functions themselves must satisfy (range, monotone, first/last owner, lowest owned segment), no re-implementation.",
"C02": "The point's coordinates are real unknowns. `atan2` is axiomatised in the engine: its result is an unknown angle tied to the point by quadrant and by cross products with the sector borders, so that 'is in sector i' is decided exactly by linear inequalities (oracle) against the code's own division and truncation.",
"C03": "The real `Segmenter::segment` on a symbolic sequence of segments (bit-vectors, any rate); the oracle walks the same sequence and expects one transition per counter-clockwise step. Self-correction: points with real coordinates, mirroring decided by the oracle's own count.",
"C04": "The real intersection calculator (manager and worker pool) on symbolic transitions; the oracle lists the crossed borders of each transition and compares with the stored intersections (by segment and by id, both directions, no duplicates).",
"C05": "Lines and planes with real unknowns; line_plane_intersection (Gauss-Jordan stand-in for LAPACK's inverse) is executed symbolically and the two incidences are checked as polynomial identities by z3 (nlsat) or by the engine's normal form of rational functions.",
"C06": "The real EdgeEstimator on symbolic transitions and cluster labels; the oracle walks transitions in time order and borders in traversal order and compares the edge list one to one.",
"C07": "k machines in one address space, each with all real actors from segmentation to edge estimation, connected by the in-process transport; every combination of segments for the points is a choice, schedules are choices. Oracle: the same code on one machine (whose edge list C06 fixes independently), compared as multisets; mirroring decided by an own count.",
"C08": "The real Transposer on k machines; symbolic end points; every interleaving. Oracle: the responsible machine of an id computed in the harness from the row count.",
"C09": "The real weight and degree computation on symbolic edges (hash maps are executed with symbolic keys: equality of keys forks), ring exchange on k machines with symbolic schedules. Oracle: counting with nested loops.",
"C10": "The real Scorer with symbolic edges, times and query length; the oracle evaluates the published formula by loops; f32 on small integers is exact.",
"C11": "As C10 with t workers and every completion order; oracle is the formula, so all thread counts agree.",
"C12": "Raw scores are real unknowns put into the scoring state; properties of the delivered vector are checked by z3. File output goes through the real csv writer into the engine's file system model and is parsed back.",
"C13": "k machines with the real finalisation ring, arbitrary sub-scores, every interleaving; oracle concatenates.",
"C14": "The density estimate is an unknown function on a window of the grid (reals in [0,1]); real peak detection, assignment and labelling run on it. Oracle checks the statement directly (strict local maxima, a nearest peak, same label iff same centers, numbering).",
"C15": "The real estimator with a pool of helpers; number of rows and threads are choices, completion order symbolic; oracle: the kernel sum over all rows computed by the harness.",
"C16": "Series values are real unknowns; each machine runs the real collectors; oracle: minimum, maximum and two-pass variance over the union.",
"C17": "A csv file in the engine's file system model; sizes and column ranges are choices; schedules symbolic. Oracle: index arithmetic on the written cells.",
"C18": "Real unknowns for the series; the oracle sums `latent` values per offset.",
"C19": "Real unknowns; the oracle interpolates between the extremes.",
"C20": "The reference direction is parametrised rationally (half-angle tangents), so that norm, sine and cosine are rational; orthogonality, determinant and alignment become identities of rational functions, decided by normal form or z3.",
"C21": "Column and thread counts are choices, completion order symbolic; workers replaced by recorders, the manager is the real one.",
"C22": "The three protocol objects are driven by every history of events within bounds; in addition the real exchanges that use them are run with every interleaving at one machine, since an exchange can use a correct protocol object wrongly.",
"C23": "The real ClusterMemberListener on k machines, join notices at arbitrary times.",
"C24": "The real contribution computation with arbitrary labels and centers; the written file is parsed back. Oracle: loops over the statement.",
"C25": "Matrices of real unknowns: QR is replaced by A = I*A and the SVD by a recorder, so the matrix that reaches the decomposition is compared as polynomials with the scatter matrix of all rows; all message orders with fixed matrices; fixed matrices with Householder/Jacobi compared with the eigenvectors.",
"C26": "Whole local runs, all actors real, schedules deviating from the default order at up to `few` symbolic steps; result compared with the default schedule.",
"C27": "k machines from transposition to final score with the edges distributed as the edge estimation would; oracle is the single-machine score of the same edges (C10's formula).",
"C28": "k machines with all real actors (data manager, preprocessing, decomposition, rotation, ... scoring) on a csv file in the engine's file system; oracle: the same pipeline on one machine, which C10, C14, C18 etc. fix independently. Schedules symbolic up to `few` deviations.",
"C29": "Both entry points of `s2gpp` run symbolically in one process, the file one on a csv in the engine's file system; column range, thread count and one deviation of the schedule are symbolic; oracle: the array run, whose stages C10-C21 fix independently.",
"C30": "The derived structopt parser and the `Parameters` it fills run symbolically on a command line whose option, form, digits and role are choices; oracle: the table of options in the README, written down in the harness.",
}
def sp(i):
    s = importlib.util.spec_from_file_location("spec", f"{V}/groups/{i}/spec.py")
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
out = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; m = sp(i)
    out.append(f"### {i} {p['title']}\n\n*Method and oracle.* {NOTE.get(i, '')}\n\n*Bounds.* {m.BOUNDS}. "
               f"Quick: " + ", ".join(f"{e}({','.join(map(str, a))})" for e, a, *_ in m.JOBS["quick"]) + ". Thorough: "
               + ", ".join(f"{e}({','.join(map(str, a))})" for e, a, *_ in m.JOBS["thorough"]) + ".\n\n"
               f"*Outside.* {getattr(m, 'OUTSIDE', 'larger sizes than the bounds')}.\n\n"
               + (f"*Assumptions.* {'; '.join(m.ASSUMPTIONS)}.\n\n" if hasattr(m, "ASSUMPTIONS") else "")
               + f"*Why tests do not reach it.* {p['why_tests_cant']}.\n")
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    f = f"{V}/seeded/{d}/meta.json"
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught', 'yes')} |")
t = open(V + "/design_text.md").read()
t = t.replace("@PROPERTIES@", "\n".join(out)).replace("@SEEDED@", "| change | property | breaks | needs | caught by its check (quick) |\n|---|---|---|---|---|\n" + "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
