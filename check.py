#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property (see DESIGN.md)
   check.py --setup                      build engine and dependencies
   check.py --dev PROPERTY [JOBFILTER]   run only matching jobs, verbose
exit 0: held on everything explored; 1: violation; 2: no answer"""
import json, os, re, subprocess, sys, time, fcntl, tempfile, shutil, threading, importlib.util

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.environ.get("VERIF_BUILD", os.path.join(V, ".build"))
HOOKS = os.path.join(B, "hooks")
MODS = ["root", "data_manager", "preprocessor", "stats_collector", "data_reader", "data_store",
        "cluster_listener", "interface", "utils", "training", "anomaly_contribution",
        "edge_estimation", "intersection_calculation", "node_estimation", "rotation", "scoring",
        "segmentation", "transposition", "multi_kde", "kde_actors", "pca"]
PAR = int(os.environ.get("VERIF_PAR", "8"))


def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


def spec_of(prop):
    p = os.path.join(V, "groups", prop, "spec.py")
    sp = importlib.util.spec_from_file_location("spec", p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def expand(text, seen=None):
    def inc(m):
        return expand(open(os.path.join(V, "groups", "_common", m.group(1))).read())
    return re.sub(r"^//@ include (\S+)$", inc, text, flags=re.M)


def write_hooks(prop):
    os.makedirs(HOOKS, exist_ok=True)
    for m in MODS:
        p = os.path.join(V, "groups", prop, m + ".rs")
        text = expand(open(p).read()) if os.path.exists(p) else ""
        if m == "root" and "entries!(" not in text:
            text += "\npub fn entries() -> Vec<(&'static str, extern \"C\" fn(usize, usize, usize, usize))> { vec![] }\n"
        write_if_changed(os.path.join(HOOKS, m + ".rs"), text)


def env(toolchain):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            del e[k]
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["S2GPP_VERIF_HOOKS"] = HOOKS
    e.pop("RUSTFLAGS", None)
    if toolchain != "stable":
        e["RUSTFLAGS"] = "--cfg s2gpp_verif -Awarnings"
    return e


TC = "1.86.0-x86_64-unknown-linux-gnu"


def run(cmd, cwd, e):
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build_engine():
    r = run(["cargo", "build", "--release", "--offline", "--target-dir", B + "/engine"], V + "/engine", env("stable"))
    if r.returncode:
        die("engine build failed\n" + r.stdout[-3000:])
    return B + "/engine/release/engine"


def build_ir():
    t = B + "/h"
    e = env(TC)
    r = run(["cargo", "rustc", "--lib", "--crate-type", "staticlib", "--offline", "--profile", "ir",
             "--target-dir", t, "--", "--emit=llvm-ir"], V + "/harness", e)
    if r.returncode:
        return None, r.stdout
    d = t + "/ir/deps"
    c = [os.path.join(d, f) for f in os.listdir(d) if f.startswith("harness-") and f.endswith(".ll")]
    return max(c, key=os.path.getmtime), r.stdout


def build_replay():
    t = B + "/h"
    r = run(["cargo", "build", "--bin", "replay", "--offline", "--profile", "ir", "--target-dir", t], V + "/harness", env(TC))
    if r.returncode:
        return None, r.stdout
    return t + "/ir/replay", r.stdout


class Build:
    """builds engine and IR in parallel; IR copied to a private file"""

    def __init__(self, prop):
        os.makedirs(B, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix="run.", dir=B)
        lock = open(B + "/lock", "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            eng = {}
            th = threading.Thread(target=lambda: eng.setdefault("x", build_engine()))
            th.start()
            write_hooks(prop)
            ir, log = build_ir()
            rep, rlog = (build_replay() if ir else (None, ""))
            th.join()
            if "x" not in eng:
                sys.exit(2)
            if not ir or not rep:
                die("the harness does not build against /repo\n" + (log + rlog)[-6000:])
            self.ir = self.tmp + "/h.ll"
            self.engine = self.tmp + "/engine"
            self.rep = self.tmp + "/replay"
            shutil.copy(ir, self.ir)
            shutil.copy(eng["x"], self.engine)
            shutil.copy(rep, self.rep)
        finally:
            fcntl.flock(lock, fcntl.LOCK_UN)

    def replay(self, entry, args, inputs, name):
        f = self.tmp + "/" + name
        with open(f, "w") as o:
            for k, _, u in inputs:
                o.write(f"{k} {u}\n")
        try:
            r = subprocess.run([self.rep, entry, ",".join(map(str, args)) or "-", f], cwd=self.tmp,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, env=dict(os.environ, TMPDIR=self.tmp),
                               errors="replace")
            return r.returncode, r.stdout, f
        except subprocess.TimeoutExpired:
            return 124, "TIMEOUT", f

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def known():
    out = []
    try:
        for l in open(V + "/known_findings.jsonl"):
            if l.strip():
                out.append(json.loads(l))
    except OSError:
        pass
    return out


def engine_run(b, jobs, timeout):
    out = b.tmp + "/out"
    shutil.rmtree(out, ignore_errors=True)
    text = "".join(f"{e} {','.join(map(str, a)) or '-'} {o}\n" for e, a, o in jobs)
    r = subprocess.run([b.engine, b.ir, out, str(PAR), str(timeout)], input=text, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", cwd=b.tmp)
    if os.environ.get("VERIF_ELOG"):
        open(os.environ["VERIF_ELOG"], "w").write(r.stdout)
    res = []
    for i in range(len(jobs)):
        try:
            res.append(json.load(open(f"{out}/{i}.json")))
        except (OSError, ValueError):
            res.append({"entry": jobs[i][0], "died": "no result " + r.stdout[-300:]})
    return res


def main():
    if sys.argv[1] == "--setup":
        Build("C01").close()
        return 0
    dev = sys.argv[1] == "--dev"
    if dev:
        sys.argv.pop(1)
    prop = sys.argv[1]
    t0 = time.time()
    filt = None
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        if sys.argv[2] in ("quick", "thorough"):
            tier = sys.argv[2]
        else:
            filt = sys.argv[2]
        if len(sys.argv) > 3:
            filt = sys.argv[3]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sp = spec_of(prop)
    b = Build(prop)
    try:
        return decide(prop, sp, b, tier, seed, dev, filt, t0)
    finally:
        b.close()


def norm(j):
    return (j[0], list(j[1]), j[2] if len(j) > 2 and j[2] else "qt=60")


def decide(prop, sp, b, tier, seed, dev, filt, t0):
    jobs = [norm(j) for j in sp.JOBS[tier if tier in sp.JOBS else "quick"]]
    if filt:
        jobs = [j for j in jobs if re.search(filt, j[0])]
    limit = getattr(sp, "TIMEOUT", {}).get(tier, 420 if tier == "quick" else 3000)
    tb = time.time() - t0
    res = engine_run(b, jobs, limit)
    violations, problems, incomplete = [], [], []
    agg = dict(paths=0, ended=0, forks=0, checks=0, steps=0, queries=0, sat=0, unsat=0, unknown=0)
    solver_s, functions, samples, validated, mismatch = 0.0, set(), [], 0, 0
    covers = {}
    kn = [k for k in known() if k.get("property") == prop and k.get("status") == "known"]
    found_known = {}
    perjob = []
    nviol = 0
    for j, r in zip(jobs, res):
        name = f"{j[0]}({','.join(map(str, j[1]))})"
        if dev:
            print(name, j[2], {k: r.get(k) for k in ("paths", "ended", "checks", "queries", "unknown", "solver_s", "wall_s", "timed_out", "covers", "unsupported", "unknown_checks", "steps", "missing", "died", "killed") if r.get(k)})
        if r.get("missing") or r.get("died") or r.get("killed"):
            problems.append(f"{name}: " + ("entry missing" if r.get("missing") else "engine stopped %s" % (r.get("died") or "by the time limit")))
            continue
        for k in agg:
            agg[k] += r[k]
        solver_s += r["solver_s"]
        functions.update(re.sub(r"::h[0-9a-f]{16}$", "", f) for f in r["functions"])
        for c, n in r["covers"].items():
            covers[int(c)] = covers.get(int(c), 0) + n
        if r["unsupported"]:
            incomplete.append(f"{name}: paths cut at unsupported operations {r['unsupported']}")
        if r["timed_out"]:
            incomplete.append(f"{name}: time limit, exploration not exhausted")
        if r["unknown_checks"]:
            incomplete.append(f"{name}: {r['unknown_checks']} checks undecided by the solver")
        perjob.append({"job": name, "options": j[2], "paths": r["paths"], "cut": r["ended"], "checks": r["checks"],
                       "queries": r["queries"], "solver_s": r["solver_s"], "wall_s": r["wall_s"]})
        if r["paths"] == 0 and not r["violations"]:
            (incomplete if r["timed_out"] else problems).append(f"{name}: no path completes")
        if r.get("sample") is not None and not r["violations"]:
            rc, out, _ = b.replay(j[0], j[1], r["sample"], "sample.txt")
            if rc == 0:
                validated += 1
                if len(samples) < 3:
                    samples.append({"job": name, "inputs": r["sample"][:40], "native": out.strip().splitlines()[-1:]})
            else:
                mismatch += 1
                if dev:
                    print("  sample path differs natively:", rc, out[-300:])
        for v in r["violations"]:
            nviol += 1
            rc, out, f = b.replay(j[0], j[1], v["inputs"], f"viol{nviol}.txt")
            ok = rc in (1, 101)
            desc = getattr(sp, "TAGS", {}).get(v["tag"], v["what"]) if v["tag"] < 9000 else v["what"]
            if dev:
                print("  VIOL", v["tag"], desc, "| native:", rc, out.strip()[-200:], "| inputs", v["inputs"][:60])
                print("    ", v["trace"][:8], v["notes"][:30])
            if not ok:
                problems.append(f"{name}: counterexample for '{desc}' does not reproduce natively (rc {rc}: {out.strip()[-200:]})")
                continue
            k = next((k for k in kn if matches(k, j, v, out)), None)
            if k is not None:
                found_known[k["id"]] = k
                continue
            violations.append((name, j, v, desc, out, f))
    for c in getattr(sp, "COVERS", []):
        if not covers.get(c) and not violations and not filt:
            problems.append(f"cover point {c} is not reachable (vacuous check)")
    replay = None
    if violations:
        os.makedirs(V + "/evidence/replay", exist_ok=True)
        name, j, v, desc, out, f = violations[0]
        replay = f"{V}/evidence/replay/{prop}.txt"
        shutil.copy(f, replay)
        with open(f"{V}/evidence/replay/{prop}.md", "w") as o:
            o.write(f"# {prop}: {desc}\n\nentry {j[0]} args {j[1]}\n\nengine: {v['what']}\n\nnative replay:\n{out}\n\n"
                    f"inputs (kind value):\n{v['inputs']}\n\ncall stack:\n" + "\n".join(v["trace"]) +
                    f"\n\nReplay: build with `check.py --dev {prop}`, then `replay {j[0]} {','.join(map(str, j[1]))} {replay}`\n")
    cov = {
        "states": agg["paths"], "transitions": agg["forks"], "traces_validated_against_impl": validated,
        "samples": samples,
        "explanation": "symbolic execution of the LLVM IR of /repo (built with the hooks on) with z3; states = symbolic "
                       "paths executed to the end, transitions = forks on symbolic conditions or scheduling choices, "
                       "traces_validated_against_impl = completed paths whose model was replayed natively with the same outcome",
        "paths_cut_by_assumptions": agg["ended"], "assertions_checked": agg["checks"], "ir_instructions": agg["steps"],
        "solver_queries": agg["queries"], "sat": agg["sat"], "unsat": agg["unsat"], "unknown": agg["unknown"],
        "solver_s": round(solver_s, 3), "build_s": round(tb, 1), "functions_encoded": sorted(functions),
        "bounds": getattr(sp, "BOUNDS", ""), "outside_bounds": getattr(sp, "OUTSIDE", "larger sizes than the bounds"),
        "jobs": perjob, "cover_points": covers, "incomplete": incomplete,
        "exhaustive": not incomplete and not problems,
        "problems": problems, "sample_paths_not_reproduced_exactly": mismatch,
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": ASSUME + list(getattr(sp, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as o:
        json.dump(ev, o, indent=1)
    for k in found_known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for i in incomplete:
        print("INCOMPLETE " + i)
    for p in problems[:8]:
        print("PROBLEM " + p)
    print(f"{prop} {tier}: {agg["paths"]} paths, {agg['checks']} assertions, {agg['queries']} queries "
          f"({agg['unsat']} unsat, {agg['sat']} sat, {agg['unknown']} unknown), validated {validated}, solver {solver_s:.1f}s, wall {time.time() - t0:.1f}s")
    if violations:
        for name, j, v, desc, out, f in violations[:5]:
            print(f"  {name}: {desc}: {out.strip().splitlines()[-1] if out.strip() else ''}")
        print(f"VIOLATION property={prop} replay={replay}", flush=True)
        return 1
    if problems:
        return 2
    return 0


def matches(k, j, v, out):
    m = k["match"]
    if m.get("entry") and m["entry"] != j[0]:
        return False
    if "args" in m and m["args"] != j[1][:len(m["args"])]:
        return False
    if "tag" in m and m["tag"] != v["tag"]:
        return False
    if "text" in m and not re.search(m["text"], v["what"] + "\n" + out):
        return False
    return True


ASSUME = [
    "rustc 1.86's lowering to LLVM IR at opt-level 1 (overflow checks on, panic=abort) represents the source",
    "the engine in /verif/engine interprets that IR correctly; z3's verdicts are correct",
    "actix, actix-telepathy, actix-broker and ndarray-linalg are replaced by the stand-ins in /verif/shims (explicit "
    "scheduler, in-process delivery in order per sender and receiver, textbook linear algebra)",
]
if __name__ == "__main__":
    sys.exit(main())
