#!/usr/bin/env python3
"""writes MANIFEST.json from the groups that have a check and properties.jsonl"""
import json, os, subprocess, importlib.util
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
NA = {}
try:
    NA = json.load(open(V + "/not_applicable.json"))
except OSError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    sp = f"{V}/groups/{i}/spec.py"
    if not os.path.exists(sp) or i in NA:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
        continue
    s = importlib.util.spec_from_file_location("spec", sp)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} quick",
        "thorough_cmd": f"python3 check.py {i} thorough",
        "technique": "symbolic execution of the compiled LLVM IR with z3 deciding every assertion within bounds",
        "level": "model_checking",
        "level_note": "Bounded: " + m.BOUNDS + ". Trusts rustc's lowering, the IR engine, z3 and the stand-ins for actix, actix-telepathy and ndarray-linalg; counterexamples are replayed natively before they are reported."
        + (" " + m.NOTE if hasattr(m, "NOTE") else ""),
    })
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if "verification hooks" in c]
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "cfg(s2gpp_verif)", "enable": "RUSTFLAGS='--cfg s2gpp_verif' and S2GPP_VERIF_HOOKS=<directory with the included harness files>, see check.py", "source_commits": hooks},
    "checks": checks,
    "not_applicable": na,
}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
