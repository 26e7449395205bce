"""Which obligations fail with each planted change (development aid; no check uses it)."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "tools"))
import vrun
repo, target = "/tmp/repo-seeds", os.path.join(V, "target")
subprocess.check_call(["rm", "-rf", repo])
subprocess.check_call(["cp", "-a", "/repo", repo])
deps = vrun.deps_dir("/repo", target)
for s in sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    subprocess.check_call(["git", "-C", repo, "apply", os.path.join(V, "seeded", s, "patch.diff")])
    r = vrun.verify(repo, target, "seeds", deps=deps)
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    po = {f["fn"]: f["props"] for f in r["functions"]}
    fs = sorted({(f["fn"], m["property"] in (f["tags"] or po.get(f["fn"], []))) for f in r["failed"]})
    print(s, "|", m["property"], "|", "; ".join(a + ("" if b else " (other)") for a, b in fs) or "-", "|", r["error"] or "", "| undecided:", ", ".join(r["undecided"]), ", ".join(l["fn"] for l in r["lost"]), flush=True)
subprocess.check_call(["rm", "-rf", repo])
