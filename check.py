#!/usr/bin/env python3
"""Decides one property: check.py Cxx [--tier quick|thorough]

1. splices the contracts of /verif/contracts into a scratch copy of /repo's source and lets Verus
   discharge every obligation (the deciding step), with a vacuity probe of the same functions;
2. runs the executable counterpart of the property against the crate built from /repo: it is the
   bounded stand-in for what is not under contract, and the search for a failing input otherwise.
"""
import concurrent.futures
import fcntl
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("UX_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import vrun
import trusted

LEVELS = json.load(open(os.path.join(VERIF, "levels.json")))
HBIN = os.path.join(TARGET, "harness", "debug", "uxharness")


class Lock:
    def __init__(self, name):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def build_harness():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, "harness"))
    env.pop("RUSTFLAGS", None)
    with Lock("harness"):
        r = subprocess.run(
            ["cargo", "build", "--offline"], cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True,
        )
        if r.returncode != 0:
            return None, r.stderr[-6000:]
        own = os.path.join(TARGET, "uxharness.%d" % os.getpid())
        shutil.copy2(HBIN, own)
        return own, None


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(C\d\d) match=\"([^\"]+)\" (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(hb, prop, tier, seed, budget, tag, timeout):
    """-> dict of the harness, with violations [{path, message}]"""
    rdir = os.path.join(TARGET, "replays", prop)
    out = os.path.join(TARGET, "harness-out-%s-%d-%s.json" % (prop, os.getpid(), tag))
    cmd = [hb, prop, "--tier", tier, "--seed", str(seed), "--out", out, "--replay-dir", rdir, "--budget", str(budget)]
    for k, _ in known_findings(prop):
        cmd += ["--known", k]
    if os.path.exists(out):
        os.remove(out)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, preexec_fn=limits)
        rc, err = r.returncode, r.stderr[-3000:]
    except subprocess.TimeoutExpired:
        rc, err = None, "timeout"
    try:
        js = json.load(open(out))
        os.remove(out)
        return js
    except (OSError, ValueError):
        pass
    if rc is None:
        return {"error": "the executable contract did not end in %d s" % timeout}
    # the process ended without a result: find the case which ends it
    trace = os.path.join(TARGET, "trace-%s-%d.json" % (prop, os.getpid()))
    try:
        r = subprocess.run(cmd + ["--trace", trace], capture_output=True, text=True, timeout=timeout, preexec_fn=limits)
        rc2 = r.returncode
    except subprocess.TimeoutExpired:
        rc2 = None
    if rc2 not in (None, 0, 1) and os.path.exists(trace):
        t = json.load(open(trace))
        os.remove(trace)
        msg = "the process ends with status %s (stack overflow, abort or out of memory): %s" % (rc2, r.stderr[-400:])
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, prop + "-0.json")
        json.dump({"property": prop, "case": t["case"], "params": t["params"], "message": msg}, open(p, "w"))
        return {"violations": [{"path": p, "message": msg}], "evaluations": 1, "distinct": 0, "samples": [], "per_generator": {}}
    return {"error": "the executable contract ended with status %s: %s" % (rc, err)}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = LEVELS[prop]
    hbudget = 60 if tier == "quick" else 600
    name = "%s-%d" % (prop, os.getpid())

    def proofs():
        try:
            with Lock("deps"):
                deps = vrun.deps_dir(REPO, TARGET)
            main_ = vrun.verify(REPO, TARGET, name, deps=deps)
            probe = None
            if not main_["error"]:
                probe = vrun.verify(REPO, TARGET, name + "-p", probe=True, deps=deps)
            return main_, probe
        except Exception as e:  # the tool is not there, the crate does not build, ...
            return {"error": "%s: %s" % (type(e).__name__, e), "failed": [], "lost": [], "undecided": {}, "functions": [], "breakdown": [], "verified": 0, "cmd": "", "smt_ms": None, "wall": 0}, None

    def native():
        hb, err = build_harness()
        if hb is None:
            return None, {"error": "the executable contracts do not build against the crate: " + err}
        return hb, run_harness(hb, prop, tier, seed, hbudget, "a", 420 if tier == "quick" else 1500)

    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fa, fb = ex.submit(proofs), ex.submit(native)
        (vres, probe), (hb, hres) = fa.result(), fb.result()

    # ---- what the verifier said about this property
    mine = [f for f in vres["functions"] if prop in f["props"] and f["mode"] == "verify"]
    undecided = [f for f in vres["functions"] if prop in f["props"] and f["mode"] == "demoted"]
    lost = [l for l in vres["lost"] if prop in l.get("props", [])]
    props_of = {f["fn"]: f["props"] for f in vres["functions"]}
    failed = []
    if not vres["error"]:
        for f in vres["failed"]:
            tags = f["tags"] or props_of.get(f["fn"], [])
            if prop in tags:
                failed.append(f)
    vacuous = []
    if probe is not None and not probe["error"]:
        reach = {f["fn"] for f in probe["failed"] if "assert" in f["kind"]}
        vacuous = [f["fn"] for f in mine if f["fn"] not in reach]
    ran = {}
    for b in vres["breakdown"]:
        ran[b["fn"].split("::", 1)[-1]] = b
    violations = list(hres.get("violations", []))
    if failed and not violations and hb:
        # a witness for the failed obligation
        left = max(20, 420 - int(time.time() - t0))
        for k, s in enumerate([seed + 1, seed + 77]):
            h2 = run_harness(hb, prop, "thorough", s, left // 3, "w%d" % k, left // 3 + 90)
            if h2.get("violations"):
                violations = h2["violations"]
                break
    if hb:
        os.remove(hb)

    lines, rc = [], 0
    rdir = os.path.join(TARGET, "replays", prop)
    os.makedirs(rdir, exist_ok=True)
    for pat, what in known_findings(prop):
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, what))
    obl = [{"fn": f["fn"], "obligation": f["kind"], "verifier_output": f["rendered"]} for f in failed]
    if violations:
        for v in violations:
            p = v.get("path") or os.path.join(rdir, prop + "-x.json")
            try:
                d = json.load(open(p))
                d["failed_obligations"] = obl
                d["replay_with"] = "cd /verif/harness && CARGO_TARGET_DIR=/verif/target/harness cargo run --offline -q -- replay " + p
                json.dump(d, open(p, "w"), indent=1)
            except (OSError, ValueError):
                json.dump({"property": prop, "message": v["message"], "failed_obligations": obl}, open(p, "w"), indent=1)
            lines.append("# " + v["message"][:500].replace("\n", " "))
            for f in failed[:5]:
                lines.append("# failed obligation: %s in %s" % (f["kind"], f["fn"]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        rc = 1
    elif failed:
        p = os.path.join(rdir, prop + "-obligations.json")
        json.dump({"property": prop, "failed_obligations": obl, "checker_cmd": vres["cmd"], "note": "no failing input was found; the obligations above were discharged on the unchanged tree"}, open(p, "w"), indent=1)
        for f in failed[:8]:
            lines.append("# failed obligation: %s in %s" % (f["kind"], f["fn"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        rc = 1

    open_lemmas = vres.get("open_lemmas", [])
    proved = not vres["error"] and not failed and mine and not vacuous and not lost and not undecided and not open_lemmas
    level = cfg["level"]
    if level == "proof" and not proved and rc == 0:
        level = "exploration"
    if vacuous and rc == 0:
        print("# vacuous contracts (nothing after their preconditions is reachable): %s" % vacuous)
    notes = []
    if vres["error"]:
        notes.append("the verifier gave no result on this tree (%s): the bounded executable contract alone decided" % vres["error"][:600])
    for u in undecided:
        notes.append("undecided, outside of the verifier's reach on this tree: %s (%s)" % (u["fn"], vres["undecided"].get(u["fn"], "lost anchor")))
    for l in lost:
        notes.append("undecided, the contract no longer fits the code: %s (%s)" % (l["fn"], l["why"]))
    for l in open_lemmas:
        notes.append("the solver gave no answer for a lemma: " + l)
    for n in notes:
        lines.append("# " + n.replace("\n", " "))
    if hres.get("error"):
        lines.append("# " + hres["error"].replace("\n", " ")[:1500])
        if rc == 0 and (not proved):
            print("\n".join(lines))
            print("neither the proof nor the executable contract gave an answer", file=sys.stderr)
            rc = 2

    nfn = len(mine)
    bad = {f["fn"] for f in failed}
    bad_all = {f["fn"] for f in vres["failed"]}
    every = [f for f in vres["functions"] if f["mode"] == "verify"]
    lemmas = max(0, vres.get("verified", 0) + vres.get("errors", 0) - len(every))
    lemmas_bad = len(bad_all - {f["fn"] for f in every})
    cov = {
        "obligations": nfn + lemmas,
        "discharged": 0 if vres["error"] else nfn - len([f for f in mine if f["fn"] in bad]) + lemmas - lemmas_bad,
        "obligations_note": "one per function under contract for this property, plus the lemmas and specification functions of the spliced crate (%d); each is a set of verification conditions Verus asked Z3 for on this run. Whole crate: %d discharged, %d not." % (lemmas, vres.get("verified", 0), vres.get("errors", 0)),
        "functions_under_contract": [{"fn": f["fn"], "discharged": f["fn"] not in bad, "rewrites": len(f["rewrites"])} for f in mine],
        "functions_under_contract_count": nfn,
        "functions_discharged_count": nfn - len([f for f in mine if f["fn"] in bad]),
        "functions_trusted": [f["fn"] for f in vres["functions"] if f["mode"] == "trusted"],
        "rewrites": [{"fn": f["fn"], "rewrites": f["rewrites"]} for f in mine if f["rewrites"]],
        "checker_cmd": re.sub(r"\s+", " ", vres["cmd"])[:3000],
        "backend": "Verus 0.2026.09.13 with Z3",
        "solver_ms": vres.get("smt_ms"),
        "verifier_wall_s": round(vres.get("wall", 0), 1),
        "discharged_with_another_solver_seed": vres.get("other_seed", {}),
        "vacuity_probe": {"ran": bool(probe and not probe["error"]), "reachable": nfn - len(vacuous), "not_reachable": vacuous},
        "trusted_base": trusted.scan(os.path.join(VERIF, "contracts")),
        "bounded_stand_in": {
            "label": "bounded: executed on the real crate, never counted as proved",
            "evaluations": hres.get("evaluations", 0),
            "distinct_nontrivial": hres.get("distinct", 0),
            "per_generator": hres.get("per_generator", {}),
            "budget_reached": hres.get("budget_reached"),
            "error": hres.get("error"),
        },
        "evaluations": hres.get("evaluations", 0),
        "distinct_nontrivial": hres.get("distinct", 0),
        "rule": cfg["rule"],
        "samples": hres.get("samples", [])[:12],
        "known_findings_hit": hres.get("known_hits", []),
        "undecided": notes,
        "explanation": cfg["note"],
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": cfg.get("assumptions", []) + LEVELS["_assumptions"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations) or len(failed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for d in ("vwork-" + name, "vwork-" + name + "-p"):
        shutil.rmtree(os.path.join(TARGET, d), ignore_errors=True)
    print("%s: %d functions under contract, %d failed obligations, %d undecided; %d executions; %.1f s" % (
        prop, nfn, len(failed), len(notes), hres.get("evaluations", 0), time.time() - t0))
    print("\n".join(lines))
    sys.exit(rc)


if __name__ == "__main__":
    main()
