"""Runs Verus over the spliced crate and turns its output into per-function results."""
import concurrent.futures
import glob
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vsplice

TOOLCHAIN = "1.98.1"
EXTERNS = ["either", "filetime", "libipld", "multihash", "quick_protobuf"]
FAILED = [
    "postcondition not satisfied",
    "precondition not satisfied",
    "recommendation not met",
    "invariant not satisfied",
    "assertion failed",
    "assertion not satisfied",
    "possible arithmetic underflow/overflow",
    "possible division by zero",
    "decreases not satisfied",
    "possible bit shift underflow/overflow",
    "loop ensures not satisfied",
    "loop invariant not",
    "unwinding",
    "unreachable",
    "could not show termination",
    "requires not satisfied",
    "split precondition failure",
    "split postcondition failure",
    "split assertion failure",
    "type invariant not satisfied",
]


def deps_dir(repo, target):
    t = os.path.join(target, "vdeps")
    env = dict(os.environ, CARGO_TARGET_DIR=t)
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(
        ["cargo", "+" + TOOLCHAIN, "build", "--offline", "--lib", "--manifest-path", os.path.join(repo, "Cargo.toml")],
        env=env, capture_output=True, text=True,
    )
    if r.returncode != 0:
        raise RuntimeError("dependencies of the crate do not build:\n" + r.stderr[-4000:])
    return os.path.join(t, "debug", "deps")


def extern_args(deps):
    a = ["-L", "dependency=" + deps]
    for e in EXTERNS:
        c = sorted(glob.glob(os.path.join(deps, "lib%s-*.rlib" % e)), key=os.path.getmtime)
        if not c:
            raise RuntimeError("no rlib for " + e)
        a += ["--extern", "%s=%s" % (e, c[-1])]
    return a


def run_verus(work, deps, extra=(), timeout=600):
    cmd = (
        ["verus", "src/lib.rs", "--crate-type=lib", "--crate-name=unixfs_v1", "--edition=2018", "--cap-lints=allow",
         "--cfg", 'feature="filetime"', "--output-json", "--time-expanded", "--error-format=json",
         "--multiple-errors", "8", "--num-threads", "8"]
        + extern_args(deps) + list(extra)
    )
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=work, capture_output=True, text=True, timeout=timeout)
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = "", "timeout", -1
    diags = []
    other = []
    for line in err.splitlines():
        if line.startswith("{"):
            try:
                diags.append(json.loads(line))
                continue
            except ValueError:
                pass
        other.append(line)
    try:
        js = json.loads(out[out.index("{"):])
    except ValueError:
        js = {}
    return {"cmd": cmd, "rc": rc, "json": js, "diags": diags, "other": other, "wall": time.time() - t}


def locate(info, work, span):
    f = "src/" + os.path.relpath(os.path.join(work, span["file_name"]), os.path.join(work, "src"))
    best = None
    for r in info["functions"]:
        if r["file"] == f and "out" in r and r["out"][0] <= span["line_start"] <= r["out"][1]:
            best = r["fn"]
    return f, best


def fn_in_append(work, span):
    """name of the proof function around a line of appended text"""
    try:
        lines = open(os.path.join(work, span["file_name"])).read().splitlines()
    except OSError:
        return None
    for n in range(min(span["line_start"], len(lines)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", lines[n])
        if m:
            return m.group(1)
    return None


def tags_at(work, span):
    try:
        lines = open(os.path.join(work, span["file_name"])).read().splitlines()
        text = "\n".join(lines[span["line_start"] - 1 : span["line_end"]])
    except OSError:
        return set()
    out = set()
    for m in re.finditer(r"//\s*\[(C\d\d(?:[ ,]+C\d\d)*)\]", text):
        out |= set(re.findall(r"C\d\d", m.group(1)))
    return out


def again(work, deps, fl, short):
    """The queries of one function once more with other seeds of the solver: a proof found is a proof.
    -> the seed with which everything asked for was accepted, or None"""
    mod = re.sub(r"^src/|\.rs$", "", fl).replace("/", "::")
    where = ["--verify-root"] if mod == "lib" else ["--verify-only-module", mod]
    for seed in (11, 42):
        r = run_verus(work, deps, where + ["--verify-function", "*" + short, "--smt-option", "smt.random_seed=%d" % seed, "--rlimit", "40"], timeout=200)
        vr = r["json"].get("verification-results", {})
        if vr.get("verified") and not vr.get("errors") and r["rc"] == 0:
            return seed
    return None


def second_look(work, deps, suspects):
    """suspects {key: (file, short name)} -> {key: seed} of those accepted with another seed"""
    out = {}
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        fs = {k: ex.submit(again, work, deps, fl, short) for k, (fl, short) in suspects.items()}
        for k, f in fs.items():
            s = f.result()
            if s is not None:
                out[k] = s
    return out


def verify(repo, target, name, probe=False, extra=(), vc_dir=None, deps=None, rounds=8):
    vc_dir = vc_dir or os.path.join(VERIF, "contracts")
    work = os.path.join(target, "vwork-" + name)
    os.makedirs(work, exist_ok=True)
    deps = deps or deps_dir(repo, target)
    demoted = {}
    hollow = set()
    wall = 0.0
    res = {"failed": [], "undecided": {}, "error": None, "open_lemmas": [], "other_seed": {}}
    for rnd in range(rounds):
        info, files = vsplice.splice(os.path.join(repo, "src"), os.path.join(work, "src"), vc_dir, demoted, probe, hollow)
        r = run_verus(work, deps, extra)
        wall += r["wall"]
        failed, new_demote, hard, rlimit, new_hollow = [], {}, [], {}, set()
        for d in r["diags"]:
            if d.get("level") != "error":
                continue
            msg = d["message"]
            if msg.startswith("aborting due to"):
                continue
            spans = d.get("spans", [])
            prim = [s for s in spans if s["is_primary"]] or spans
            fn = None
            fl = None
            pick = None
            for s in prim + spans:
                if os.path.isabs(s["file_name"]) or not s["file_name"].startswith("src/"):
                    continue
                fl, fn = locate(info, work, s)
                pick = s
                if fn:
                    break
            kind = next((k for k in FAILED if msg.startswith(k) or k in msg), None)
            if "rlimit" in msg or "Resource limit" in msg:
                short = fn.split("::", 1)[1] if fn else (fn_in_append(work, pick) if pick else None)
                if short and fl:
                    key = fn or "%s::%s" % (fl, short)
                    if not probe:
                        rlimit[key] = (fl, re.sub(r"^.*(@|::)(?=\w+$)", "", short) if "@" in short else short, fn, msg)
                else:
                    hard.append(msg)
            elif kind:
                tags = set()
                for s in spans:
                    if s["file_name"].startswith("src/"):
                        tags |= tags_at(work, s)
                # the function whose body was checked: prefer a span inside a contracted body
                name_ = fn
                if msg.startswith("postcondition") or msg.startswith("invariant"):
                    for s in spans:
                        f2, n2 = locate(info, work, s) if s["file_name"].startswith("src/") else (None, None)
                        if n2 and "end of the function body" in (s.get("label") or ""):
                            name_ = n2
                failed.append({"fn": name_ or (("%s::%s" % (fl, fn_in_append(work, pick))) if pick else "?"), "kind": msg, "tags": sorted(tags), "rendered": d.get("rendered") or msg, "at": fl, "lemma": None if name_ or not pick else fn_in_append(work, pick)})
            else:
                if fn and fn not in demoted:
                    new_demote[fn] = msg
                    if os.environ.get("VRUN_DEBUG"):
                        print(d.get("rendered") or msg, file=sys.stderr)
                elif fn and fn not in hollow:
                    new_hollow.add(fn)
                elif fn:
                    hard.append(msg + " @ " + fn)
                else:
                    hard.append(msg + ((" @ %s:%d" % (pick["file_name"], pick["line_start"])) if pick else ""))
        vr = r["json"].get("verification-results", {})
        if os.environ.get("VRUN_DEBUG"):
            print("round", rnd, "demote", new_demote, "hard", hard[:5], vr, file=sys.stderr)
        if not new_demote and not new_hollow and not hard and not probe:
            suspects = {k: v[:2] for k, v in rlimit.items()}
            for f in failed:
                own = f["fn"].split("::", 1)[-1]
                short = f["lemma"] or (re.sub(r"^.*(@|::)(?=\w+$)", "", own) if "@" in own else own)
                if f["at"] and short != "?":
                    suspects[f["fn"]] = (f["fn"].split("::")[0], short)
            if 0 < len(suspects) <= 8:
                t1 = time.time()
                seeds = second_look(work, deps, suspects)
                wall += time.time() - t1
                res["other_seed"] = {k: seeds[k] for k in sorted(seeds)}
                failed = [f for f in failed if f["fn"] not in seeds]
                rlimit = {k: v for k, v in rlimit.items() if k not in seeds}
        for k, (fl, short, fn, msg) in ({} if new_demote or new_hollow or hard else rlimit).items():
            if fn and fn not in demoted:
                new_demote[fn] = msg
            else:
                res["open_lemmas"].append("%s (%s)" % (k, msg))
        if new_demote or new_hollow:
            demoted.update(new_demote)
            hollow |= new_hollow
            res["open_lemmas"] = []
            continue
        if hard or not vr:
            res["error"] = "; ".join(hard) or "no result from the verifier (exit %s): %s" % (r["rc"], "\n".join(r["other"])[-2000:])
        res["failed"] = failed
        break
    else:
        res["error"] = "no fixed point while leaving out unsupported functions"
    res["lost"] = info["lost"]
    res["undecided"] = demoted
    res["functions"] = info["functions"]
    res["wall"] = wall
    res["cmd"] = " ".join(r["cmd"])
    res["verified"] = vr.get("verified", 0)
    res["errors"] = vr.get("errors", 0)
    bd = []
    for m in r["json"].get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            bd.append({"fn": f.get("function"), "ok": f.get("success"), "us": f.get("time-micros"), "rlimit": f.get("rlimit")})
    res["breakdown"] = bd
    res["notes"] = [d.get("rendered") or d["message"] for d in r["diags"] if d.get("level") == "note"]
    res["smt_ms"] = r["json"].get("times-ms", {}).get("smt", {}).get("total", None)
    res["work"] = work
    return res


if __name__ == "__main__":
    repo = os.environ.get("UX_REPO", "/repo")
    target = os.path.join(VERIF, "target")
    vc = sys.argv[1] if len(sys.argv) > 1 and os.path.isdir(sys.argv[1]) else None
    extra = [a for a in sys.argv[1:] if a.startswith("--") and a != "--probe"] 
    r = verify(repo, target, "dev", probe="--probe" in sys.argv, extra=[x for a in extra for x in a.split("=", 1)], vc_dir=vc)
    for f in r["failed"]:
        print("FAILED", f["fn"], f["kind"], f["tags"])
        print(f["rendered"])
    for l in r["lost"]:
        print("LOST", l["fn"], l["why"])
    for k, v in r["undecided"].items():
        print("DEMOTED", k, v)
    if any("expand" in x for x in extra):
        print("\n".join(r["notes"]))
    print("error:", r["error"], "open lemmas:", r["open_lemmas"], "other seed:", r["other_seed"])
    for b in sorted(r["breakdown"], key=lambda b: -(b["us"] or 0))[:12]:
        print("   ", b)
    print("verified", r["verified"], "errors", r["errors"], "wall %.1f" % r["wall"], "smt", r["smt_ms"])
