#!/usr/bin/env python3
"""Makes the planted changes of /verif/seeded from their definitions (edits + demonstration), after
confirming in a scratch copy of /repo that each builds, passes the tests and fails its demonstration.
usage: mkseeded.py DEFS.py [id ...]"""
import json, os, re, runpy, shutil, subprocess, sys

SEED = "/verif/seeded"
SCR = "/tmp/uxseed"
DEMO_SH = r'''#!/bin/bash
# exit 0: the crate in the current directory behaves; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work=/tmp/uxdemo-@ID@
rm -rf /tmp/uxdemo-@ID@
mkdir -p "$work/src"
trap 'rm -rf /tmp/uxdemo-@ID@' EXIT
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
unixfs-v1 = { path = "$repo" }
libipld = { version = "0.14.0", default-features = false }
quick-protobuf = "0.8.0"
TOML
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cd "$work" || exit 2
CARGO_TARGET_DIR="${UXDEMO_TARGET:-$work/target}" RUSTC_WRAPPER= cargo run --offline -q
'''

COMMON = r'''
#![allow(dead_code, unused_imports)]
use libipld::multihash::{Code, MultihashDigest};
use libipld::Cid;
use quick_protobuf::{MessageWrite, Writer};
use std::borrow::Cow;
use std::collections::HashMap;
use std::convert::TryFrom;
use std::path::Path;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeOptions};
use unixfs_v1::file::adder::{BalancedCollector, Chunker, FileAdder};
use unixfs_v1::file::visit::{Cache, IdleFileVisit};
use unixfs_v1::walk::{ContinuedWalk, Walker};
use unixfs_v1::{resolve, FlatUnixFs, MaybeResolved, PBLink, PBNode, UnixFs, UnixFsType};

fn cid_of(block: &[u8]) -> Cid {
    Cid::new_v1(0x70, Code::Sha2_256.digest(block))
}

fn link(name: &str, target: &Cid, size: u64) -> PBLink<'static> {
    PBLink {
        Hash: Some(Cow::Owned(target.to_bytes())),
        Name: Some(Cow::Owned(name.to_string())),
        Tsize: Some(size),
    }
}

fn encode(links: Vec<PBLink<'_>>, data: UnixFs<'_>) -> Vec<u8> {
    let node = FlatUnixFs { links, data };
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    node.write_message(&mut w).unwrap();
    out
}

fn leaf(data: &[u8]) -> Vec<u8> {
    encode(
        vec![],
        UnixFs {
            Type: UnixFsType::File,
            Data: Some(Cow::Borrowed(data)),
            filesize: Some(data.len() as u64),
            ..Default::default()
        },
    )
}

fn parent(children: &[(Cid, u64)]) -> Vec<u8> {
    encode(
        children.iter().map(|(c, s)| link("", c, *s)).collect(),
        UnixFs {
            Type: UnixFsType::File,
            filesize: Some(children.iter().map(|(_, s)| *s).sum()),
            blocksizes: children.iter().map(|(_, s)| *s).collect(),
            ..Default::default()
        },
    )
}

type Store = HashMap<Cid, Vec<u8>>;

fn put(store: &mut Store, block: Vec<u8>) -> Cid {
    let cid = cid_of(&block);
    store.insert(cid, block);
    cid
}

fn read(store: &Store, root: &Cid, range: Option<std::ops::Range<u64>>) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let visit = match range {
        Some(r) => IdleFileVisit::default().with_target_range(r),
        None => IdleFileVisit::default(),
    };
    let (bytes, _, _, mut step) = visit.start(&store[root]).map_err(|e| format!("{:?}", e))?;
    out.extend_from_slice(bytes);
    while let Some(v) = step {
        let block = &store[v.pending_links().0];
        let (bytes, next) = v.continue_walk(block, &mut None).map_err(|e| format!("{:?}", e))?;
        out.extend_from_slice(bytes);
        step = next;
    }
    Ok(out)
}
'''

def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **env), capture_output=True, text=True, shell=True)

def main():
    defs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base if isinstance(base, list) else base.get("stable", base.get("tests", base)))
    for b in defs:
        if want and b["id"] not in want:
            continue
        d = os.path.join(SEED, b["id"])
        repo = os.path.join(SCR, "repo")
        os.makedirs(SCR, exist_ok=True)
        if not os.path.isdir(repo):
            subprocess.check_call(["cp", "-a", "/repo", repo])
        run("git checkout -q -f master 2>/dev/null; git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- .", repo)
        demo = os.path.join(SCR, "demo")
        shutil.rmtree(demo, ignore_errors=True)
        os.makedirs(demo)
        open(demo + "/demo.sh", "w").write(DEMO_SH.replace("@ID@", b["id"]))
        os.chmod(demo + "/demo.sh", 0o755)
        open(demo + "/demo.rs", "w").write(COMMON.lstrip() + "\n" + b["demo"].strip() + "\n")
        r0 = run("bash %s/demo.sh" % demo, repo, UXDEMO_TARGET=SCR + "/dt")
        if r0.returncode != 0:
            print(b["id"], "DEMO FAILS ON CLEAN TREE", r0.stdout[-500:], r0.stderr[-2500:]); continue
        ok = True
        for path, old, new in b["edits"]:
            p = os.path.join(repo, path)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), path, old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        t = run("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", repo, CARGO_TARGET_DIR=SCR + "/tt", RUSTC_WRAPPER="")
        if t.returncode != 0:
            print(b["id"], "TESTS FAIL", re.findall(r"^test .*FAILED|^error.*(?:\n.*){0,6}", t.stdout + t.stderr, re.M)[:8]); continue
        r1 = run("bash %s/demo.sh" % demo, repo, UXDEMO_TARGET=SCR + "/dt")
        if r1.returncode == 0:
            print(b["id"], "DEMO PASSES WITH THE CHANGE"); continue
        diff = run("git diff", repo).stdout
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in ("demo.sh", "demo.rs"):
            shutil.copy2(demo + "/" + f, d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(b["id"], "OK:", (r1.stderr.strip().splitlines() or ["?"])[-3:])
main()
