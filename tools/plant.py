#!/usr/bin/env python3
"""Development-time helper: builds /verif/seeded/<id>/ from a spec in tools/bugs/<id>.rs and confirms it.
usage: plant.py <id>... [--nocheck]

A spec is the demonstration program; its head is a comment of the form
//! property: C03
//! needs: ...
//! breaks: ...
//! file: fall/parse/src/lex_engine.rs
//! old
//! |line
//! new
//! |line
(file/old/new may be repeated)
"""
import json, os, subprocess, sys, difflib, shutil, time
ROOT = "/verif"
REPO = "/repo"
DEMO = r'''#!/bin/bash
# builds the program beside this script against /repo's crates and runs it
set -u
here="$(cd "$(dirname "$0")" && pwd)"
unset RUSTC RUSTDOC RUSTC_WRAPPER RUSTUP_TOOLCHAIN CARGO_TARGET_DIR
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS="--cap-lints allow" CARGO_PROFILE_DEV_DEBUG=0
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
serde_json = "1"
%s
T
cd "$work" || exit 2
cargo build --offline -q || exit 3
timeout 100 ./target/debug/demo
'''
DEPS = {"fall_text": "fall/text", "fall_tree": "fall/tree", "fall_parse": "fall/parse", "fall_gen": "fall/gen", "fall_editor": "fall/editor",
        "fall_test": "fall/test", "lang_fall": "lang/fall", "lang_fall_syntax": "lang/fall/syntax", "lang_rust": "lang/rust",
        "lang_rust_syntax": "lang/rust/syntax", "lang_json": "lang/json", "lang_bnf": "lang/bnf", "indxr": "indxr"}

def parse(path):
    meta = {"edits": []}
    body = []
    cur = None
    for line in open(path):
        line = line.rstrip("\n")
        if not line.startswith("//!"):
            body.append(line)
            continue
        c = line[3:]
        c = c[1:] if c.startswith(" ") else c
        if c.startswith("|"):
            meta["edits"][-1][cur].append(c[1:])
        elif c in ("old", "new"):
            cur = c
            if c == "old" and meta["edits"][-1]["old"]:
                meta["edits"].append({"file": meta["edits"][-1]["file"], "old": [], "new": []})
        elif c.startswith("file: "):
            meta["edits"].append({"file": c[6:], "old": [], "new": []})
        else:
            k, v = c.split(": ", 1)
            meta[k] = v
    return meta, "\n".join(body) + "\n"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def clean():
    subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])

def rust_demo(d, body):
    open(f"{d}/main.rs", "w").write(body)
    for m in ("mini",):
        if f"mod {m};" in body:
            shutil.copy(f"{ROOT}/tools/bugs/{m}.rs", f"{d}/{m}.rs"); body += open(f"{d}/{m}.rs").read()
    deps = "\n".join('%s = { path = "/repo/%s" }' % (k, v) for k, v in DEPS.items() if k in body or "use " + k in body)
    open(f"{d}/demo.sh", "w").write(DEMO % deps)
    os.chmod(f"{d}/demo.sh", 0o755)
    shutil.copy(f"{ROOT}/tools/bugs/Cargo.lock", f"{d}/Cargo.lock")

def one(id, nocheck):
    meta, body = parse(f"{ROOT}/tools/bugs/{id}.rs")
    d = f"{ROOT}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    assert not sh(f"git -C {REPO} status --porcelain").stdout.strip(), "repo not clean"
    files = {}
    for e in meta["edits"]:
        f = e["file"]
        s = files.setdefault(f, [open(f"{REPO}/{f}").read()] * 2)
        old, new = "\n".join(e["old"]), "\n".join(e["new"])
        assert s[1].count(old) == 1, f"{id}: {s[1].count(old)} occurrences in {f} of\n{old}"
        files[f] = [s[0], s[1].replace(old, new)]
    blame_bad = []
    for f, (a, b) in files.items():
        open(f"{REPO}/{f}", "w").write(b)
    if "regen" in meta:
        g = f"{REPO}/{meta['regen']}"
        r = sh(f"/verif/target/release/gen {g}.fall /tmp/regen.out"); assert r.returncode == 0, r.stdout
        import re
        rx = re.compile(r'parser_json = r##"(.*?)"##;', re.S)
        t, o = open(g + ".rs").read(), open("/tmp/regen.out").read()
        a, b = rx.search(t), rx.search(o)
        open(g + ".rs", "w").write(t[:a.start(1)] + b.group(1) + t[a.end(1):])
    diff = sh(f"git -C {REPO} diff").stdout
    clean()
    open(f"{d}/patch.diff", "w").write(diff)
    # changed lines must be original ones
    for f, (a, b) in files.items():
        bl = sh(f"git -C {REPO} blame -s {f}").stdout.split("\n")
        base = sh(f"git -C {REPO} rev-list --max-parents=0 HEAD").stdout.strip()[:7]
        al, bl2 = a.split("\n"), b.split("\n")
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, al, bl2).get_opcodes():
            if tag in ("replace", "delete"):
                own = [bl[i] for i in range(i1, i2) if base not in bl[i].split(" ")[0]]
                if own:
                    blame_bad += own
    if blame_bad:
        print(f"{id}: changes lines of my own commits:", blame_bad)
    own_demo = f"{ROOT}/tools/bugs/{id}"
    if os.path.isdir(own_demo):
        # a demonstration of another kind: the directory is copied as it is
        shutil.rmtree(d); shutil.copytree(own_demo, d); open(f"{d}/patch.diff", "w").write(diff)
    else:
        rust_demo(d, body)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    env = dict(os.environ)
    # demo on clean
    r0 = sh(f"cd /repo && bash {d}/demo.sh")
    if r0.returncode != 0:
        print(f"{id}: demo fails on the clean tree ({r0.returncode})\n{r0.stdout[-1500:]}")
        return
    try:
        r = sh(f"git -C {REPO} apply {d}/patch.diff"); assert r.returncode == 0, r.stdout
        r = sh("bash /opt/vp/build.sh")
        if r.returncode != 0:
            print(f"{id}: does not build\n{r.stdout[-2500:]}"); return
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/plant.json"))
        def passed(x):
            for k in ("passed", "stable"):
                if k in x: return set(x[k])
            raise Exception(list(x.keys()))
        lost = passed(base) - passed(got)
        r1 = sh(f"cd /repo && bash {d}/demo.sh")
        res = "not run"
        if not nocheck and not lost:
            t = time.time()
            rc = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh {meta['property']} quick")
            v = [l for l in rc.stdout.split("\n") if l.startswith("VIOLATION")]
            res = f"exit {rc.returncode} {v} {time.time()-t:.0f}s"
            if rc.returncode == 1:
                lines = rc.stdout.strip().split("\n")
                res += "\n      " + "\n      ".join(l[:160] for l in lines[-8:-1])
        print(f"{id} [{meta['property']}]: lost tests {sorted(lost)[:4]}; demo with bug: {r1.returncode}; check: {res}", flush=True)
        if r1.returncode in (2, 3): print(r1.stdout[-2000:])
    finally:
        clean()

args = [a for a in sys.argv[1:] if not a.startswith("--")]
for id in args:
    try:
        one(id, "--nocheck" in sys.argv)
    except AssertionError as e:
        print(id, "assertion", e)
sh("bash /opt/vp/build.sh")
