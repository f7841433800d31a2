#!/usr/bin/env python3
"""Plants bugs for development: plant.py SPEC.py [id...]

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
demo (Rust statements), needs, breaks. For each: writes seeded/<id>/, checks in
a scratch copy that the patched tree builds and passes the stable tests and
that the demo tells the trees apart, then runs the property's check on /repo
with the patch applied, and undoes it."""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, SCR = "/repo", "/tmp/plant/repo"
HELP = '''#![allow(dead_code, unused_imports, unused_macros)]
use cddl_cat::*;
pub fn word(r: &Result<(), ValidateError>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(ValidateError::Mismatch(_)) | Err(ValidateError::MapCut(_)) => "mismatch",
        Err(ValidateError::ParseError(_)) => "parse",
        Err(ValidateError::Structural(_)) => "structural",
        Err(ValidateError::MissingRule(_)) => "missing",
        Err(ValidateError::Unsupported(_)) => "unsupported",
        Err(ValidateError::ValueError(_)) => "value",
        Err(ValidateError::GenericError) => "generic",
        Err(_) => "other",
    }
}
#[cfg(not(feature = "nojson"))]
pub fn js(schema: &str, json: &str) -> &'static str { word(&validate_json_str("x", schema, json)) }
#[cfg(not(feature = "nocbor"))]
pub fn cb(schema: &str, bytes: &[u8]) -> &'static str { word(&validate_cbor_bytes("x", schema, bytes)) }
fn main() {
%s
    println!("demo: ok");
}
'''
SH = '''#!/bin/bash
# Builds a small program against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/main.rs" "$tmp/src/main.rs" || exit 2
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[features]
nojson = []
nocbor = []
[dependencies]
cddl-cat = { path = "$repo"%s }
%s
[workspace]
EOF
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target"
cargo build --offline -q%s 2>"$tmp/log" || { cat "$tmp/log"; exit 2; }
timeout 60 "$tmp/target/debug/demo"
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def reset():
    sh("git", "-C", SCR, "checkout", "--", ".")
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    if not os.path.exists(SCR):
        os.makedirs("/tmp/plant", exist_ok=True)
        subprocess.check_call(["cp", "-a", REPO, SCR])
    sh("git", "-C", SCR, "fetch", "-q"); reset()
    assert sh("git", "-C", REPO, "status", "--porcelain").stdout == ""
    blame_new = set(sh("git", "-C", REPO, "log", "--format=%H", "7b3721d..HEAD").stdout.split())
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        d = f"{ROOT}/seeded/{b['id']}"
        reset(); bad = None
        for f, old, new in b["edits"]:
            p = f"{SCR}/{f}"; t = open(p).read()
            n = b.get("nth", {}).get(old, None)
            if t.count(old) != 1 and n is None:
                bad = f"'{old[:40]}' occurs {t.count(old)} times"; break
            if n is None: t = t.replace(old, new)
            else:
                parts = t.split(old); t = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
            open(p, "w").write(t)
        if bad: print(b["id"], "EDIT", bad); continue
        patch = sh("git", "-C", SCR, "diff").stdout
        # which lines does it change?
        own = 0; orig = 0
        for f in {e[0] for e in b["edits"]}:
            bl = sh("git", "-C", REPO, "blame", "-l", "-s", f).stdout.split("\n")
            for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh("git", "-C", SCR, "diff", "-U0", f).stdout, re.M):
                s, c = int(h.group(1)), int(h.group(2) or 1)
                for i in range(s, s + c):
                    if bl[i-1].lstrip("^")[:39] in {x[:39] for x in blame_new}: own += 1
                    else: orig += 1
        env = dict(os.environ)
        t = sh("bash", "-c", f"cd {SCR} && cargo test --offline --all-features 2>&1 | grep -E '^test result|FAILED|^error|panicked|failed' ")
        fails = [l for l in t.stdout.split("\n") if "FAILED" in l or l.startswith("error")]
        if fails: print(b["id"], "TESTS", fails[:4]); continue
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        feats = b.get("features")
        fs = "" if feats is None else ", default-features = false, features = [" + ", ".join(f'"{x}"' for x in feats) + "]"
        bf = "" if feats is None else (" --features " + ("nocbor" if "ciborium" not in feats else "nojson"))
        open(d + "/demo.sh", "w").write(SH % (fs, b.get("deps", ""), bf))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(HELP % b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash", d + "/demo.sh", cwd=REPO); r1 = sh("bash", d + "/demo.sh", cwd=SCR)
        if r0.returncode != 0 or r1.returncode in (0, 2):
            print(b["id"], "DEMO clean", r0.returncode, r0.stdout[-300:], r0.stderr[-300:], "patched", r1.returncode, r1.stdout[-300:]); 
            shutil.rmtree(d); continue
        if os.environ.get("NOCHECK"): print(b["id"], b["property"], f"orig={orig} own={own}"); continue
        try:
            a = sh("git", "-C", REPO, "apply", d + "/patch.diff"); assert a.returncode == 0, a.stderr
            res = []
            for pid in [b["property"]] + os.environ.get("ALSO", "").split():
                r = sh("bash", ROOT + "/run.sh", "check", pid, "quick", env={**os.environ, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
                v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
                res.append(f"{pid}:{'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode}")
                if r.returncode not in (0, 1): res.append(r.stdout[-300:] + r.stderr[-500:])
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")
        print(b["id"], *res, f"orig={orig} own={own}", flush=True)
    reset()
main()
