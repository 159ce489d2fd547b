#!/usr/bin/env python3
"""Make and confirm planted bugs from a definitions file (python: a list SEEDS of dicts).

  mkseed.py DEFS [id ...]      confirm in a scratch copy and write /verif/seeded/<id>/
  mkseed.py --run [id ...]     apply each kept one to /repo, run its property's quick check, undo

No check reads what this writes."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "321f63f"
SEEDED = os.environ.get("SEEDED_DIR", os.path.join(VERIF, "seeded"))  # elsewhere: changes to any line, for our own use
DEMO = '''#!/bin/bash
# Exit 0 when the property holds for this input, nonzero otherwise. Run with cwd = the repository.
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rusty-source-map = { path = "$repo" }
source-map-mappings = "0.5.0"
serde_json = "1.0"
[workspace]
[profile.dev]
debug = false
T
cd "$work" || exit 3
CARGO_TARGET_DIR="$work/target" timeout 250 cargo build --offline --quiet 2>"$work/err" || { cat "$work/err"; exit 3; }
timeout 20 "$work/target/debug/demo"
'''
PRE = '''#![allow(unused_imports, dead_code)]
use rusty_source_map::{array_set::ArraySet, binary_search, base64_vlq::base64vlq_encode, mapping::Mapping,
    mapping_list::MappingList, generator::SourceMapGenerator, consumer::*, source_map::*, util};
use source_map_mappings::Bias;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn pos(line: i32, column: i32) -> Position { Position { line, column } }
/// generated line and column, source, original line and column, name
fn mp(gl: i32, gc: i32, s: &str, ol: i32, oc: i32, n: &str) -> Mapping {
    let some = |x: &str| if x.is_empty() { None } else { Some(x.to_string()) };
    Mapping { generated: pos(gl, gc), original: if s.is_empty() { None } else { Some(pos(ol, oc)) },
        source: some(s), name: some(n), last_generated_column: None }
}
fn gen() -> SourceMapGenerator { SourceMapGenerator::new(None, None, false) }
fn panics<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    let _ = std::panic::take_hook();
    r
}
fn show(m: &Option<Mapping>) -> String { format!("{:?}", m) }
'''


def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", timeout=timeout)


def original_only(copy, patch_lines_by_file):
    for f, lines in patch_lines_by_file.items():
        b = sh(["git", "blame", "-s", f, "HEAD"], copy).stdout.splitlines()
        if not lines:
            return "%s: no original line changed" % f
        for n in lines:
            if not b[n - 1].lstrip("^").startswith(BASE[:7]):
                return "%s:%d is not an original line: %s" % (f, n, b[n - 1])
    return None


def confirm(s, work):
    copy = os.path.join(work, "repo")
    if not os.path.exists(copy):
        sh(["cp", "-a", REPO, copy])
    sh(["git", "checkout", "-q", "--", "."], copy)
    edits = s["edits"]
    for f, old, new in edits:
        p = os.path.join(copy, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "edit matches %d times in %s: %r" % (t.count(old), f, old[:60])
        open(p, "w").write(t.replace(old, new))
    diff = sh(["git", "diff", "-U3"], copy).stdout
    d0 = sh(["git", "diff", "-U0"], copy).stdout
    rm, cur, n = {}, None, 0
    for l in d0.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]; rm[cur] = []
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].strip():
                rm[cur].append(n)
            n += 1
    e = original_only(copy, rm) if "SEEDED_DIR" not in os.environ else None
    if e:
        return e
    env = dict(os.environ)
    # the suite, in the copy, as /opt/vp/test.sh runs it
    r = subprocess.run("sed 's#cd /repo#cd %s#' /opt/vp/env.sh > %s/env.sh; . %s/env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1" % (copy, work, work),
                       shell=True, executable="/bin/bash", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=600)
    if r.returncode != 0 or "FAILED" in r.stdout:
        return "suite fails or does not build: " + "\n".join(x for x in r.stdout.splitlines() if "error" in x or "FAILED" in x or "panicked" in x or "-->" in x)[:1500]
    d = os.path.join(work, "demo")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    open(os.path.join(d, "main.rs"), "w").write(PRE + "\nfn main() {\n" + s["demo"].strip("\n") + "\n}\n")
    bad = sh(["bash", os.path.join(d, "demo.sh")], copy)
    good = sh(["bash", os.path.join(d, "demo.sh")], REPO) if not s.get("_nogood") else None
    if good.returncode != 0:
        return "demo fails on the unchanged tree: rc %d %s" % (good.returncode, good.stdout[-1500:])
    if bad.returncode == 0:
        return "demo passes with the change"
    if bad.returncode == 3:
        return "demo does not build with the change: " + bad.stdout[-1500:]
    out = os.path.join(SEEDED, s["id"])
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]),
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    return None


def make(defs, only):
    ns = {}
    exec(open(defs).read(), ns)
    work = tempfile.mkdtemp(prefix="seed-")
    try:
        for s in ns["SEEDS"]:
            if only and s["id"] not in only:
                continue
            print(s["id"], confirm(s, work) or "kept", flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(only, tier="quick"):
    for i in sorted(os.listdir(SEEDED)):
        if only and i not in only:
            continue
        d = os.path.join(SEEDED, i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        props = [meta["property"]]
        if not os.path.exists(os.path.join(d, "patch.diff")):
            continue
        if sh(["git", "apply", os.path.join(d, "patch.diff")], REPO).returncode:
            print(i, "does not apply"); continue
        try:
            for p in props:
                r = sh(["python3", os.path.join(VERIF, "bin", "check"), p, tier], VERIF)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                print(i, p, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", flush=True)
                if r.returncode not in (0, 1):
                    print(r.stdout[-1500:])
        finally:
            sh(["git", "checkout", "--", "."], REPO)


if __name__ == "__main__":
    if sys.argv[1] == "--run":
        run(sys.argv[2:])
    else:
        make(sys.argv[1], sys.argv[2:])
