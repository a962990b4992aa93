#!/usr/bin/env python3
"""Plants a bug: plant.py SPEC.py [--keep-failed]

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (Rust source of main.rs; may use
the modules refqr, render and rng). Works in a scratch worktree, confirms that the changed tree compiles, passes the stable
tests, and fails the demonstration that the unchanged tree passes, and then writes seeded/ID/.
"""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO = (ns[k] for k in ("ID", "PROPERTY", "NEEDS", "BREAKS", "EDITS", "DEMO"))
FEATURES = ns.get("FEATURES", [])
DEPS = "".join(f"{k} = {json.dumps(v)}\n" for k, v in ns.get("DEPS", {}).items())
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def die(msg, out=""):
    print(f"{ID}: {msg}\n{out[-3000:]}")
    sys.exit(1)

if not os.path.isdir(WT):
    subprocess.check_call(["cp", "-a", "/repo", WT])
subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
if sh(["git", "rev-parse", "HEAD"], WT).stdout != sh(["git", "rev-parse", "HEAD"], "/repo").stdout:
    subprocess.check_call(["git", "-C", WT, "pull", "-q", "/repo", "HEAD"])
for f, old, new in EDITS:
    p = f"{WT}/{f}"
    s = open(p).read()
    if s.count(old) != 1:
        die(f"{f}: {s.count(old)} places for {old!r}")
    open(p, "w").write(s.replace(old, new))
try:
    diff = subprocess.check_output(["git", "-C", WT, "diff"], text=True)
    # what is changed must be lines of the original repository
    for f in sorted({e[0] for e in EDITS}):
        base = set(subprocess.check_output(["git", "-C", "/repo", "show", f"c4d747c:{f}"], text=True).splitlines())
        part = subprocess.check_output(["git", "-C", WT, "diff", "--", f], text=True)
        for l in part.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:] not in base:
                print(f"{ID}: note: changes a line that is not original: {l}")
    r = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--quiet"], WT)
    passed = sum(int(m) for m in re.findall(r"(\d+) passed", r.stdout))
    if r.returncode != 0 or passed < 37:
        die(f"tests: {passed} passed", r.stdout)
    r = sh(["cargo", "check", "--workspace", "--features", "debug-images", "--offline", "--quiet"], WT)
    if r.returncode != 0:
        die("debug-images does not build", r.stdout)
    d = tempfile.mkdtemp(prefix="plant.")
    open(f"{d}/main.rs", "w").write(DEMO.strip() + "\n")
    for m in re.findall(r"^mod (\w+);", DEMO, re.M):
        shutil.copy(f"{ROOT}/harness/src/{m}.rs", f"{d}/{m}.rs")
    feats = "".join(f', features = {json.dumps(FEATURES)}' if FEATURES else "")
    open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
# Fails on the planted change, passes without it. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d "${{TMPDIR:-/tmp}}/demo.XXXXXXXX") || exit 3
trap 'find "$work" -depth -delete 2>/dev/null' EXIT
mkdir "$work/src" "$work/tmp"
cp "$here"/*.rs "$work/src/" || exit 3
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bardecoder = {{ path = "$repo"{feats} }}
image = "0.24"
anyhow = "1"
{DEPS}[profile.dev]
opt-level = 1
debug = false
incremental = false
TOML
unset RUSTFLAGS CARGO_TARGET_DIR
export RUST_BACKTRACE=0
cd "$work" && cargo build --offline --quiet --target-dir "${{DEMO_TARGET:-$work/target}}" 2> build.log || {{ tail -20 build.log >&2; exit 3; }}
TMPDIR=$work/tmp "${{DEMO_TARGET:-$work/target}}/debug/demo"
''')
    os.chmod(f"{d}/demo.sh", 0o755)
    env = dict(os.environ, DEMO_TARGET="/tmp/demo-target")
    a = sh(["bash", f"{d}/demo.sh"], "/repo", env=env)
    if a.returncode != 0:
        die(f"demonstration ends with {a.returncode} on the unchanged tree", a.stdout)
    b = sh(["bash", f"{d}/demo.sh"], WT, env=env)
    if b.returncode in (0, 3):
        die(f"demonstration ends with {b.returncode} on the changed tree", b.stdout)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": PROPERTY, "needs": NEEDS, "what_it_breaks": BREAKS}, open(f"{d}/meta.json", "w"), indent=1)
    out = f"{ROOT}/seeded/{ID}"
    if os.path.isdir(out):
        shutil.rmtree(out)
    shutil.copytree(d, out)
    os.chmod(out, 0o755)
    shutil.rmtree(d)
    print(f"{ID}: planted; demonstration says: {b.stdout.strip()[-300:]}")
finally:
    subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
