#!/usr/bin/env python3
"""Development helper: plants bugs.  tools/seed.py SOURCES.py [id ...]

SOURCES.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new)],
demo (Rust main), features, needs, breaks.  Each is confirmed in the scratch
copy /tmp/sw/repo (builds, stable tests pass, demo passes without and fails
with the change, changed lines are upstream's) and then written to seeded/<id>.
tools/seed.py --hunt [id ...] applies each to /repo, runs its check, undoes it.
"""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = "/tmp/sw/repo"
DEMO = '''#!/bin/bash
# run in the repository; exit 0: the property holds on this demonstration
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/"
cat > "$W/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
auburn = { path = "$R", features = [%s] }
%s
END
cd "$W" && CARGO_TARGET_DIR="$W/target" cargo run --offline -q
'''

def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)

def tests():
    log = "/tmp/sw/test.log"
    r = sh(f"""export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=/tmp/sw/repo/target
find src tests examples -name '*.rs' -exec touch {{}} + 2>/dev/null
cargo test --workspace --no-run --offline >/dev/null 2>/tmp/sw/b.log || exit 3
cargo test --workspace --no-fail-fast --offline --features serde,tilemap,logging,bevy -- --test-threads 8 > {log} 2>&1
python3 /opt/vp/results.py /tmp/sw/o.json cargo:{log}""", cwd=SW)
    if r.returncode == 3: return "does not build: " + open("/tmp/sw/b.log").read()[-1500:]
    ok = set(json.load(open("/tmp/sw/o.json"))["passed"])
    miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
    return "" if not miss else f"{len(miss)} tests fail: {miss[:4]}"

def plant(s):
    d = os.path.join(ROOT, "seeded", s["id"])
    sh("git checkout -- . && git clean -fdq src", SW)
    base = set()
    for f, old, new in s["edits"]:
        t = open(f"{SW}/{f}").read()
        if t.count(old) != s.get("count", 1): return f"{f}: old text occurs {t.count(old)} times"
        open(f"{SW}/{f}", "w").write(t.replace(old, new))
    diff = sh("git diff", SW).stdout
    # removed lines must be upstream's
    for f in {e[0] for e in s["edits"]}:
        mine = sh(f"git diff -U0 -- {f}", SW).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", mine, re.M):
            a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
            if n:
                b = sh(f"git blame -s -L {a},{a+n-1} HEAD -- {f}", SW).stdout
                for ln in b.splitlines():
                    if not ln.startswith("^"): return "changes a line of a fix: " + ln
    bad = tests()
    if bad: return bad
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(s.get("demo_sh") or DEMO % (", ".join(f'"{x}"' for x in s.get("features", [])), s.get("deps", "")))
    for n, t in s.get("files", {}).items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
        open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r1 = sh(f"bash {d}/demo.sh", SW)
    sh("git checkout -- .", SW)
    r0 = sh(f"bash {d}/demo.sh", SW)
    if r0.returncode != 0 or r1.returncode == 0 or "error[" in r1.stderr or "could not compile" in r1.stderr:
        shutil.rmtree(d)
        return f"demo: unchanged {r0.returncode}, planted {r1.returncode}\n{r0.stderr[-1500:]}\n--\n{r1.stderr[-800:]}"
    return ""

def hunt(i, props=None):
    d = os.path.join(ROOT, "seeded", i)
    p = json.load(open(d + "/meta.json"))["property"]
    out = {}
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode: return {"apply": r.stderr}
    try:
        for q in props or [p]:
            r = sh(f"bin/check {q} --tier quick", ROOT)
            out[q] = "CAUGHT" if r.returncode == 1 and f"VIOLATION property={q}" in r.stdout else f"missed ({r.returncode}) {r.stderr[-300:]}"
    finally:
        sh("git -C /repo checkout -- .")
    return out

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--hunt":
        for i in a[1:] or sorted(os.listdir(ROOT + "/seeded")): print(i, hunt(i), flush=True)
    else:
        ns = {}
        exec(open(a[0]).read(), ns)
        for s in ns["SEEDS"]:
            if a[1:] and s["id"] not in a[1:]: continue
            if not a[1:] and os.path.exists(os.path.join(ROOT, "seeded", s["id"])): continue
            print(s["id"], plant(s) or "planted", flush=True)
