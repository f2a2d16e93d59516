#!/usr/bin/env python3
"""Mutation campaign (development aid).

tools/mutate.py list                 all mutants of the code under the properties
tools/mutate.py survive K N          stage 1: the K-th of N workers finds those that build and pass the stable tests
tools/mutate.py judge K N            stage 2: run the checks on them, until one rejects
State is in /tmp/mt (copies of /repo and of the drivers, target directories, results).
"""
import importlib.machinery, importlib.util, json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MT = "/tmp/mt"
SKIP = ("ellipse2d", "isotropic2d.rs", "minkowski_diff/v.rs" , "shape/minkowski_diff", "cylinder3d", "tests", "bevy_transform_")
# which checks watch which files, most likely first
WATCH = [
    ("col3d", ["D01", "D02", "D03"]), ("col/bevy_transform", ["D02"]), ("col/", ["D02", "T01"]),
    ("tilemap", ["M01", "M02", "M03", "M04", "M05", "M06"]), ("rect2", ["U01", "M06"]), ("publisher", ["U02", "M02"]), ("approx", ["U03"]),
    ("transformation2d/bevy", ["T04"]), ("transformation2d/", ["T01", "T02", "T03", "C01", "C05", "S01"]),
    ("poly2d", ["S01", "S02", "S03", "C01"]), ("local_minkowski", ["C01", "C02", "C03", "C05", "C06", "C07", "H01"]),
    ("collider2d", ["S01"]), ("", ["C01", "C02", "C03", "C04", "C05", "S01", "S02", "H01"]),
]
OPS = [
    (r" < ", " <= "), (r" < ", " > "), (r" <= ", " < "), (r" > ", " >= "), (r" > ", " < "), (r" >= ", " > "), (r" >= ", " < "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r"\.x\b(?!\()", ".y"), (r"\.y\b(?!\()", ".x"), (r"\.z\b(?!\()", ".x"), (r"\.x\(\)", ".y()"), (r"\.y\(\)", ".x()"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.abs\(\)", ""), (r"\.signum\(\)", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\b0\.0\b", "1e-3"), (r"\b0\.5\b", "0.6"), (r"\b1\.0\b", "1.1"), (r"\b20\b", "4"), (r"\b64\b", "4"), (r"\b0\.01\b", "0.2"), (r"\b16, 16\b", "16, 8"),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\bif !", "if "), (r"\bif (?=[a-z])(?!let)", "if !"), (r"([(=,] ?)-(?=[a-z])", r"\1"),
    (r"\bapply\(", "unapply("), (r"\bunapply\(", "apply("), (r"\bapply_normal\(", "unapply_normal("), (r"\bunapply_normal\(", "apply_normal("), (r"\bapply_normal\(", "apply("), (r"\bunapply_normal\(", "unapply("),
    (r"\bself\.(?=[a-z]+\b[^(])", "other."), (r"\bother\.", "self."), (r"\.inverse\(\)", ""), (r"\.rev\(\)", ""), (r"\.length\(\)", ".length_squared()"), (r"\.length_squared\(\)", ".length()"),
    (r"\bmin\b(?=[:,])", "max"), (r"\.min\b(?!\()", ".max"), (r"\.max\b(?!\()", ".min"), (r"\bsin\b", "cos"), (r"\bx\b(?!\()", "y"),
    (r"\bVec2::X\b", "Vec2::Y"), (r"\bVec3::X\b", "Vec3::Y"), (r"scaling_factor\(\) \* ", "apply_origin().x * 0.0 + "), (r"self\.\w+\.?\w*\.scaling_factor\(\)", "1.0"), (r"\w+\.scaling_factor\(\) \* ", ""), (r"\w+\.\w+\.scaling_factor\(\) \* ", ""),
    (r"\ba\b", "b"), (r"\bb\b", "a"), (r"\bc\b", "b"), (r"\biter\(\)\.all\(", "iter().any("), (r"\+ 1\b", "+ 0"), (r"\b1, 2\b", "0, 1"),
]


def code_lines(path):
    """(number, line) of the lines that are code and not test, trace or declaration"""
    out, skip = [], False
    for n, ln in enumerate(open(path).read().split("\n")):
        if "#[cfg(test)]" in ln:
            break
        s = ln.strip()
        if not s or s.startswith(("//", "#", "use ", "mod ", "pub mod", "pub use", "trace!", "info!", "warn!", "debug!", "error!", "impl", "pub trait", "where", "type ", "pub struct", "fn ", "pub fn", "pub const fn", "$", '"')) and "= " not in s:
            continue
        if s.startswith(("impl", "pub trait", "fn ", "pub fn", "pub const fn", "use ", "#")):
            continue
        if re.match(r"^[A-Z]\w*: ", s) and s.endswith(","):
            continue
        out.append((n, ln))
    return out


def mutants():
    res = []
    files = subprocess.run("git ls-files src", shell=True, cwd="/repo", capture_output=True, text=True).stdout.split()
    for f in files:
        if not f.endswith(".rs") or any(x in f for x in SKIP) and "local_minkowski" not in f:
            continue
        for n, ln in code_lines("/repo/" + f):
            seen = {ln}
            for pat, new in OPS:
                for m in re.finditer(pat, ln.split("//")[0]):
                    t = ln[: m.start()] + m.expand(new) + ln[m.end():]
                    if t not in seen:
                        seen.add(t)
                        res.append((f, n, t))
            s = ln.strip()
            if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", "const")) and re.match(r"[a-z]", s):
                res.append((f, n, re.match(r"\s*", ln)[0] + "{}"))
    return res


def put(repo, f, n, t):
    ls = open("/repo/" + f).read().split("\n") if not os.path.exists(MT + "/base") else open(MT + "/base/" + f).read().split("\n")
    old = ls[n]
    ls[n] = t
    open(f"{repo}/{f}", "w").write("\n".join(ls))
    return old


def restore(repo, f):
    shutil.copyfile(MT + "/base/" + f, f"{repo}/{f}")


def sh(c, cwd=None, timeout=600):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 124, "", "timeout")


def setup(k):
    repo = f"{MT}/w{k}/repo"
    if not os.path.exists(repo):
        os.makedirs(f"{MT}/w{k}", exist_ok=True)
        sh(f"cp -a /repo {repo} && rm -rf {repo}/target/doc")
    for c in ("driver", "bevy_driver", "space_driver", "bevy_shim"):
        d = f"{MT}/w{k}/{c}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(f"{ROOT}/{c}", d)
        if os.path.exists(d + "/Cargo.toml"):
            t = open(d + "/Cargo.toml").read().replace('"/repo"', f'"{repo}"')
            open(d + "/Cargo.toml", "w").write(t)
    if not os.path.exists(MT + "/base"):
        shutil.copytree("/repo/src", MT + "/base/src")
    return repo


def survive(k, n):
    repo = setup(k)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    done = f"{MT}/survive-{k}.jsonl"
    have = {(r["f"], r["n"], r["t"]) for r in map(json.loads, open(done))} if os.path.exists(done) else set()
    env = f"export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR={repo}/target;"
    for i, (f, ln, t) in enumerate(mutants()):
        if i % n != k or (f, ln, t) in have:
            continue
        old = put(repo, f, ln, t)
        three = "col3d" in f
        r = sh(env + ("cargo build --offline --features 3d,bevy" if three else "cargo test --offline --no-run --lib --features serde,tilemap,logging,bevy"), repo)
        if r.returncode:
            verdict = "broken"
        elif three:
            verdict = "alive"
        else:
            r = sh(env + "timeout 60 cargo test --offline --no-fail-fast --lib --features serde,tilemap,logging,bevy -- --test-threads 4", repo)
            bad = set(re.findall(r"^test (.*?) \.\.\. FAILED", r.stdout, re.M))
            verdict = "killed" if bad or r.returncode else "alive"
            if verdict == "alive":
                r = sh(env + "timeout 100 cargo test --offline --no-fail-fast --doc --features serde,tilemap,logging,bevy", repo)
                verdict = "killed" if r.returncode else "alive"
        restore(repo, f)
        with open(done, "a") as fh:
            fh.write(json.dumps(dict(f=f, n=ln, t=t, old=old, v=verdict)) + "\n")


def load_check():
    ld = importlib.machinery.SourceFileLoader("check", ROOT + "/bin/check")
    spec = importlib.util.spec_from_loader("check", ld)
    m = importlib.util.module_from_spec(spec)
    ld.exec_module(m)
    return m


def judge(k, n, share=0.25):
    repo = setup(k)
    ck = load_check()
    exes = {}

    def build(crate):
        if crate in exes:
            return exes[crate]
        r = sh(f"CARGO_PROFILE_DEV_OPT_LEVEL=0 CARGO_PROFILE_DEV_INCREMENTAL=true CARGO_TARGET_DIR={MT}/w{k}/target/{crate} cargo build --offline", f"{MT}/w{k}/{crate}")
        if r.returncode:
            raise ck.ToolError("build: " + r.stderr[-600:])
        name = {"driver": "vdriver", "bevy_driver": "vbevy", "space_driver": "vspace"}[crate]
        exes[crate] = f"{MT}/w{k}/target/{crate}/debug/{name}"
        return exes[crate]
    ck.build = build
    ck.ROOT = f"{MT}/w{k}/out"
    ck.log = lambda *a: None
    done = f"{MT}/judge-{k}.jsonl"
    have = {(r["f"], r["n"], r["t"]) for r in map(json.loads, open(done))} if os.path.exists(done) else set()
    alive = []
    import glob
    for g in sorted(glob.glob(MT + "/survive-*.jsonl")):
        alive += [r for r in map(json.loads, open(g)) if r["v"] == "alive"]
    # neither documentation nor the trivially equivalent
    alive = [r for r in alive if not re.match(r"^ ?[A-Z]\w+ .*[a-z:]$", r["t"]) and "const " not in r["t"][:12] or "f32 =" in r["t"]]
    import random
    random.Random(5).shuffle(alive)
    feeds = {}
    for i, r in enumerate(alive):
        if i % n != k or (r["f"], r["n"], r["t"]) in have:
            continue
        props = next(p for w, p in WATCH if w in r["f"])
        put(repo, r["f"], r["n"], r["t"])
        exes.clear()
        by = None
        for pid in props:
            run = ck.Run(pid, "quick", 1)
            for st in ck.PLAN[pid]["stages"]:
                if st["kind"] != "trace":
                    continue
                st = dict(st, n=(int(st["n"][0] * share), 0))
                try:
                    if st.get("feed"):
                        key = st["feed"]["cfg"] + (pid if st["feed"]["cfg"] == "MC_TilemapSim.cfg" else "")
                        run_feed = run.feed
                        if key in feeds:
                            run.feed = lambda f, p=feeds[key]: p
                        else:
                            p = run_feed(st["feed"])
                            keep = f"{MT}/w{k}/{key}.feed"
                            shutil.copyfile(p, keep)
                            feeds[key] = keep
                    run.trace(st)
                    if st.get("feed"):
                        run.feed = run_feed
                except ck.ToolError as e:
                    if not run.violations:
                        by = by or "ERROR " + pid + " " + str(e)[-500:]
                if run.violations:
                    by = pid
                    break
            shutil.rmtree(run.work, ignore_errors=True)
            if run.violations:
                break
        restore(repo, r["f"])
        with open(done, "a") as fh:
            fh.write(json.dumps(dict(r, by=by)) + "\n")


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "list":
        ms = mutants()
        for m in ms:
            print(*m)
        print(len(ms))
    elif a[0] == "survive":
        survive(int(a[1]), int(a[2]))
    elif a[0] == "judge":
        judge(int(a[1]), int(a[2]))
