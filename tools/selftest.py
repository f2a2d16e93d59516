#!/usr/bin/env python3
"""Does the specification notice when a recorded answer is changed?

tools/selftest.py [mode ...]   Records sessions of every mode on the current
tree, changes one field of one record in each of many sessions, and counts, per
event and field, how many changes TLC rejects.  A development aid: fields that
are never rejected are either informative only or not judged at all.
"""
import collections, json, os, random, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from plan import PLAN
EXE = {"driver": ROOT + "/target/driver/debug/vdriver", "bevy_driver": ROOT + "/target/bevy_driver/debug/vbevy", "space_driver": ROOT + "/target/space_driver/debug/vspace"}
# inputs as they were given, and bookkeeping: changing them changes the question, not the answer
BIG = int(os.environ.get("BIG", "1"))  # least change of a number
INPUT = {"begin", "focus", "body", "shape", "move", "new", "map", "rect", "set", "remove", "save", "load", "copy", "box", "push", "angle", "quat", "solid"}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            if k not in ("e", "i", "j", "r", "f", "id", "q", "how", "x", "y", "inv", "R", "t", "sw", "slack", "still", "ev") or k in ("x", "y", "q") and not isinstance(x[k], str):
                yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for k in range(len(x)):
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, (bool, int)):
        yield path


def change(rec, path, rng):
    rec = json.loads(json.dumps(rec))
    y = rec
    for k in path[:-1]:
        y = y[k]
    v = y[path[-1]]
    y[path[-1]] = (not v) if isinstance(v, bool) else v + rng.choice([1, -1]) * max(BIG, abs(v) // 6, 900 if abs(v) > 300 else 0)
    return rec


def run(mode, st, pid, rng):
    work = tempfile.mkdtemp(prefix="selftest-")
    f = work + "/r.ndjson"
    cmd = [EXE[st.get("crate", "driver")], mode, f, "--seed", "77", "--n", "3000"]
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, env=dict(os.environ, VDRIVER_SCRATCH=work))
    recs = [json.loads(x) for x in open(f)]
    begins = [i for i, r in enumerate(recs) if r["e"] == "begin"] + [len(recs)]
    changed = {}
    for a, b in zip(begins, begins[1:]):
        at = [i for i in range(a, b) if recs[i]["e"] not in INPUT]
        if not at:
            continue
        i = rng.choice(at)
        ls = list(leaves(recs[i]))
        if not ls:
            continue
        p = rng.choice(ls)
        old = recs[i]
        recs[i] = change(old, p, rng)
        changed[a] = (i, old["e"], p[0])
    with open(f, "w") as fh:
        for r in recs:
            fh.write(json.dumps(r) + "\n")
    o = subprocess.run(["tlc", "-noGenerateSpecTE", "-workers", "8", "-metadir", work + "/md", "-config", st["spec"] + ".cfg", st["spec"] + ".tla"],
                       cwd=ROOT + "/spec", env=dict(os.environ, TRACE=f, PROP=pid), capture_output=True, text=True).stdout
    import bisect, re, shutil
    hit = set()
    for m in re.finditer(r'<<"REJECT", (\d+),', o):
        hit.add(begins[bisect.bisect_right(begins, int(m[1]) - 1) - 1])
    done = "No error has been found" in o
    n, k = collections.Counter(), collections.Counter()
    for a, (i, e, fld) in changed.items():
        n[(e, fld)] += 1
        k[(e, fld)] += a in hit
    shutil.rmtree(work)
    print(f"{mode} ({pid}, {st['spec']}){'' if done else '  -- TLC STOPPED: ' + ' '.join(re.findall(r'^Error: .*|^Attempted.*|^The .*', o, re.M))[:600]}")
    for key in sorted(n):
        print(f"    {key[0]:12} {key[1]:10} {k[key]:5} of {n[key]:5}")
    print(f"    {'':12} {'all':10} {sum(k.values()):5} of {sum(n.values()):5}", flush=True)


if __name__ == "__main__":
    rng = random.Random(1)
    for pid, p in PLAN.items():
        for st in p["stages"]:
            if st["kind"] == "trace" and "feed" not in st and (not sys.argv[1:] or st["mode"] in sys.argv[1:]):
                run(st["mode"], st, pid, rng)
