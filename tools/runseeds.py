"""usage: runseeds.py [-a] [ids]  -- runs the check of each planted bug's property (-a: every claimed check) on a scratch copy with the bug."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "-a"]
claimed = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]


def go(i):
    s = os.path.join(V, "seeded", i)
    meta = json.load(open(s + "/meta.json"))
    d = "/tmp/rs/" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/src", d + "/src")
    for f in ("Cargo.toml", "Cargo.lock", "README.md"):
        if os.path.exists("/repo/" + f):
            shutil.copy("/repo/" + f, d)
    r = subprocess.run(["git", "apply", s + "/patch.diff"], cwd=d, capture_output=True, text=True)
    if r.returncode:
        return i, "patch does not apply: " + r.stderr[:100]
    out = []
    for c in (claimed if "-a" in sys.argv else [meta["property"]]):
        r = subprocess.run(["python3", "-m", "vt.check", c], cwd=V, env=dict(os.environ, VT_REPO=d, VT_EVID="/tmp/rs/ev-" + i), capture_output=True, text=True)
        out.append("%s=%d" % (c, r.returncode) + ("" if r.returncode == 0 or "-a" in sys.argv else " " + next((l.strip() for l in r.stdout.splitlines() if l.startswith("  ") and "undecided" not in l), r.stdout[-300:])[:120]))
    shutil.rmtree(d, ignore_errors=True)
    return i, " ".join(out)


with cf.ThreadPoolExecutor(6) as ex:
    for i, o in ex.map(go, args or sorted(os.listdir(V + "/seeded"))):
        print("%-28s %s" % (i, o))
        sys.stdout.flush()
