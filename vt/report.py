"""Running one check: verdict line, evidence file, known findings."""
import json, os, sys, time, traceback
from .dump import BuildError
from .terms import walk

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VT_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = {}      # key -> text
        self.undecided = {}       # key -> count
        self.proved = {}          # obligation -> count
        self.samples = []
        self.analysed = {}        # what was looked at, counted
        self.explanation = ""
        self.assumptions = []

    def violation(self, key, text):
        self.violations.setdefault(key, text)

    def undecide(self, key, n=1):
        self.undecided[key] = self.undecided.get(key, 0) + n

    def prove(self, key, n=1):
        self.proved[key] = self.proved.get(key, 0) + n

    def sample(self, x):
        if len(self.samples) < 25:
            self.samples.append(x)

    def count(self, key, n):
        self.analysed[key] = self.analysed.get(key, 0) + n


def filled_by_loop(b):
    while b.tag in ("map", "base", "mbase"):
        b = b.args[0]
    return b.tag == "phi"


def definite(e, o):
    """The obligation can fail for certain: its path condition contains no unknown value and
    no loop value of an inexact loop summary."""
    if o.imprecise:
        return False
    cs = o.path()
    if cs and any(x.tag in ("el", "mval", "mapkey") and filled_by_loop(x.args[0]) for x in walk(cs[-1])):
        return False                   # what a loop put there is not part of what is known
    for L in e.loops:
        if L.imprecise and o.stack[:len(L.stack)] == L.stack:
            return False
    return True


def panics(rep, e, name):
    """Every place where the code would panic, on any path of the engine's run."""
    for (fn, site, kind), n in e.checked.items():
        if kind == "unsafe":           # C21
            continue
        bad = [o for o in e.obligs if (o.fn, o.site, o.kind) == (fn, site, kind)]
        rep.prove("%s: %s" % (name, kind), max(0, n - len(bad)))
    for o in e.obligs:
        if o.kind == "unsafe":
            continue
        key = "%s: %s (%s)" % (o.fn, o.kind, o.detail)
        if definite(e, o):
            rep.violation(key, "%s at %s\nreachable from %s: %s %s\npath condition (last 16):\n%s" % (
                o.fn, o.site, name, o.kind, o.detail, "\n".join("  " + str(c)[:240] for c in o.path()[-16:])))
        else:
            rep.undecide(key)


def known():
    """Lines 'known: property=<id> key=<key>'; 'fixed:' lines suppress nothing."""
    out = set()
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("known: "):
                p, k = l[7:].rstrip("\n").split(" key=", 1)
                out.add((p.split("=", 1)[1], k))
    return out


def finish(rep, t0, out=None):
    kn = known()
    os.makedirs(EVID, exist_ok=True)
    new = []
    for k, text in sorted(rep.violations.items()):
        if (rep.pid, k) in kn:
            print("KNOWN-FINDING: property=%s %s" % (rep.pid, k))
        else:
            new.append((k, text))
    obl = sum(rep.proved.values()) + sum(rep.undecided.values()) + len(rep.violations)
    cov = {
        "explanation": rep.explanation,
        "obligations": obl,
        "discharged": sum(rep.proved.values()),
        "undecided": sum(rep.undecided.values()),
        "undecided_list": ["%s (x%d)" % x for x in sorted(rep.undecided.items())[:40]],
        "rules": [{"rule": k, "instances": n} for k, n in sorted(rep.proved.items())][:200],
        "analysed": rep.analysed,
        "samples": rep.samples,
    }
    if new:
        cov["violations"] = [k for k, _ in new]
    ev = {
        "property": rep.pid,
        "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": cov,
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(EVID, rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %s" % (
        rep.pid, obl, cov["discharged"], cov["undecided"], len(new),
        ", ".join("%s=%s" % x for x in sorted(rep.analysed.items()))))
    for k, n in sorted(rep.undecided.items())[:10]:
        print("  undecided: %s (x%d)" % (k, n))
    replay = os.path.join(EVID, rep.pid + ".replay.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    if new:
        with open(replay, "w") as f:
            for k, text in new:
                f.write("== %s\n%s\n\n" % (k, text))
        for k, text in new[:8]:
            print("  %s" % k)
            for l in text.splitlines()[:12]:
                print("      %s" % l[:240])
        print("VIOLATION property=%s replay=%s" % (rep.pid, os.path.relpath(replay, VERIF)))
        return 1
    return 0


def main(checks, pid, rep=None):
    t0 = time.time()
    rep = rep or Report(pid)
    try:
        checks[pid](rep)
    except BuildError as ex:
        print("cannot analyse: %s" % ex)
        return 2
    except Exception as ex:
        rep.undecide("analysis incomplete: %s: %s" % (type(ex).__name__, str(ex)[:300]))
        if os.environ.get("VT_TRACE"):
            traceback.print_exc()
    return finish(rep, t0)
