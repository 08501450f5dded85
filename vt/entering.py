"""Analysis of the functions that read a list of texts: one package is read of every text, in order, and the context is built of all
of them; nothing else is refused."""
from .terms import mk, ge0, sub, addc, I, walk
from .interp import State
from .build import Fn, Verdicts, Lists, functions, guarded, made_of, deep_walk
from .modify import fld, vname, same
from .pairs import entry, result_of, tyname
from .report import panics


class Calls:
    """The functions that read one text and that build the context, replaced by a symbol for their result."""

    def __init__(self, P):
        self.P = P
        self.read = [i for i in entry(P) if tyname(P, result_of(P, P.body(i).locals[0])[0]) == "PackageBuilder"]
        self.build = functions(P, "ContextBuilder", "Context")
        self.called = set()

    def __call__(self, f, fr, inst, args, st, rt):
        if inst not in self.read and inst not in self.build:
            return None
        self.called.add(inst)
        e = f.e
        vals = tuple(e.content(st, a) if a.tag in ("ptr", "sptr") else a for a in args)
        return [(st, e.fresh(mk("made", inst, *vals), self.P.body(inst).locals[0]))]


def reading(P):
    """[(Fn, Calls)] of the functions that get texts and answer a context."""
    out = []
    for i, x in enumerate(P.insts):
        if not x or not x["local"] or P.body(i) is None or "{closure" in x["name"] or " as " in x["name"]:
            continue
        b = P.body(i)
        if b.argc == 1 and tyname(P, result_of(P, b.locals[0])[0]) == "Context" and i not in functions(P, "ContextBuilder", "Context"):
            if listed(P, b.locals[1]):
                out.append(i)
    return out


def listed(P, t):
    ty = P.types[t]
    while ty["k"] == "ref":
        ty = P.types[ty.get("to", ty.get("elem"))]
    return ty["s"] in ("std::vec::Vec<std::string::String>", "[std::string::String]", "[&str]", "std::vec::Vec<&str>")


def unpanicking(rep, P, deadline):
    """The functions above never panic, whatever the functions they call answer."""
    for i in reading(P):
        with guarded(rep, P, i):
            f = Fn(P, i, deadline, Calls(P))
            rep.count("functions that read texts", 1)
            rep.count("paths", len(f.outs))
            panics(rep, f.e, f.name)


def entering(rep, P, deadline, topic=None):
    fs = reading(P)
    if not fs:
        rep.undecide("no function reads a list of texts")
    for i in fs:
        with guarded(rep, P, i):
            calls = Calls(P)
            f = Fn(P, i, deadline, calls)
            rep.count("functions that read texts", 1)
            rep.count("paths", len(f.outs))
            V = Verdicts(rep, f, topic)
            files = f.e.content(State(), f.args[0]) if f.args[0].tag in ("ptr", "sptr") else f.args[0]
            for st, v in f.outs:
                outcome(V, calls, files, st, v)


def outcome(V, calls, files, st, v):
    e = V.e
    m = made_of(v)
    if m and m[0] in calls.build:
        packs = fld(e, st, m[1][0], "packages")
        return Lists(V).seq(st, packs, files, lambda b, x, src, pos: one(V, calls, b, x, src), "the packages are those of the texts, in order")
    name = vname(e, st, v) if v is not None else None
    if name == "Err":
        m = made_of(e.payload(st, v, 0))
        what = "texts are only refused where one of them is"
        if m is None:
            return V.ok(None, st, what, str(v)[:200])
        if m[0] in calls.build:
            return V.ok(True, st, what)
        return V.ok(read_of(V, st, m[1][0], files), st, what, "the text %s" % str(m[1][0])[:200])
    if name == "Ok":
        m = made_of(e.payload(st, v, 0))
        if m and m[0] in calls.build:
            packs = fld(e, st, m[1][0], "packages")
            return Lists(V).seq(st, packs, files, lambda b, x, src, pos: one(V, calls, b, x, src), "the packages are those of the texts, in order")
    V.ok(None, st, "the packages are those of the texts, in order", "result not recognised: %s" % str(v)[:200])


def one(V, calls, st, x, src):
    """Is x what is read of the text src?"""
    m = made_of(x)
    if m is None:
        return None, "not read by a known function: %s" % str(x)[:200]
    if m[0] not in calls.read:
        return None, "made by another function"
    ok = same_text(V, st, m[1][0], src)
    return ok, "read of %s and not of %s" % (str(m[1][0])[:200], str(src)[:200])


def same_text(V, st, a, b):
    a, b = (V.e.content(st, x) if x.tag in ("ptr", "sptr") else x for x in (a, b))
    return bool(same(V.e, st, a, b))


def read_of(V, st, a, files):
    """Is the text one of the list, as it is?"""
    e = V.e
    if files.tag != "seq" or len(files.args[0]) != 1 or files.args[0][0].tag != "win":
        return None
    base = files.args[0][0].args[0]
    for y in {y for y in deep_walk(e, a) if y.tag == "el" and y.args[0] is base}:
        if same_text(V, st, a, e.elem(base, y.args[1])):
            return True
    return None
