"""Analysis of the functions that turn source text into builders."""
from . import dump, grammar, pairs, parsespec, report
from .pairs import Parse, Shapes, entry, result_of, tyname


LITERALS = {("fieldNumber", "u64"), ("intLit", "u64"), ("intLit", "i64"), ("floatLit", "f64"), ("unsignedFloat", "f64"), ("strLit", "Bytes"),
            ("constant", "Constant"), ("optionName", "String"), ("fullIdent", "String")}


def literals(kind, what):
    return kind in LITERALS or what.endswith(("the number is the declared one", "the value is the declared one"))


def spellings(kind, what):
    return kind[0] == "type_" or what.endswith(("the label is the declared one", "a field of a oneof is singular", "stream is set by the keyword"))


def declarations(kind, what):
    return kind not in LITERALS


def run(rep, P, deadline, topic=None, panics=False):
    """Analyses every function of the tree walk, one for each rule it is called with."""
    g = grammar.find(dump.REPO)
    pa = Parse(P, Shapes(g), deadline)
    start = entry(P)
    if not start:
        rep.undecide("no function calls the parser")
    for i in start:
        pa.need(i, None)
    seen = set()
    while pa.todo:
        inst, rule = pa.todo.pop(0)
        t, wrapped = result_of(P, P.body(inst).locals[0])
        kind = (rule, tyname(P, t))
        R = pa.run(inst, rule)
        seen.add(kind)
        rep.count("functions of the tree walk", 1)
        rep.count("paths", len(R.outs))
        rep.count("loops", len(R.e.loops))
        rep.sample("%s on a pair of the rule %s: %d paths" % (R.name, rule, len(R.outs)) if rule else "%s: %d paths" % (R.name, len(R.outs)))
        if panics:
            report.panics(rep, R.e, R.name)
        else:
            judge(rep, R, kind, wrapped, topic)
    return seen


def judge(rep, R, kind, wrapped, topic):
    c = parsespec.Cmp(rep, R, kind, topic)
    for st, v in R.outs:
        if wrapped:
            var = R.e.variant_of(st, v)
            if var is None:
                if v.tag == "sym":
                    c.verdict(None, st, "the result", str(v)[:200])
                continue
            if var == 1:
                c.refusal(st, v, parsespec.ALLOWED.get(kind, ()))
                continue
            v = R.e.payload(st, v, 0)
        if R.rule is None:
            parsespec.file_spec(c, st, v)
        else:
            f = parsespec.MAKERS.get(kind)
            if f is None:
                c.verdict(None, st, "no specification for %s -> %s" % kind)
            else:
                f(c, st, v, R.node, "")
