"""python3 -m vt.check <property id>: decides one property for /repo's current tree."""
import os, sys, time
from . import report
from .terms import mk, num, addc, sub, add, ge0, eq0, scale, cval, is_int, walk, imprecise
from .interp import Engine, State

CHECKS = {}
LIMIT = 560          # seconds for the abstract interpretation


def check(*ids):
    def deco(fn):
        for i in ids:
            CHECKS[i] = lambda rep, fn=fn, i=i: fn(rep, i)
        return fn
    return deco


def program():
    from .prog import Program
    return Program()


def entry(P, name):
    """The instance of a public entry point; None when the API has no such function."""
    t, m = name.split("::")
    r = P.method(t, m)
    return r[0] if r else None


def run(rep, P, name):
    """Abstract interpretation of one entry point for every argument."""
    from . import axioms
    i = entry(P, name)
    if i is None:
        rep.undecide("entry point %s not found" % name)
        return None, []
    e = Engine(P)
    e.deadline = time.time() + LIMIT
    axioms.install(e)
    b = P.body(i)
    st = State()
    args = [e.fresh(mk("arg", k), b.locals[k + 1]) for k in range(b.argc)]
    outs = e.call_body(i, args, st, ())
    rep.count("functions", len(e.fns))
    rep.count("basic blocks interpreted", e.blocks_run)
    rep.count("loops solved", len(e.loops))
    rep.count("paths returned", len(outs))
    for k, n in e.havocs.items():
        rep.undecide("%s: unknown value: %s" % (name, k or "?"), n)
    for k, n in e.unmodelled.items():
        rep.undecide("%s: call without a model: %s" % (name, k), n)
    rep.sample({"entry": name, "functions": sorted(x.split("protofish::")[-1] for x in e.fns)[:60]})
    return e, outs


def path_text(fn, site, what, conds):
    return "%s at %s\n%s\npath conditions:\n%s" % (fn, site, what, "\n".join("  " + str(c)[:400] for c in conds))


# ------------------------------------------------------------------ panics

def panics(rep, P, entries):
    for name in entries:
        e, outs = run(rep, P, name)
        if e is not None:
            report.panics(rep, e, name)


@check("C01")
def c01(rep, pid):
    rep.explanation = ("Abstract interpretation of the optimised-free MIR of Context::decode for a symbolic context, message reference and byte slice. "
                       "Every panic site reached (bounds, overflow, slicing, unwrap/expect, explicit panic, debug assertion, callee precondition) is an obligation that must be discharged on every path.")
    rep.assumptions = ["references inside a context resolve (C15)", "the MessageRef passed in belongs to the context (documented)", "models of std/bytes functions", "allocation succeeds"]
    panics(rep, program(), ["Context::decode"])


@check("C02")
def c02(rep, pid):
    rep.explanation = ("Abstract interpretation of the MIR of MessageValue::encode for a symbolic message value and context. "
                       "Every panic site reached is an obligation that must be discharged on every path.")
    rep.assumptions = ["models of std/bytes functions", "allocation succeeds", "a hand-built value is not nested deeper than the stack allows"]
    panics(rep, program(), ["MessageValue::encode"])


# ------------------------------------------------------------------ termination

def invariant_bound(L, b, p):
    """Do the facts of one iteration bound p from above by something the loop does not change?"""
    from .decspec import phis_in
    atom = p.args[1][0][0] if is_int(p) else p
    for g in b.facts.ges:
        c = dict(g.args[1]).get(atom)
        if c is not None and c < 0 and all(a is atom or not phis_in(mk("tmp", (a,)), L) for a, _ in g.args[1]):
            return True
    lo, hi = L.head.facts.rng(p)
    return False


def ranking(e, L):
    """(True, measure), (False, back) when an iteration changes nothing, or (None, None)."""
    from .decspec import head_subst
    from .terms import I
    slots = [(a, s) for a, s in L.phis.items() if s.kind == "int"]
    for a, s in slots:
        p = I(a)
        up = down = True
        for k, b in enumerate(L.backs):
            n = b.facts.norm(head_subst(e, L, p, k))
            q = b.facts.norm(p)
            if up and not (b.facts.test(ge0(addc(sub(n, q), -1))) is True and invariant_bound(L, b, p)):
                up = False
            if down and not (b.facts.test(ge0(addc(sub(q, n), -1))) is True and b.facts.test(ge0(q)) is True):
                down = False
            if not up and not down:
                break
        if up or down:
            return True, str(a)
    for k, b in enumerate(L.backs):
        if b.facts.imp:
            continue
        same = all(b.facts.eq(b.facts.norm(head_subst(e, L, I(a), k)), b.facts.norm(I(a))) for a, s in slots)
        if same and slots and all(s.kind in ("int", "seq") for s in L.slots):
            return False, b
    return None, None


@check("C04")
def c04(rep, pid):
    rep.explanation = ("For every loop the abstract interpreter meets while decoding, a ranking term is required: an integer state component that on every path through the body "
                       "moves strictly towards a bound the loop does not change (cursor up to the input length, or remaining length down to zero). Loops over iterators of finite models and fully unrolled loops are finite by construction.")
    rep.assumptions = ["models of std/bytes functions terminate"]
    P = program()
    e, outs = run(rep, P, "Context::decode")
    if e is None:
        return
    rep.count("recursive calls", len(e.recs))
    for L in e.loops + e.first_loops:
        if L.unrolled is not None:
            rep.prove("loop with a constant number of iterations")
            continue
        if not L.backs:
            rep.prove("loop body never repeats")
            continue
        ok, w = ranking(e, L)
        key = "%s: loop without a decreasing measure" % L.fn
        if ok:
            rep.prove("loop with a ranking term")
            rep.sample({"loop": L.fn, "site": L.site, "paths through the body": len(L.backs), "measure": w[:120]})
        elif ok is False and not L.imprecise:
            rep.violation(key, path_text(L.fn, L.site, "an iteration can end without consuming input or changing any counter", w.facts.conds()[-16:]))
        else:
            rep.undecide(key)


# ------------------------------------------------------------------ recursion

MAX_LEVELS = 2000


def measures(a, path=()):
    """The integers inside an argument."""
    if is_int(a):
        yield path, a
    elif a.tag == "agg":
        for i, x in enumerate(a.args[-1] if isinstance(a.args[-1], tuple) else ()):
            if hasattr(x, "tag"):
                yield from measures(x, path + (i,))


@check("C05")
def c05(rep, pid):
    rep.explanation = ("Every recursive call found while interpreting decoding must pass an integer argument that moves by at least one towards a constant limit on every path that reaches the call, "
                       "so the number of nested frames is at most that constant (required to be at most %d)." % MAX_LEVELS)
    P = program()
    e, outs = run(rep, P, "Context::decode")
    if e is None:
        return
    rep.count("recursive calls", len(e.recs))
    if not e.recs:
        rep.prove("no recursive call is reachable")
    for r in e.recs:
        fn = P.insts[r.inst]["name"]
        ok = None
        if r.outer:
            f = r.st.facts
            for k, (a, o) in enumerate(zip(r.args, r.outer)):
                om = dict(measures(o))
                for path, x in measures(a):
                    y = om.get(path)
                    if y is None:
                        continue
                    x, y = f.norm(x), f.norm(y)
                    up = f.test(ge0(addc(sub(x, y), -1))) is True
                    down = f.test(ge0(addc(sub(y, x), -1))) is True
                    lo, hi = f.rng(x)
                    if up and hi <= MAX_LEVELS:
                        ok = "argument %d rises by at least one and is at most %s" % (k, hi)
                    elif down and lo >= 0 and entry_bound(e, r, k):
                        ok = "argument %d falls by at least one and stays at or above %s" % (k, lo)
        if ok:
            rep.prove("recursive call of %s: %s" % (fn.split("::")[-1], ok))
            rep.sample({"recursive call": fn, "measure": ok})
        elif r.st.facts.imp:
            rep.undecide("%s: recursion measure" % fn)
        else:
            rep.violation("%s: recursive call without a bounded depth argument" % fn,
                          path_text(fn, r.site, "no argument of this recursive call is bounded by a constant (at most %d) and moves towards it" % MAX_LEVELS, r.st.facts.conds()[-12:]))


def entry_bound(e, r, k):
    """The value the first call passes is a constant within the limit."""
    for x in e.first_args.get(r.inst, ()):
        c = cval(x[k]) if is_int(x[k]) else None
        if c is None or c > MAX_LEVELS:
            return False
    return bool(e.first_args.get(r.inst))


# ------------------------------------------------------------------ wire format

WIRE_RULE = ("The reading loop is recognised by its effect (it appends field values to the message returned). Every path through one iteration is compared, under its own path condition, "
             "with the record the protobuf wire format prescribes there (tag varint, number, wire type, declared type, payload bytes, next position); the writing loops of encode are compared value by value in the same way. "
             "Terms are equal by normal form; a difference is reported only when both sides are exact and some valuation of the input bytes tells them apart.")


def wire(rep, pid, dec=True, enc=True):
    from . import decspec, encspec
    P = program()
    rep.explanation = WIRE_RULE
    rep.assumptions = ["references inside a context resolve (C15)", "models of std/bytes functions and the varint recogniser (LEB128 loop shapes are matched semantically, 10 bytes at most)"]
    for on, name, fn in ((dec, "Context::decode", decspec.compare_records), (enc, "MessageValue::encode", encspec.compare_fields)):
        if not on:
            continue
        e, outs = run(rep, P, name)
        if e is None:
            continue
        res = decspec.Result()
        fn(e, res, outs)
        for (p, what), n in res.compared.items():
            if p == pid:
                rep.prove("%s: %s" % (name, what), n)
        for (p, what), n in res.undecided.items():
            if p == pid:
                rep.undecide("%s: %s" % (name, what), n)
        for f in res.findings:
            if pid in f.props:
                rep.violation("%s: %s" % (f.fn, f.what), path_text(f.fn, f.site, f.what, f.path))
        for s in res.samples:
            rep.sample(s)
        if not res.compared:
            rep.undecide("%s: nothing could be compared" % name)
        if pid == "C07":
            for m in e.merges:
                if m["ok"]:
                    rep.prove("%s: varint %s merges into one exact value" % (name, m["kind"]))
                elif m.get("ne"):
                    rep.violation("%s: varint writer writes wrong bytes" % m["fn"], path_text(m["fn"], m["site"], "varint writer: " + m["ne"], []))


@check("C06", "C07", "C08", "C09")
def c06(rep, pid):
    wire(rep, pid)


@check("C10")
def c10(rep, pid):
    wire(rep, pid, enc=False)


# ------------------------------------------------------------------ allocation

@check("C22")
def c22(rep, pid):
    rep.explanation = ("Every call that allocates a size chosen by the code (with_capacity, reserve, fills and resizes) met while decoding must have a size that is a constant or at most a small multiple of the bytes present; "
                       "copies take their size from a window that lies inside the input by construction.")
    P = program()
    e, outs = run(rep, P, "Context::decode")
    if e is None:
        return
    rep.count("allocation sites with an explicit size", len({(a[0], a[1]) for a in e.allocs}))
    rep.count("windows copied out of the input", len({x for s, v in outs for x in walk(v) if x.tag == "win"}))
    for fn, site, kind, n, st in e.allocs:
        f = st.facts
        lo, hi = f.rng(n)
        key = "%s: %s of unbounded size" % (fn, kind)
        if hi <= 1 << 16:
            rep.prove("constant bound")
            continue
        lens = {a for g in f.ges for a, _ in g.args[1] if a.tag == "slen"} | {a for a, _ in n.args[1] if a.tag == "slen"}
        from .terms import I
        if any(f.test(ge0(addc(sub(scale(I(a), 32), n), 1 << 16))) is True for a in lens):
            rep.prove("bounded by the bytes present")
        elif f.imp or imprecise(n):
            rep.undecide(key)
        else:
            rep.violation(key, path_text(fn, site, "size %s is not bounded by the input" % str(n)[:200], f.conds()[-14:]))


# ------------------------------------------------------------------ facts of the type checker, call graph

@check("C19")
def c19(rep, pid):
    from . import api
    rep.explanation = ("Query over the type checker's facts: the types reachable from Context's fields, the visibility of their fields, every public signature and every trait implementation. "
                       "No field that holds contents or an index is public, no public function or trait implementation hands out mutable access or makes a reference from other data, and nothing inside has interior mutability.")
    rep.assumptions = ["unsafe code is the subject of C21"]
    api.encapsulation(rep, program())


@check("C20")
def c20(rep, pid):
    from . import api
    rep.explanation = ("Effect analysis over the call graph of the monomorphised MIR from every public entry point: each call that leaves the crate is compared with the calls whose result depends on more than their arguments; "
                       "hash maps are never iterated where the order can reach a result; there is no mutable static or thread-local; every public type is Send and Sync (decided by the trait solver).")
    rep.assumptions = ["functions of std, bytes, pest and snafu outside the listed ones depend on their arguments alone"]
    api.effects(rep, program())


@check("C21")
def c21(rep, pid):
    from . import api
    rep.explanation = ("Every unsafe operation in the source (type-checked HIR: calls of unsafe functions, raw dereferences, mutable statics, unions, unsafe impls) is listed with its contract; "
                       "a transmute between numbers is sound by its types, every other operation has to be discharged on every path by the abstract interpretation.")
    rep.assumptions = ["the dependencies' safe APIs are sound"]
    P = program()
    api.unsafe_code(rep, P, lambda: [(n, e) for n in ("Context::decode", "MessageValue::encode") for e in (run(rep, P, n)[0],) if e is not None])


# ------------------------------------------------------------------ grammar automata

@check("C23")
def c23(rep, pid):
    from . import lexical, dump
    rep.explanation = ("The pest grammar the crate compiles is read and turned into finite automata (ordered choice, greedy repetition and look-ahead kept as obligations). For every keyword occurrence the automaton "
                       "of the whole grammar is searched for an accepted text in which a letter, digit or underscore follows directly; for every pair of alternatives of every choice the languages are compared: "
                       "the later one is not contained in the earlier one, the earlier one does not match a proper prefix that ends inside a token of a text the later one takes whole, and a keyword-led alternative "
                       "comes before an identifier-led one that shares texts with it.")
    rep.assumptions = ["pest implements its parsing expressions as documented", "recursive rules enter comparisons as symbols"]
    lexical.check(rep, dump.REPO)


# ------------------------------------------------------------------ modifications and lookups

def modify_check(rep, fns, text):
    from . import modify
    rep.explanation = text
    rep.assumptions = ["std's maps and vectors behave as documented (modelled)"]
    P = program()
    end = report.time.time() + LIMIT / 2
    for f in fns:
        getattr(modify, f)(rep, P, end)


@check("C11")
def c11(rep, pid):
    modify_check(rep, ["atomic"], (
        "Every public method taking &mut self is analysed from an arbitrary state of the value; on every path that returns Err the final memory behind &mut self is compared, place by place, "
        "with the state at entry."))


@check("C12")
def c12(rep, pid):
    modify_check(rep, ["indexes", "lookups"], (
        "Every public method taking &mut self is analysed from an arbitrary state; on every successful path each element pushed, each map entry written and each element changed is matched with what the "
        "other tables receive (reference = position, name and number entries, the parent's list, the full name). Every lookup is analysed from an arbitrary state: each path that returns an item returns "
        "the one stored under the key, each path that returns nothing has facts excluding one."))


@check("C13")
def c13(rep, pid):
    modify_check(rep, ["oneofs"], (
        "Inductive step: assuming fields and oneofs of a message agree at entry, every successful path of every public method that modifies a message changes `oneof` of a field and the list of a oneof "
        "together (loops over a list are matched element by element), only for fields that were in no oneof."))


@check("C14")
def c14(rep, pid):
    modify_check(rep, ["duplicates"], (
        "Every public method taking &mut self is analysed from an arbitrary state: on successful paths the facts exclude an existing item with the new item's name, number or full name; "
        "on refusing paths the facts show such an item exists and the error carries its reference and kind."))


# ------------------------------------------------------------------ parsing

def parse_check(rep, text, **k):
    from . import parse
    rep.explanation = text
    rep.assumptions = ["pest builds the token tree its grammar describes", "std's strings, vectors and iterators behave as documented (modelled)"]
    P = program()
    parse.run(rep, P, report.time.time() + LIMIT / 2, **k)
    return P


@check("C24")
def c24(rep, pid):
    from . import parse
    parse_check(rep, (
        "The functions that turn a token into a value (field numbers, integers, floats, strings, names, constants) are analysed from an arbitrary token of their rule, whose possible children and spellings are "
        "derived from the compiled grammar; on every path the value returned is compared with the one the language assigns: radix and digits, sign, bytes of every escape, parts and separators. Errors are "
        "only allowed where a part has no value."), topic=parse.literals)


def build_check(rep, P, topic):
    from . import build
    rep.assumptions = rep.assumptions + ["the cache the builders read is the one ContextBuilder fills: an entry's reference is in range, of the kind it states (C15)"]
    topic(rep, P, report.time.time() + LIMIT / 2)


# what of the filling and emptying of the tables each property depends on
NAMES = ("every item declared inside is entered under", "the full name is the path", "the row of an item has its full name", "the table of names leads", "every item is entered into the tables once")
ROWS = ("the row of an item has its position", "the row of an item has its kind", "the table of names leads", "a message can be found", "every item is entered into the tables once",
        "the position in the tree is restored", "the item taken is the one", "the items inside stay", "the item handed out is complete", "every item entered is built from its own builder",
        "every item of the context is listed under", "the reference of a package", "a package lists", "every package is entered", "every item declared inside is entered",
        "every package declared is listed")
REFS = ("the reference is the position", "the parent of", "an item inside a message is referred to", "every item declared inside the message is listed", "the reference of a oneof")


def begins(*ps):
    return lambda what: what.startswith(ps)


@check("C03")
def c03(rep, pid):
    from . import parse, nopanic, entering
    rep.explanation = (
        "Every place where the compiled code of the way from text to context would panic (index and slice bounds, unwrap and expect, overflow checks, unreachable and panic calls, assertions) is an obligation. The "
        "functions of the tree walk are analysed from an arbitrary token of their rule, whose possible children and spellings are derived from the compiled grammar; the functions that fill the tables, take items "
        "out and build the context, and the builders, from arbitrary contents for which the contracts decided in C15 hold. An obligation is discharged where its path condition excludes the failure, or "
        "contradicts a contract. A contract that does not hold is not relied on.")
    rep.assumptions = ["pest builds the token tree its grammar describes, and ends with an error before the stack does (its parser counts the nesting)", "std's collections, strings and iterators behave as documented (modelled)",
                       "allocation succeeds", "the builders at distinct positions are distinct, and each is taken once"]
    P = program()
    end = report.time.time() + LIMIT
    parse.run(rep, P, report.time.time() + LIMIT / 2, panics=True)
    entering.unpanicking(rep, P, end)
    nopanic.building(rep, P, end)


@check("C15")
def c15(rep, pid):
    from . import build, assemble
    rep.explanation = (
        "The whole way from the builders to the context is analysed from arbitrary contents. The functions that fill the tables of names must enter every item once, under its full name, with "
        "its kind, its position among the items of its kind and its position in the tree, and restore the position they were called with; the functions that take an item out must take the one at "
        "the position given; ContextBuilder::build must build every row in order from the builder at its position, so that index and reference agree, and list every item with the package it names. "
        "Each builder must use the position of its own row as its reference, the item registered for the enclosing position as its parent, the items registered for the positions inside as its children "
        "and, for a type name, the entry found under it with the kind of that entry; an entry of another kind must be an error. Loops are summarised, calls between these functions are replaced by "
        "their contracts, which are the obligations of the functions called.")
    rep.assumptions = ["std's collections, strings and iterators behave as documented (modelled)", "the builders at distinct positions are distinct, and each is taken once"]
    P = program()
    end = report.time.time() + LIMIT
    assemble.assembling(rep, P, end, begins(*ROWS))
    build.resolving(rep, P, end, lambda w: "kind" in w or "the answer is the entry" in w or "only refused" in w)
    build.declared(rep, P, end, begins(*REFS))


@check("C17")
def c17(rep, pid):
    from . import parse, build
    P = parse_check(rep, (
        "Parse half: the function that reads a type keyword is analysed for every spelling the compiled grammar admits and must return the scalar of that name; the label and the stream flags must be what the children of the "
        "token say. Build half: the loop that looks at the options of a field is summarised and the multiplicity returned is compared with the one the language prescribes on every path (label, syntax, type, last packed option)."),
        topic=parse.spellings)
    build_check(rep, P, build.multiplicity)


@check("C16")
def c16(rep, pid):
    from . import parse, build
    P = parse_check(rep, (
        "Parse half: every function of the tree walk is analysed from an arbitrary token of its rule (children and spellings derived from the compiled grammar): each part of the builder it returns must be the declared one, "
        "each list must hold one entry for each declaration in order, and only declarations that cannot be represented are refused. Build half: each builder is analysed from arbitrary contents and an arbitrary cache; "
        "each part of the item it returns must be the declared one, each list complete and in order, parent and own reference the ones passed in. The functions in between, which fill the "
        "tables, take items out of the tree and put the context together, must enter, take and list every item once and in order."),
        topic=parse.declarations)
    build_check(rep, P, build.declared)
    from . import assemble, entering
    assemble.assembling(rep, P, report.time.time() + LIMIT / 2)
    entering.entering(rep, P, report.time.time() + LIMIT / 4)


@check("C18")
def c18(rep, pid):
    from . import build
    rep.explanation = (
        "The functions that turn the type name of a field or an rpc into a reference are analysed from an arbitrary name, scope and cache. The loop that walks the scopes is summarised: it must start at the innermost scope, "
        "every step must follow a look-up of the name in the present scope that found nothing and go to the next scope outward, the root included, and the answer must be the entry found; a name with a leading dot must be "
        "looked up at the root alone; a reference is refused only where no scope has the name (or, for an rpc, the item is not a message).")
    rep.assumptions = ["std's strings, maps and iterators behave as documented (modelled)"]
    P = program()
    build_check(rep, P, build.resolving)
    from . import assemble
    assemble.assembling(rep, P, report.time.time() + LIMIT / 2, begins(*NAMES))


if __name__ == "__main__":
    sys.setrecursionlimit(100000)
    import threading
    threading.stack_size(1 << 29)
    rc = []
    rep = report.Report(sys.argv[1])

    def out_of_time():                  # an honest "cannot decide in the time given", never a hang
        rep.undecide("analysis did not finish in time")
        for _ in range(5):
            try:
                r = report.finish(rep, time.time() - LIMIT)
                break
            except RuntimeError:        # the analysis added to it meanwhile
                r = 0
        sys.stdout.flush()
        os._exit(r)
    w = threading.Timer(LIMIT + 90, out_of_time)
    w.daemon = True
    w.start()
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    t = threading.Thread(target=lambda: rc.append(report.main(CHECKS, sys.argv[1], rep)))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 2)
