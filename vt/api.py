"""Checks decided on the type checker's facts and the call graph: encapsulation (C19), effects (C20), unsafe code (C21)."""
import re
from .solve import callees


def facts(P, k):
    return [x for x in P.api if x["k"] == k]


# ------------------------------------------------------------------ C19: who can change a context

# Types whose values live inside a context; the indices in them must agree with each other.
def inside_context(P):
    adts = {x["path"]: x for x in facts(P, "adt")}
    root = next((p for p in adts if p.split("::")[-1] == "Context"), None)
    out, todo = [], [root]
    while todo:
        p = todo.pop()
        if p is None or p in out:
            continue
        out.append(p)
        for f in adts[p]["fields"]:
            for q in adts:
                if re.search(r"(?<![\w:])" + re.escape(q) + r"(?![\w:])", f["ty"]):
                    todo.append(q)
    return root, out, adts


def names_any(t, paths):
    return [q for q in paths if re.search(r"(?<![\w:])" + re.escape(q) + r"(?![\w:])", t)]


MUT_OUT = re.compile(r"&(?:'\w+ )?mut |\*mut |IterMut|ValuesMut|RefMut|MutexGuard|OccupiedEntry|VacantEntry|::Entry<|PeekMut|Drain<")
INTERIOR = re.compile(r"\b(?:Cell|RefCell|UnsafeCell|OnceCell|LazyCell|Mutex|RwLock|Atomic\w+|SyncUnsafeCell)\b")


def encapsulation(rep, P):
    root, inside, adts = inside_context(P)
    if root is None:
        rep.undecide("no type named Context")
        return
    rep.count("types inside a context", len(inside))
    refs = [p for p in inside if p.split("::")[-1].endswith("Ref") and len(adts[p]["fields"]) == 1 and not adts[p]["fields"][0]["v"] in ("Message", "Enum")]
    rep.count("reference types", len(refs))
    # 1. containers and indices are private
    for p in inside:
        for f in adts[p]["fields"]:
            where = "%s: field %s" % (p, f["n"])
            text = "%s (%s): field `%s: %s`" % (p, adts[p]["sp"], f["n"], f["ty"])
            if p == root:
                rule = "every field of the context is private"
                bad = f["pub"]
            elif p in refs:
                rule = "the index inside a reference is private"
                bad = f["pub"]
            elif re.search(r"\b(?:BTreeMap|HashMap|IndexMap)<", f["ty"]):
                rule = "lookup tables inside a context are private"
                bad = f["pub"]
            elif names_any(f["ty"], refs) and p.split("::")[-1] == "Package":
                rule = "the contents of a package are private"
                bad = f["pub"]
            else:
                continue
            if bad and adts[p]["pub"]:
                rep.violation(where + " is public", text + " is public: code outside the crate can change it")
            else:
                rep.prove(rule)
    # 2. no public function hands out mutable access to what is inside a context
    for x in facts(P, "fn"):
        if not x["pub"]:
            continue
        out = x["out"]
        derived = x["path"].startswith("<")
        m = MUT_OUT.search(out) or (re.search(r"impl .*mut ", out))
        if m and (names_any(out, inside) or re.search(r"Vec<|\[|BTreeMap|HashMap|String|str\b|usize|u64|i64|impl |Self|Target", out)) \
                and any("mut " in i or i.startswith("*") for i in x["in"]) and any(names_any(i, inside) for i in x["in"]):
            rep.violation("%s hands out mutable access" % x["path"], "%s: (%s) -> %s" % (x["sp"], ", ".join(x["in"]), out))
        else:
            rep.prove("public functions returning no mutable access", 1)
        # 3. references are made by the library only
        made = [r for r in names_any(out, refs) if not any(names_any(i, inside) for i in x["in"])]
        if made and not x["unsafe"]:
            rep.violation("%s makes a reference out of nothing" % x["path"], "%s: (%s) -> %s: a %s that belongs to no context" % (x["sp"], ", ".join(x["in"]), out, ", ".join(made)))
        # 4. mutators
        for i in x["in"]:
            if re.match(r"&(?:'\w+ )?mut ", i) and names_any(i, inside) and not derived:
                n = x["path"].split("::")[-1]
                owner = names_any(i, inside)[0]
                if n in MUTATORS.get(owner.split("::")[-1], ()):
                    rep.prove("mutators are the checked ones")
                elif m is None:
                    rep.undecide("%s: a mutator this check does not know" % x["path"])
    # 5. trait impls that give away or make contents
    for x in facts(P, "impl"):
        own = [q for q in inside if x["self"] == q]
        if not own or not x["trait"]:
            continue
        t = x["trait"].split("::")[-1]
        what = own[0]
        if t in ("DerefMut", "IndexMut", "AsMut", "BorrowMut", "Extend"):
            rep.violation("%s for %s" % (t, what), "%s: impl %s for %s gives mutable access past the checked operations" % (x["sp"], x["trait"], what))
        elif what in refs and (t in ("Default", "From", "FromStr", "Deserialize", "TryFrom", "Step") or t.startswith(("Add", "Sub"))):
            rep.violation("%s for %s" % (t, what), "%s: impl %s for %s makes references that belong to no context" % (x["sp"], x["trait"], what))
        else:
            rep.prove("trait implementations give no access")
    # 6. shared access is read-only
    for p in inside:
        for f in adts[p]["fields"]:
            if INTERIOR.search(f["ty"]) or re.search(r"\*mut ", f["ty"]):
                rep.violation("%s: field %s has interior mutability" % (p, f["n"]), "%s: `%s: %s` can change through a shared reference" % (adts[p]["sp"], f["n"], f["ty"]))
            else:
                rep.prove("fields inside a context without interior mutability")


MUTATORS = {
    "Context": ("insert_message", "insert_enum", "insert_package", "insert_type"),
    "MessageInfo": ("add_field", "add_oneof"),
    "EnumInfo": ("add_field",),
}

# ------------------------------------------------------------------ C20: effects

DENY = [
    (r"^(?:<)?std::env::", "environment"),
    (r"^(?:<)?std::(?:time|sys::time)::|Instant::now|SystemTime", "time"),
    (r"^(?:<)?std::(?:fs|net|process|os|io::Stdin|io::stdin)\b", "the operating system"),
    (r"^(?:<)?(?:rand|getrandom|fastrand)::", "randomness"),
    (r"RandomState as .*(?:BuildHasher|Default)|RandomState::new|BuildHasher::hash_one", "randomness (hash seed)"),
    (r"std::thread::(?:LocalKey|current|spawn|park|sleep|available)|std::thread::local", "thread state"),
    (r"std::path::Path::(?:exists|canonicalize|metadata|is_file|is_dir|read_dir|read_link|try_exists|symlink_metadata)", "the file system"),
    (r"(?:std|core)::sync::(?:atomic::Atomic\w+(?:::<.*>)?::|Mutex|RwLock|mpsc|Barrier|Condvar)|std::sync::(?:poison::)?(?:mutex|rwlock)", "shared mutable state"),
    (r"(?:std|core)::cell::(?:Cell|RefCell|UnsafeCell)\b", "interior mutability"),
    (r"fmt::Pointer|Argument.*new_pointer|::(?:addr|expose_provenance)$", "addresses"),
]
HASH_OK = re.compile(r"::(?:get|get_mut|insert|contains_key|contains|remove|entry|len|is_empty|new|with_capacity|default|index|eq|ne|clone|capacity|reserve|shrink_to_fit|get_key_value|remove_entry|try_insert|extend|from_iter|from|clear|or_insert|or_insert_with|or_default|and_modify|key|hasher|fmt|drop|is_subset|is_superset|is_disjoint|take|replace|into_mut|borrow)(?:::<.*>)?$")
HASH = re.compile(r"(?:collections::|hash_map::|hash_set::|hash::map::|hash::set::)(?:HashMap|HashSet|Iter|IntoIter|Keys|Values|Drain|IntoKeys|IntoValues|IterMut|ValuesMut)(?:::)?<|hash_map::|hash_set::")
INSENSITIVE = re.compile(r"::(?:all|any|count|sum|product|max|min|len|size_hint|is_empty)(?:::<.*>)?$|::collect::<(?:std::collections::)?(?:BTreeMap|BTreeSet|HashMap|HashSet)")
ADAPT = re.compile(r"::(?:map|filter|filter_map|cloned|copied|enumerate|zip|chain|into_iter|iter|keys|values|by_ref|inspect|flat_map|flatten|into_keys|into_values|values_mut|iter_mut|drain|retain)(?:::<.*>)?$")


def api_roots(P):
    pub = {x["path"]: x for x in facts(P, "fn") if x["pub"]}
    out = []
    for i, x in enumerate(P.insts):
        if x and x["local"]:
            p = x["def"].replace("protofish::", "")
            if p in pub and not re.search(r" as (?:std|core)::(?:fmt|error)::| as snafu::", p):
                out.append(i)
    return out


def effects(rep, P):
    roots = api_roots(P)
    rep.count("public entry points", len(roots))
    seen, todo, parent = set(), list(roots), {}
    edges = 0
    hashers = {}
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        if P.insts[i]["body"] is None:
            continue
        for j in callees(P, i):
            x = P.insts[j]
            edges += 1
            n = x["name"]
            parent.setdefault(j, i)
            if x["local"]:
                todo.append(j)
                continue
            for pat, what in DENY:
                if re.search(pat, x["def"]) or re.search(pat, n):
                    rep.violation("%s depends on %s" % (base(P, i), what), trail(P, parent, i) + "\ncalls " + n)
                    break
            else:
                rep.prove("calls with no effect besides their result")
            if HASH.search(n) and not (HASH_OK.search(n) and not re.search(r"hash_map::(?:Iter|Keys|Values|Into)|hash_set::(?:Iter|Into)", n)):
                hashers.setdefault(i, []).append(n)
    rep.count("functions reached", len([i for i in seen if P.insts[i]["local"]]))
    rep.count("call edges", edges)
    for i, ns in hashers.items():
        # which calls follow the iteration, in this function
        strong = [n for n in ns if not INSENSITIVE.search(n) and not ADAPT.search(n)]
        insens = [n for n in ns if INSENSITIVE.search(n)]
        ret = P.tstr(P.insts[i]["ret"]) + " " + P.tstr(P.body(i).locals[0])
        others = [P.insts[j]["name"] for j in callees(P, i)]
        key = "%s iterates over a hash map in hash order" % base(P, i)
        text = trail(P, {}, i) + "\n" + "\n".join("uses " + n[:200] for n in ns[:6])
        if re.search(r"hash_map::|hash_set::", ret) or (not strong and not insens and ("Iter" in ret or "Opaque" in ret)):
            rep.violation(key, text + "\nand returns the iterator")
        elif any(re.search(r"::collect::|::from_iter|::extend", n) for n in strong):
            rep.violation(key, text)
        elif any(re.search(r"::(?:find|find_map|position|last|nth|fold|try_fold|reduce|take|skip|step_by|max_by\w*|min_by\w*)(?:::<.*>)?$", n) for n in strong):
            rep.violation(key, text)
        elif any(re.search(r"as std::iter::Iterator>::next", n) for n in strong):
            if any(re.search(r"Vec::<.*>::(?:push|extend|insert)|String::push|BytesMut|BufMut", n) for n in others) or not insens:
                rep.violation(key, text)
        elif strong:
            rep.undecide(key)
    if not hashers:
        rep.prove("no hash map is iterated")
    # statics
    for x in facts(P, "static"):
        if x["mut"]:
            rep.violation("%s is a mutable static" % x["path"], "%s: static mut %s: %s" % (x["sp"], x["path"], x["ty"]))
        elif re.search(r"Mutex|RwLock|Atomic|Cell<|LocalKey", x["ty"]) and not re.search(r"^std::sync::(?:OnceLock|LazyLock)", x["ty"]):
            rep.violation("%s is mutable shared state" % x["path"], "%s: static %s: %s" % (x["sp"], x["path"], x["ty"]))
        elif re.search(r"Once|Lazy", x["ty"]):
            rep.undecide("%s is initialised at run time" % x["path"])
        else:
            rep.prove("constant statics")
    for x in facts(P, "const"):
        if re.search(r"LocalKey", x["ty"]):
            rep.violation("%s is thread-local state" % x["path"], "%s: %s: %s" % (x["sp"], x["path"], x["ty"]))
    # types
    for x in facts(P, "adt"):
        if not x["pub"]:
            continue
        for tr in ("send", "sync"):
            if x[tr]:
                rep.prove("public types are Send and Sync")
            else:
                rep.violation("%s is not %s" % (x["path"], tr.capitalize()), "%s: fields %s" % (x["sp"], "; ".join("%s: %s" % (f["n"], f["ty"]) for f in x["fields"])[:400]))
        for f in x["fields"]:
            if INTERIOR.search(f["ty"]):
                rep.violation("%s: field %s is shared mutable state" % (x["path"], f["n"]), "%s: %s" % (x["sp"], f["ty"]))


def base(P, i):
    return re.sub(r"::\{closure#\d+\}", "", P.insts[i]["def"].replace("protofish::", ""))


def trail(P, parent, i):
    out = ["%s at %s" % (P.insts[i]["name"][:200], P.insts[i]["sp"])]
    while i in parent and len(out) < 12:
        i = parent[i]
        out.append("  called from %s" % P.insts[i]["name"][:160])
    return "\n".join(out)


# ------------------------------------------------------------------ C21: unsafe code

NUMERIC = re.compile(r"^(?:[iu](?:8|16|32|64|128|size)|f32|f64|\[[iu](?:8|16|32|64|128|size); \d+\]|\[f(?:32|64); \d+\])$")
DERIVED = ("TrivialClone",)


def unsafe_ops(P):
    return [x for x in facts(P, "unsafeop") if x["sp"].startswith("src/")]


def unsafe_code(rep, P, runs):
    """runs() -> [(entry name, engine)]: interpreted only if some operation needs it."""
    ops = unsafe_ops(P)
    rep.count("unsafe blocks", len(facts(P, "unsafe")))
    rep.count("unsafe operations", len(ops))
    engines = None
    local = {x["path"] for x in facts(P, "fn")}
    for x in ops:
        key = "%s: %s %s" % (x["in"], x["op"], x["what"])
        text = "%s in %s\nunsafe operation: %s %s<%s>" % (x["sp"], x["in"], x["op"], x["what"], ", ".join(x["args"]))
        if x["op"] == "call" and x["what"] in local:
            continue                       # the operations inside it are looked at themselves
        if x["op"] == "call" and x["what"].endswith("::transmute") and len([a for a in x["args"] if NUMERIC.match(a)]) == 2:
            rep.prove("transmute between plain numbers of one size")
            rep.sample({"operation": text})
            continue
        if not re.search(r"(?:get_unchecked(?:_mut)?|unwrap_unchecked|unreachable_unchecked|split_at_(?:mut_)?unchecked)$", x["what"]):
            rep.violation(key, text + "\nnothing in the source establishes its contract for every input that reaches it")
            continue
        if engines is None:
            try:
                engines = runs()
            except Exception as ex:
                rep.undecide("%s: %s" % (key, ex))
                continue
        fn = re.sub(r"::\{closure#\d+\}", "", x["in"])
        good = bad = fuzzy = 0
        why = ""
        for name, e in engines:
            for (f, site, kind), n in e.checked.items():
                if kind == "unsafe" and same_fn(f, fn):
                    good += n
            for o in e.obligs:
                if o.kind == "unsafe" and same_fn(o.fn, fn):
                    good -= 1
                    if o.imprecise:
                        fuzzy += 1
                    else:
                        bad += 1
                        why = "\n".join("  " + str(c)[:300] for c in o.path()[-12:])
        if bad == 0 and fuzzy == 0 and good > 0:
            rep.prove("contract of the unsafe operation holds on every path", good)
        elif fuzzy and not bad:
            rep.undecide(key)
        else:
            rep.violation(key, text + "\nits contract does not hold for every input that reaches it\n" + why)
    for x in facts(P, "impl"):
        if x["unsafe"] and x["trait"] and x["trait"].split("::")[-1] not in DERIVED:
            rep.violation("unsafe impl %s for %s" % (x["trait"], x["self"]), "%s: nothing shows that the type meets the contract of the trait" % x["sp"])
    for x in facts(P, "adt"):
        if x["union"]:
            rep.undecide("%s is a union" % x["path"])
    rep.prove("safe code is checked by the compiler", len(facts(P, "fn")))


def same_fn(a, b):
    a = re.sub(r"::\{closure#\d+\}", "", a.replace("protofish::", ""))
    if a == b:
        return True
    # a generic implementation is named after its instances
    return a.split("::")[-1] == b.split("::")[-1] and (a.startswith("<") and b.startswith("<")) and re.sub(r"^<.* as ", "", a) == re.sub(r"^<.* as ", "", b)
