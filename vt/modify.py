"""C11-C14 for the modification API and C12 for the lookups: the state behind `&mut self` after each
path is compared with the state before the call, place by place."""
from . import terms as tm
from .terms import T, mk, num, add, sub, addc, I, is_int, cval, ge0, eq0, ZERO, ONE, walk
from .interp import State, Fork
from .axioms import last


def forked(e, st, f, depth=0):
    """Runs f(state), splitting the state where it depends on an undecided condition."""
    try:
        return [(st, f(st))]
    except Fork as x:
        out = []
        if depth > 12:
            return []
        for c in (x.cond, tm.not_(x.cond)):
            fa = st.facts.assume(c)
            if fa is not None:
                s = st.fork()
                s.facts = fa
                out += forked(e, s, f, depth + 1)
        return out


def expand(e, st, v):
    if v.tag == "sym" and e.P.types[v.args[1]]["k"] in ("adt", "tuple"):
        try:
            w = e.expand(st, v)
        except Exception:
            return v
        return w
    return v


def fold(e, st, v):
    """A sequence with elements that were written out but are what they were folded back."""
    out = []
    for p in v.args[0]:
        if p.tag == "lit":
            for x in p.args[0]:
                w = None
                q = out[-1] if out else None
                if q is not None and q.tag == "win":
                    i = add(q.args[1], q.args[2])
                    if same(e, st, x, e.elem(q.args[0], i)):
                        w = mk("win", q.args[0], i, ONE)
                if w is None:
                    b = elem_base(x)
                    if b is not None and same(e, st, x, e.elem(*b)):
                        w = mk("win", b[0], b[1], ONE)
                out.append(w if w is not None else mk("lit", (x,)))
                out = list(e.mkseq(out).args[0])
        else:
            out.append(p)
            out = list(e.mkseq(out).args[0])
    return e.mkseq(out)


def elem_base(x, depth=0):
    """(sequence, index) an element value may have come from."""
    if depth > 4:
        return None
    if x.tag == "sym":
        n = x.args[0]
        while n.tag == "fld":
            n = n.args[0]
        return (n.args[0], n.args[1]) if n.tag == "el" else None
    if x.tag == "agg":
        for y in x.args[2]:
            r = elem_base(y, depth + 1)
            if r:
                return r
    if is_int(x):
        for t in walk(x):
            if t.tag == "el":
                return (t.args[0], t.args[1])
    if x.tag == "seq":
        for p in x.args[0]:
            if p.tag == "win" and p.args[0].tag == "base":
                for t in walk(p.args[0].args[0]):
                    if t.tag == "el":
                        return (t.args[0], t.args[1])
    return None


def same(e, st, a, b, depth=0):
    """Are the two values equal in every concrete state (structurally)?"""
    if a is b:
        return True
    if depth > 14:
        return False
    if is_int(a) and is_int(b):
        return st.facts.test(eq0(sub(a, b))) is True
    a, b = expand(e, st, a), expand(e, st, b)
    if a is b:
        return True
    if a.tag == "agg" and b.tag == "sym" or a.tag == "sym" and b.tag == "agg":
        g, s = (a, b) if a.tag == "agg" else (b, a)
        if e.kind(g.args[0]) == "adt" and e.P.adts[e.P.types[g.args[0]]["adt"]]["kind"] == "enum":
            if st.facts.test(eq0(sub(e.discr(st, s), e.discr(st, g)))) is not True:
                return False
            return same(e, st, g, e.expand(st, s, g.args[1]), depth + 1)
        return False
    if a.tag == "agg" and b.tag == "agg":
        if len(a.args[2]) != len(b.args[2]) or a.args[1] != b.args[1]:
            return False
        return all(same(e, st, x, y, depth + 1) for x, y in zip(a.args[2], b.args[2]))
    if a.tag == "seq" and b.tag == "seq":
        x, y = fold(e, st, a), fold(e, st, b)
        if x is y:
            return True
        if len(x.args[0]) == len(y.args[0]):
            for p, q in zip(x.args[0], y.args[0]):
                if p is q:
                    continue
                if p.tag == q.tag == "lit" and len(p.args[0]) == len(q.args[0]):
                    if all(same(e, st, m, n, depth + 1) for m, n in zip(p.args[0], q.args[0])):
                        continue
                if p.tag == q.tag == "win" and p.args[0] is q.args[0] and same(e, st, p.args[1], q.args[1]) and same(e, st, p.args[2], q.args[2]):
                    continue
                return False
            return True
        return False
    if a.tag == b.tag == "sym":
        x, y = a.args[0], b.args[0]
        while x.tag == y.tag and x.tag in ("fld", "dc") and x.args[1:] == y.args[1:]:
            x, y = x.args[0], y.args[0]
        return x is y or x.tag == y.tag == "el" and x.args[0] is y.args[0] and st.facts.test(eq0(sub(x.args[1], y.args[1]))) is True
    if a.tag == "map" and b.tag == "map":
        return a.args[0] is b.args[0] and not real_ops(e, st, a) and not real_ops(e, st, b)
    return False


def real_ops(e, st, m):
    """Operations on a map that are not a write of the value already there."""
    out = []
    for o in m.args[1]:
        if o.tag == "ins" and len(o.args) == 3 and m.args[0].tag == "mbase":
            old = e.fresh(mk("mval", m.args[0], o.args[0]), m.args[0].args[2])
            if same(e, st, o.args[1], old):
                continue
        out.append(o)
    return out


def differences(e, st, new, old, path=()):
    """[(path, new, old)] down to the places that changed."""
    if same(e, st, new, old):
        return []
    a, b = expand(e, st, new), expand(e, st, old)
    if a.tag == "agg" and b.tag == "sym":
        b = e.expand(st, b, a.args[1]) if e.kind(a.args[0]) == "adt" else b
    if a.tag == "agg" and b.tag == "agg" and a.args[1] == b.args[1] and len(a.args[2]) == len(b.args[2]):
        out = []
        for i, (x, y) in enumerate(zip(a.args[2], b.args[2])):
            n = str(i)
            if e.kind(a.args[0]) == "adt":
                fs = e.P.adts[e.P.types[a.args[0]]["adt"]]["variants"][a.args[1]].get("fields")
                if fs and i < len(fs):
                    n = fs[i] if isinstance(fs[i], str) else fs[i].get("name", n)
            out += differences(e, st, x, y, path + (n,))
        return out
    return [(path, new, old)]


class Run:
    """One analysed method: engine, arguments, paths."""

    def __init__(self, P, inst, deadline, want=None):
        from .interp import Engine
        from . import axioms
        self.P, self.inst = P, inst
        self.e = e = Engine(P)
        e.deadline = deadline
        axioms.install(e)
        b = P.body(inst)
        st = State()
        self.args = [e.fresh(mk("arg", k), b.locals[k + 1]) for k in range(b.argc)]
        self.outs = e.call_body(inst, self.args, st, ())
        self.name = P.insts[inst]["name"].replace("protofish::", "")
        self.fn = self.name

    def before(self, k=0):
        a = self.args[k]
        return self.e.fresh(mk("deref", a.args[0][1]), a.args[0][2])

    def after(self, st, k=0):
        a = self.args[k]
        return self.e.read(st, a.args[0], a.args[1])

    def variant(self, v):
        if v.tag == "agg" and self.e.kind(v.args[0]) == "adt":
            return self.P.variant_name(v.args[0], v.args[1])
        return None


def methods(P, mut):
    """Public methods taking &self / &mut self of a type of the crate: (type, name, instance)."""
    out, seen = [], set()
    for f in P.api:
        if f["k"] != "fn" or not f["pub"] or not f["in"]:
            continue
        t = f["in"][0]
        if not t.startswith("&") or t.startswith("&mut ") != mut:
            continue
        t = last(t[5:] if mut else t[1:]).split("<")[0]
        n = last(f["path"])
        for i in P.method(t, n):
            if i not in seen and P.body(i) is not None:
                seen.add(i)
                out.append((t, n, i))
    return out


def where(r):
    return r.fn


def conds_text(st):
    return "\n".join("  " + str(c)[:300] for c in st.facts.conds())


def atomic(rep, P, deadline):
    """C11"""
    n = 0
    for t, name, inst in methods(P, True):
        try:
            r = Run(P, inst, deadline)
        except Exception as ex:
            rep.undecide("%s::%s: %s %s" % (t, name, type(ex).__name__, ex))
            continue
        n += 1
        errs = 0
        for st, v in r.outs:
            if r.variant(v) != "Err":
                continue
            errs += 1
            for s, d in forked(r.e, st, lambda s: differences(r.e, s, r.after(s), r.before())):
                if not d:
                    rep.prove("%s::%s: an error path leaves everything as it was" % (t, name))
                    continue
                for path, new, old in d:
                    key = "%s::%s: %s is changed although the call fails" % (t, name, ".".join(path) or "the value")
                    if s.facts.imp or unclear(r.e, new):
                        rep.undecide(key)
                    else:
                        rep.violation(key, "%s\nreturns %s\nafter: %s\nbefore: %s\npath conditions:\n%s" % (
                            r.fn, str(v)[:200], str(new)[:400], str(old)[:200], conds_text(s)))
        rep.count("error paths", errs)
        rep.sample({"method": "%s::%s" % (t, name), "paths": len(r.outs), "error paths": errs})
    rep.count("modifying methods", n)


def unclear(e, v):
    return any(x.tag == "unk" for x in walk(v))


# ------------------------------------------------------------------ changes

def changes(e, st, new, old, path=()):
    """What happened to a value: ('push', path, index, item), ('elem', path, index, new, old),
    ('put', path, key, value, old or None), ('each', path, loop slot, ops), ('set', path, new, old)."""
    if same(e, st, new, old):
        return []
    a, b = expand(e, st, new), expand(e, st, old)
    if a.tag == "agg" and b.tag == "sym" and e.kind(a.args[0]) == "adt":
        if e.P.adts[e.P.types[a.args[0]]["adt"]]["kind"] == "enum" and \
                st.facts.test(eq0(sub(e.discr(st, b), e.discr(st, a)))) is not True:
            return [("set", path, new, old)]
        b = e.expand(st, b, a.args[1])
    if a.tag == "agg" and b.tag == "agg" and a.args[1] == b.args[1] and len(a.args[2]) == len(b.args[2]):
        out = []
        for i, (x, y) in enumerate(zip(a.args[2], b.args[2])):
            out += changes(e, st, x, y, path + (fname(e, a, i),))
        return out
    if a.tag == "seq" and b.tag == "seq" and len(b.args[0]) == 1 and b.args[0][0].tag == "win":
        base, n = b.args[0][0].args[0], b.args[0][0].args[2]
        out, pos = [], ZERO
        for p in fold(e, st, a).args[0]:
            if p.tag == "win" and p.args[0] is base and same(e, st, p.args[1], pos):
                pos = add(pos, p.args[2])
            elif p.tag == "lit":
                for x in p.args[0]:
                    if st.facts.test(ge0(sub(pos, n))) is True:
                        out.append(("push", path, pos, x))
                    elif st.facts.test(ge0(addc(sub(n, pos), -1))) is True:
                        out.append(("elem", path, pos, x, e.elem(base, pos)))
                    else:
                        return [("set", path, new, old)]
                    pos = addc(pos, 1)
            else:
                return [("set", path, new, old)]
        if st.facts.test(ge0(sub(pos, n))) is not True:
            return [("set", path, new, old)]
        return out
    if a.tag == "map" and b.tag == "map":
        out = []
        m = a
        slot = e.phimaps.get(m.args[0])
        if slot is not None and m.args[0] is not b.args[0]:
            if slot.init is None or slot.init.tag != "map":
                return [("set", path, new, old)]
            out += changes(e, st, slot.init, b, path)
            for _, ops in slot.added:
                if ops is None:
                    return [("set", path, new, old)]
                out.append(("each", path, slot, ops))
        elif m.args[0] is not b.args[0]:
            return [("set", path, new, old)]
        for o in m.args[1]:
            if o.tag != "ins":
                return out + [("set", path, new, old)]
            out.append(("put", path, o.args[0], o.args[1], len(o.args) == 3))
        return out
    return [("set", path, new, old)]


def fname(e, agg, i):
    if e.kind(agg.args[0]) == "adt":
        fs = e.P.adts[e.P.types[agg.args[0]]["adt"]]["variants"][agg.args[1]]["fields"]
        if i < len(fs):
            return fs[i]
    return str(i)


def fld(e, st, v, *names):
    """A field by name, through references and single-variant wrappers ('0' is a tuple field)."""
    for n in names:
        v = expand(e, st, v)
        if v.tag != "agg":
            return None
        if e.kind(v.args[0]) != "adt":
            return None
        var = e.P.adts[e.P.types[v.args[0]]["adt"]]["variants"][v.args[1]]
        if n not in var["fields"]:
            return None
        v = v.args[2][var["fields"].index(n)]
    return v


def only_variant(e, st, v):
    """The one variant the facts leave."""
    k = e.variant_of(st, v)
    if k is not None or e.kind(v.args[1]) != "adt":
        return k
    vs = e.P.adts[e.ty(v.args[1])["adt"]]["variants"]
    d = e.discr(st, v)
    left = [i for i, x in enumerate(vs) if st.facts.test(eq0(addc(d, -x["discr"]))) is not False]
    return left[0] if len(left) == 1 else None


def vname(e, st, v):
    """Name of an enum value's variant, when known."""
    if v.tag == "sym":
        k = only_variant(e, st, v)
        return None if k is None else e.P.variant_name(v.args[1], k)
    if v.tag == "agg" and e.kind(v.args[0]) == "adt":
        return e.P.variant_name(v.args[0], v.args[1])
    return None


def inner(e, st, v):
    """What a variant or wrapper with one part holds."""
    if v.tag == "sym" and e.kind(v.args[1]) == "adt":
        k = only_variant(e, st, v) if e.P.adts[e.ty(v.args[1])["adt"]]["kind"] == "enum" else 0
        if k is None:
            return None
        v = e.expand(st, v, k)
    return v.args[2][0] if v.tag == "agg" and len(v.args[2]) == 1 else None


def refidx(e, st, v, depth=0):
    """The index inside a reference."""
    while v is not None and not is_int(v) and depth < 6:
        v = expand(e, st, v)
        if v.tag != "agg" or len(v.args[2]) != 1:
            return None
        v = v.args[2][0]
        depth += 1
    return v


class Judge:
    """Collects the verdicts of one path."""

    def __init__(self, rep, r, st, label):
        self.rep, self.r, self.st, self.label = rep, r, st, label
        self.full = False

    def ok(self, cond, what, detail=""):
        """cond: True holds, False fails, None cannot tell."""
        if cond is True:
            self.rep.prove("%s: %s" % (self.label, what))
        elif cond is None or self.st.facts.imp:
            self.rep.undecide("%s: not decided: %s" % (self.label, what))
        else:
            self.rep.violation("%s: does not hold: %s" % (self.label, what), "%s\n%s\npath conditions:\n%s" % (
                self.r.fn, detail, conds_text(self.st)))

    def eq(self, a, b, what):
        e, st = self.r.e, self.st
        if a is None or b is None or unclear(e, a) or unclear(e, b):
            return self.ok(None, what)
        self.ok(same(e, st, a, b), what, "%s\nshould be %s" % (str(a)[:400], str(b)[:400]))

    def is_same(self, a, b):
        return a is not None and b is not None and same(self.r.e, self.st, a, b)


def ok_paths(r):
    for st, v in r.outs:
        if r.variant(v) != "Err":
            for s, ch in forked(r.e, st, lambda s: changes(r.e, s, r.after(s), r.before())):
                yield s, v, ch


def absent(e, st, path, key, before):
    """Was the key missing from the map at path before the call?"""
    m = before
    for n in path:
        m = fld(e, st, m, n)
        if m is None:
            return None
    if m.tag != "map":
        return None
    return st.facts.test(tm.not_(mk("mhas", m.args[0], key))) is True


def each_method(rep, P, deadline):
    for t, name, inst in methods(P, True):
        try:
            r = Run(P, inst, deadline)
        except Exception as ex:
            rep.undecide("%s::%s: %s %s" % (t, name, type(ex).__name__, ex))
            continue
        rep.count("modifying methods", 1)
        yield t, name, r


# Fields that hold the tables, by type.
TYPE_TABLE = {"Context": ("types", "types_by_name")}
NUMBERED = {"MessageInfo": ("fields", "fields_by_name", "number"), "EnumInfo": ("fields_by_value", "fields_by_name", "value")}


def indexes(rep, P, deadline):
    """C12: what the modifying methods add can be found under its name, number and reference."""
    for t, name, r in each_method(rep, P, deadline):
        for st, v, ch in ok_paths(r):
            j = Judge(rep, r, st, "%s::%s" % (t, name))
            rep.count("successful paths", 1)
            if t == "Context":
                context_path(j, v, ch)
            elif t in NUMBERED:
                numbered_path(j, t, v, ch)
            else:
                j.ok(None if ch else True, "nothing else is changed")


def context_path(j, v, ch):
    r, st, e = j.r, j.st, j.r.e
    left = list(ch)
    fin = r.after(st)
    for c in ch:
        if c[0] != "push" or len(c[1]) != 1:
            continue
        table, pos, item = c[1][0], c[2], c[3]
        ty = e.val_ty(item)
        tn = last(P_adt(e, ty)) if ty is not None else None
        if tn == "Package":
            left.remove(c)
            j.eq(refidx(e, st, fld(e, st, item, "self_ref") or item), pos, "a package's reference is its position")
            j.eq(result_index(j, v), pos, "the reference returned is the position of the new item")
        elif tn == "TypeInfo":
            left.remove(c)
            body = inner(e, st, item)
            if body is None:
                j.ok(None, "kind of the new item")
                continue
            j.eq(refidx(e, st, fld(e, st, body, "self_ref")), pos, "a type's reference is its position")
            j.eq(result_index(j, v), pos, "the reference returned is the position of the new item")
            full = fld(e, st, body, "full_name")
            puts = [p for p in ch if p[0] == "put" and len(p[1]) == 1 and is_int(p[3])]
            mine = [p for p in puts if j.is_same(p[2], full) and j.is_same(p[3], pos)]
            for p in mine:
                left.remove(p)
                a = absent(e, st, p[1], p[2], r.before())
                j.ok(a, "no other item loses the name", "key %s" % str(p[2])[:200])
            j.ok(bool(mine), "the full name is registered with the position", "full name %s, registered %s" % (
                str(full)[:200], [(str(p[2])[:120], str(p[3])[:80]) for p in puts]))
            kind = vname(e, st, item)
            parent = fld(e, st, body, "parent")
            pk = vname(e, st, parent) if parent is not None else None
            pi = refidx(e, st, inner(e, st, parent)) if pk else None
            found = None
            for q in ch:
                if q[0] == "elem" and len(q[1]) == 1 and pi is not None and j.is_same(q[2], pi):
                    for d in changes(e, st, q[3], q[4]):
                        if d[0] == "push" and d[1][-1] == ("types" if pk == "Package" else "inner_types"):
                            good = vname(e, st, d[3]) == kind and j.is_same(refidx(e, st, d[3]), pos)
                            found = good
                            j.ok(good, "the parent lists the new item by its kind and position", str(d[3])[:200])
                        else:
                            j.ok(False, "the parent is changed in nothing else", str(d)[:300])
                    left.remove(q)
            if pk is None:
                j.ok(None, "the parent lists the new item")
            else:
                j.ok(found is not None, "the parent lists the new item", str([x[:3] for x in ch])[:400])
            # the name
            nm = fld(e, st, body, "name")
            want = None
            if pk == "Message":
                pt = e.read(st, r.args[0].args[0], r.args[0].args[1] + (fieldstep(e, fin, "types"), ("i", pi)))
                pf = fld(e, st, inner(e, st, pt) or pt, "full_name") if vname(e, st, pt) else None
                want = concat(e, pf, nm)
            elif pk == "Package":
                pt = e.read(st, r.args[0].args[0], r.args[0].args[1] + (fieldstep(e, fin, "packages"), ("i", pi)))
                pn = fld(e, st, pt, "name")
                if pn is not None and vname(e, st, pn) == "None":
                    want = nm
                elif pn is not None and vname(e, st, pn) == "Some":
                    want = concat(e, inner(e, st, pn), nm)
            j.eq(full, want, "the full name is the parent's full name, a dot and the name")
    for c in left:
        j.ok(None if c[0] in ("set", "each") else False, "nothing else in the context is changed", str(c)[:300])


def P_adt(e, t):
    ty = e.P.types[t]
    return ty["adt"] if ty["k"] == "adt" else ""


def tix(e, agg, n):
    v = e.P.adts[e.P.types[agg.args[0]]["adt"]]["variants"][0]["fields"]
    return v.index(n)


def fieldstep(e, agg, n):
    """The place of a field inside a struct value."""
    i = tix(e, agg, n)
    return ("f", None, i, e.P.types[agg.args[0]]["vf"][0][i])


def concat(e, a, b):
    if a is None or b is None or a.tag != "seq" or b.tag != "seq":
        return None
    return e.mkseq(list(a.args[0]) + [mk("cst", b".")] + list(b.args[0]))


def result_index(j, v):
    e, st = j.r.e, j.st
    return refidx(e, st, v)


def numbered_path(j, t, v, ch):
    r, st, e = j.r, j.st, j.r.e
    table, names, num_ = NUMBERED[t]
    left = list(ch)
    puts = [c for c in ch if c[0] == "put" and c[1] == (table,)]
    nputs = [c for c in ch if c[0] == "put" and c[1] == (names,)]
    for c in puts:
        left.remove(c)
        key, val = c[2], c[3]
        j.eq(fld(e, st, val, num_), key, "a field is stored under its own number")
        if not c[4]:
            j.ok(absent(e, st, c[1], key, r.before()), "the number was free", str(key)[:200])
            nm = fld(e, st, val, "name")
            mine = [n for n in nputs if j.is_same(n[2], nm) and j.is_same(n[3], key)]
            j.ok(bool(mine), "the name is registered with the number", "name %s number %s registered %s" % (
                str(nm)[:200], str(key)[:100], [(str(n[2])[:150], str(n[3])[:80]) for n in nputs]))
            for n in mine:
                if n in left:
                    left.remove(n)
                j.ok(absent(e, st, n[1], n[2], r.before()), "the name was free", str(n[2])[:200])
    for c in ch:
        if c[0] == "each" and c[1] == (table,):
            left.remove(c)
            for o in c[3]:
                if o.tag == "ins":
                    j.eq(fld(e, st, o.args[1], num_), o.args[0], "a field is stored under its own number") if len(o.args) < 3 else \
                        j.ok(True, "a changed field keeps its place")
        elif c[0] == "push" and c[1] == ("oneofs",):
            left.remove(c)
            j.eq(refidx(e, st, fld(e, st, c[3], "self_ref")), c[2], "a oneof's reference is its position")
            j.eq(result_index(j, v), c[2], "the reference returned is the position of the new item")
        elif c[0] == "elem" and c[1] == ("oneofs",):
            left.remove(c)
            for d in changes(e, st, c[3], c[4]):
                j.ok(True if d[1] == ("fields",) else False, "a oneof keeps its name and position", str(d)[:300])
    for c in left:
        j.ok(None if c[0] in ("set", "each") else False, "nothing else is changed", str(c)[:300])


def eq_cond(e, st, a, b):
    """True / False / None: are two values equal? Splits (Fork) on undecided variants."""
    if is_int(a) and is_int(b):
        return st.facts.test(eq0(sub(a, b)))
    a, b = expand(e, st, a), expand(e, st, b)
    if a.tag == "seq" and b.tag == "seq":
        t = tm.same(a, b)
        return t is tm.TRUE if t.tag == "b" else st.facts.test(t)
    if a.tag in ("agg", "sym") and b.tag in ("agg", "sym"):
        ty = e.val_ty(a)
        if e.kind(ty) == "adt" and e.P.adts[e.P.types[ty]["adt"]]["kind"] == "enum":
            ka, kb = e.need_variant(st, a), e.need_variant(st, b)
            if ka is None or kb is None:
                return None
            if ka != kb:
                return False
            a = e.expand(st, a, ka) if a.tag == "sym" else a
            b = e.expand(st, b, kb) if b.tag == "sym" else b
        if a.tag == "agg" and b.tag == "agg" and len(a.args[2]) == len(b.args[2]):
            rs = [eq_cond(e, st, x, y) for x, y in zip(a.args[2], b.args[2])]
            return False if False in rs else None if None in rs else True
    return True if a is b else None


def free_name(j, path, item, table):
    """No element of the table (before) has the item's name."""
    e, st, r = j.r.e, j.st, j.r
    base = next((p.args[0] for p in table.args[0] if p.tag == "win"), None)
    nm = fld(e, st, item, "name")
    if base is None or nm is None:
        return j.ok(None, "an item is added only where its name is free")
    k = I(mk("any", path))
    n = e.seq_len(table)
    s = st.fork()
    s.facts = s.facts.assume(ge0(k))
    s.facts = s.facts and s.facts.assume(ge0(addc(sub(n, k), -1)))
    if s.facts is None:
        return j.ok(True, "an item is added only where its name is free")
    for s2, t in forked(e, s, lambda s: eq_cond(e, s, fld(e, s, e.elem(base, k), "name"), nm)):
        if t is not False and s2.facts.test(mk("bsym", mk("el", base, k))) is True:
            t = False        # no such element under these conditions
        Judge(j.rep, r, s2, j.label).ok(
            None if t is None and not j.full else t is False, "an item is added only where its name is free",
            "nothing compared the name %s with those of %s" % (str(nm)[:200], ".".join(path)))


def duplicates(rep, P, deadline):
    """C14: a name that is taken is reported, with the item that has it; an item is only added under a free name,
    and is only refused where the name is taken."""
    for t, name, r in each_method(rep, P, deadline):
        e = r.e
        for st, v in r.outs:
            if r.variant(v) == "Err":
                refused(rep, t, name, r, st, v)
                continue
            for s, ch in forked(e, st, lambda s: changes(e, s, r.after(s), r.before())):
                j = Judge(rep, r, s, "%s::%s" % (t, name))
                j.full = True
                rep.count("successful paths", 1)
                for c in ch:
                    if c[0] == "put" and not c[4] and len(c[1]) == 1:
                        j.ok(absent(e, s, c[1], c[2], r.before()), "an entry is added only where its key is free",
                             "%s key %s" % (c[1][0], str(c[2])[:200]))
                    if c[0] != "push" or len(c[1]) != 1:
                        continue
                    if last(P_adt(e, e.val_ty(c[3]))) == "TypeInfo":
                        full = fld(e, s, inner(e, s, c[3]), "full_name")
                        j.ok(absent(e, s, ("types_by_name",), full, r.before()) if full is not None else None,
                             "a type is added only where its full name is free", str(full)[:300])
                    else:
                        old = fld(e, s, r.before(), c[1][0])
                        if old is not None and old.tag == "seq" and fld(e, s, c[3], "name") is not None:
                            free_name(j, c[1], c[3], old)
                        elif old is None or old.tag != "seq":
                            j.ok(None, "an item is added only where its name is free")


# error variant -> what must be the case
TAKEN = {"NumberConflict": ("number", "value"), "NameConflict": ("name",)}


def refused(rep, t, name, r, st, v):
    e = r.e
    j = Judge(rep, r, st, "%s::%s" % (t, name))
    x = v.args[2][0]
    kind = vname(e, st, x)
    xt = e.val_ty(x)
    if e.kind(xt) != "adt" or e.P.adts[e.P.types[xt]["adt"]]["kind"] != "enum":
        kind = None              # a plain reference
    rep.count("refusals", 1)
    old = r.before()
    if kind == "TypeExists":
        orig = fld(e, st, x, "original")
        idx = refidx(e, st, orig) if orig is not None else None
        m = fld(e, st, old, "types_by_name")
        hits = [c.args[1] for c in st.facts.conds() if c.tag == "mhas" and m is not None and c.args[0] is m.args[0]]
        if idx is None or not hits:
            return j.ok(None, "the error names the existing type")
        want = mk("mval", m.args[0], hits[-1])
        j.ok(same(e, st, idx, e.fresh(want, m.args[0].args[2])), "the error names the existing type", "%s" % str(idx)[:200])

        def kinds(s):
            el = e.read(s, r.args[0].args[0], r.args[0].args[1] + (fieldstep(e, expand(e, s, old), "types"), ("i", idx)))
            return None if el.tag not in ("sym", "agg") or e.need_variant(s, el) is None else vname(e, s, el)
        for s, k in forked(e, st, kinds):
            j.ok(None if k is None else k == vname(e, s, orig), "the error names the existing type by its kind", str(orig)[:200])
        return
    if kind in TAKEN:
        item = next((a for a in map(lambda a: expand(e, st, a), r.args[1:]) if any(fld(e, st, a, n) is not None for n in TAKEN[kind])), None)
        key = next((fld(e, st, item, n) for n in TAKEN[kind] if fld(e, st, item, n) is not None), None) if item is not None else None
        if key is None:
            return j.ok(None, "an item is refused only where its %s is taken" % TAKEN[kind][0])
        tabs = fields(e, expand(e, st, old))
        hit = any(m.tag == "map" and st.facts.test(mk("mhas", m.args[0], key)) is True for m in tabs)
        if not hit:
            for m in tabs:
                if m.tag == "seq" and TAKEN[kind] == ("name",):
                    hit = hit or some_named(e, st, m, key)
        return j.ok(hit, "an item is refused only where its %s is taken" % TAKEN[kind][0], "refused: %s\nkey %s" % (kind, str(key)[:200]))
    if kind in ("FieldConflict", "FieldNotFound"):
        key, tab = fld(e, st, x, "field"), fld(e, st, old, "fields")
        rule = "a refusal names the field in conflict" if kind == "FieldConflict" else "a refusal names a field that is not there"
        if key is None or tab is None or tab.tag != "map":
            return j.ok(None, rule)
        if kind == "FieldNotFound":
            return j.ok(st.facts.test(mk("mhas", tab.args[0], key)) is False, rule, "refused: %s\nkey %s" % (kind, str(key)[:200]))
        if st.facts.test(mk("mhas", tab.args[0], key)) is not True:
            return j.ok(False, rule, "refused: %s\nkey %s" % (kind, str(key)[:200]))
        item = e.fresh(mk("mval", tab.args[0], key), tab.args[0].args[2])
        for s, o in forked(e, st, lambda s: oneof_of(e, s, item)):
            Judge(rep, r, s, j.label).ok(None if o is None else o is not False, rule, "refused: %s\nkey %s" % (kind, str(key)[:200]))
        return
    b = elem_base(x)
    if b is None and kind is None and t == "Context" and refidx(e, st, x) is not None:
        tab = fld(e, st, old, "packages")
        base = next((p.args[0] for p in tab.args[0] if p.tag == "win"), None) if tab is not None and tab.tag == "seq" else None
        b = (base, refidx(e, st, x)) if base is not None else None
        if b is None:
            return j.ok(None, "a refusal names the existing item")
        x = fld(e, st, e.elem(*b), "self_ref")
    if b is not None and kind is None and t == "Context":
        # the reference of the existing item
        item = next((a for a in r.args[1:] if fld(e, st, a, "name") is not None), None)
        if item is None:
            return j.ok(None, "a refusal names the existing item")
        el = e.elem(*b)
        for s, eq in forked(e, st, lambda s: eq_cond(e, s, fld(e, s, el, "name"), fld(e, s, item, "name"))):
            k = Judge(rep, r, s, j.label)
            k.ok(eq is True and in_range(s, b), "an item is refused only where its name is taken", str(x)[:200])
        j.eq(refidx(e, st, x), refidx(e, st, fld(e, st, el, "self_ref") or x), "a refusal names the existing item")


def in_range(st, b):
    return st.facts.test(ge0(b[1])) is True and st.facts.test(ge0(addc(sub(I(mk("slen", b[0])), b[1]), -1))) is True


def fields(e, v):
    return list(v.args[2]) if v is not None and v.tag == "agg" else []


def some_named(e, st, table, key):
    """Does some element the path compared have the name?"""
    for p in table.args[0]:
        if p.tag != "win":
            continue
        for c in st.facts.conds():
            if c.tag != "same":
                continue
            for q in c.args:
                b = elem_base(q)
                if b and b[0] is p.args[0] and in_range(st, b):
                    nm = fld(e, st, e.elem(*b), "name")
                    if nm is not None and same(e, st, nm, q) and any(same(e, st, o, key) for o in c.args if o is not q):
                        return True
    return False


# ------------------------------------------------------------------ C13

def oneofs(rep, P, deadline):
    """C13: if fields and oneofs of a message agree before a modification, they agree after it."""
    for t, name, r in each_method(rep, P, deadline):
        if t != "MessageInfo":
            # nothing else may touch what is inside a message
            for st, v, ch in ok_paths(r):
                j = Judge(rep, r, st, "%s::%s" % (t, name))
                for c in ch:
                    if c[0] == "elem" and last(P_adt(r.e, r.e.val_ty(c[4]))) == "TypeInfo":
                        for d in changes(r.e, st, c[3], c[4]):
                            j.ok(d[1][-1] not in ("fields", "oneofs"), "the fields and oneofs of existing messages stay as they are", str(d)[:300])
            continue
        rep.count("message methods", 1)
        for st, v, ch in ok_paths(r):
            for s, _ in forked(r.e, st, lambda s: [oneof_of(r.e, s, c[3]) for c in ch if c[0] == "put" and c[1] == ("fields",)]):
                rep.count("successful paths", 1)
                oneof_path(Judge(rep, r, s, "%s::%s" % (t, name)), ch)


def oneof_of(e, st, f):
    """The index of the oneof a field says it belongs to; False for none, None when unclear."""
    o = fld(e, st, f, "oneof")
    if o is None:
        return None
    k = e.need_variant(st, o)
    if k is None:
        return None
    if o.tag == "sym":
        o = e.expand(st, o, k)
    if e.P.variant_name(o.args[0], k) == "None":
        return False
    return refidx(e, st, o)


def oneof_path(j, ch):
    r, st, e = j.r, j.st, j.r.e
    listed = []          # (oneof index, number, change) appended to lists of existing oneofs
    fresh = []           # (oneof index, list) of new oneofs
    for c in ch:
        if c[0] == "elem" and c[1] == ("oneofs",):
            for d in changes(e, st, c[3], c[4]):
                if d[0] == "push" and d[1] == ("fields",):
                    listed.append((c[2], d[3]))
                elif d[1] == ("fields",):
                    j.ok(None if d[0] == "set" and unclear(e, d[2]) else False, "the list of a oneof only grows by the fields added", str(d)[:300])
        elif c[0] == "push" and c[1] == ("oneofs",):
            fresh.append((c[2], fld(e, st, c[3], "fields")))
        elif c[1][:1] in (("oneofs",), ("fields",)) and c[0] == "set":
            j.ok(None, "fields and oneofs agree")
    used = set()
    for c in ch:
        if c[1] != ("fields",):
            continue
        if c[0] == "put":
            key, val = c[2], c[3]
            o = oneof_of(e, st, val)
            old = None
            if c[4]:
                m = fld(e, st, r.before(), "fields")
                old = e.fresh(mk("mval", m.args[0], key), m.args[0].args[2])
                if same(e, st, fld(e, st, val, "oneof"), fld(e, st, old, "oneof")):
                    continue
            if o is None:
                j.ok(None, "a field that names a oneof is listed by it")
            elif o is False:
                j.ok(old is None, "a field is not taken out of its oneof", str(key)[:200])
            else:
                hit = [i for i, x in enumerate(listed) if j.is_same(x[0], o) and j.is_same(x[1], key)]
                hit2 = [x for x in fresh if j.is_same(x[0], o) and x[1] is not None and lists(e, st, x[1], key)]
                j.ok(len(hit) + len(hit2) == 1, "a field that names a oneof is listed by it", "field %s says oneof %s; listed: %s" % (
                    str(key)[:100], str(o)[:100], [(str(a)[:80], str(b)[:80]) for a, b in listed]))
                used.update(hit)
                if old is not None:
                    j.ok(oneof_of(e, st, old) is False, "a field that moves into a oneof was in none", str(key)[:200])
        elif c[0] == "each":
            each_oneof(j, c[2], fresh)
    for i, x in enumerate(listed):
        if i not in used:
            j.ok(False, "a oneof only lists fields that name it", "oneof %s lists %s" % (str(x[0])[:100], str(x[1])[:100]))
    for o, lst in fresh:
        if lst is None or lst.tag != "seq":
            j.ok(None, "a oneof only lists fields that name it")
            continue
        n = e.seq_len(lst)
        if st.facts.test(eq0(n)) is True:
            j.ok(True, "a oneof only lists fields that name it")
            continue
        done = [c for c in ch if c[0] == "each" and c[1] == ("fields",) and covers(j, c[2], o, lst)]
        j.ok(bool(done), "a oneof only lists fields that name it", "new oneof %s lists %s" % (str(o)[:100], str(lst)[:200]))


def lists(e, st, lst, key):
    return lst.tag == "seq" and any(p.tag == "lit" and any(same(e, st, x, key) for x in p.args[0]) for p in lst.args[0])


def loop_of(e, slot):
    return next((i for i in e.loops if any(s is slot for s in i.slots)), None)


def covers(j, slot, o, lst):
    """Does the loop behind the slot set `oneof` to o for every number in the list?"""
    e, st = j.r.e, j.st
    info = loop_of(e, slot)
    if info is None or len(lst.args[0]) != 1 or lst.args[0][0].tag != "win":
        return False
    base, first, n = lst.args[0][0].args
    if len(slot.added) < len(info.backs):
        return False
    for _, ops in slot.added:
        hit = False
        for op in ops or ():
            if op.tag != "ins" or op.args[0].tag != "lin":
                continue
            k = [t for t in walk(op.args[0]) if t.tag == "el" and t.args[0] is base]
            if not k or not same(e, st, op.args[0], e.elem(base, k[0].args[1])):
                continue
            if not whole(j, info, k[0].args[1], first, n):
                continue
            x = oneof_of(e, st, op.args[1])
            hit = hit or x not in (None, False) and same(e, st, x, o)
        if not hit:
            return False
    return True


def whole(j, info, idx, first, n):
    """Does the index run over first .. first+n in steps of one?"""
    st = j.st
    for s in info.slots:
        if s.kind != "int" or s.init is None:
            continue
        d = sub(idx, I(s.phi))
        if s.phi in walk(d):
            continue
        if any(sub(sb.get(s.phi, ZERO) if s.phi in sb else ZERO, addc(I(s.phi), 1)) is not ZERO for sb in info.substs):
            continue
        if st.facts.test(eq0(sub(add(s.init, d), first))) is True and \
                st.facts.test(ge0(sub(add(I(s.phi), d), add(first, n)))) is True:
            return True
    return False


def each_oneof(j, slot, fresh):
    """A loop that writes fields: what it sets must be listed by the new oneof, and the fields were in none before."""
    e, st, r = j.r.e, j.st, j.r
    info = loop_of(e, slot)
    m = fld(e, st, r.before(), "fields")
    for _, ops in slot.added:
        for op in ops or ():
            if op.tag != "ins":
                j.ok(None, "fields and oneofs agree")
                continue
            key, val = op.args[0], op.args[1]
            old = e.fresh(mk("mval", slot.head.args[0], key), m.args[0].args[2])
            if same(e, st, fld(e, st, val, "oneof"), fld(e, st, old, "oneof")):
                continue
            x = oneof_of(e, st, val)
            if x in (None, False):
                j.ok(None if x is None else False, "a field that names a oneof is listed by it", str(key)[:200])
                continue
            els = [t for t in walk(key) if t.tag == "el"]
            good = None
            for o, lst in fresh:
                if lst is not None and lst.tag == "seq" and same(e, st, o, x):
                    for t in els:
                        if lst.args[0] == (mk("win", t.args[0], ZERO, e.seq_len(lst)),) and same(e, st, key, e.elem(*t.args[:2])):
                            good = t
            j.ok(good is not None, "a field that names a oneof is listed by it", "fields %s say oneof %s" % (str(key)[:100], str(x)[:100]))
            if good is None:
                continue
            # any of them, before the call
            k = I(mk("any", "listed"))
            s = st.fork()
            s.facts = s.facts.assume(ge0(k))
            s.facts = s.facts and s.facts.assume(ge0(addc(sub(I(mk("slen", good.args[0])), k), -1)))
            if s.facts is None:
                continue
            num_ = e.elem(good.args[0], k)
            was = e.fresh(mk("mval", m.args[0], num_), m.args[0].args[2])
            for s2, w in forked(e, s, lambda s: oneof_of(e, s, was)):
                jj = Judge(j.rep, r, s2, j.label)
                if s2.facts.test(mk("bsym", mk("el", good.args[0], k))) is True:
                    w = False
                jj.ok(w is False, "a field that moves into a oneof was in none", "nothing excludes fields of another oneof")


# ------------------------------------------------------------------ lookups

NAME, REF, KEY = "name", "ref", "key"
LOOKUPS = {
    ("Context", "get_type"): (NAME, "types_by_name", "types", "full_name", None),
    ("Context", "get_message"): (NAME, "types_by_name", "types", "full_name", "Message"),
    ("Context", "get_service"): (NAME, "services_by_name", "services", "full_name", None),
    ("MessageInfo", "get_field_by_name"): (NAME, "fields_by_name", "fields", "name", None),
    ("Service", "rpc_by_name"): (NAME, "rpcs_by_name", "rpcs", "name", None),
    ("Context", "resolve_message"): (REF, "types", "Message"),
    ("Context", "resolve_enum"): (REF, "types", "Enum"),
    ("Context", "resolve_package"): (REF, "packages", None),
    ("MessageInfo", "get_oneof"): (REF, "oneofs", None),
    ("MessageInfo", "get_field"): (KEY, "fields"),
    ("EnumInfo", "get_field_by_value"): (KEY, "fields_by_value"),
}
PARTS = {("TypeInfo", "name"): "name", ("TypeInfo", "full_name"): "full_name", ("TypeInfo", "parent"): "parent"}
ITERS = {("MessageInfo", "iter_fields"): "fields"}


def lookups(rep, P, deadline):
    """C12: what a lookup returns is the item of that name, number or position, and it returns it whenever it exists."""
    for t, name, inst in methods(P, False):
        key = (t, name)
        if key not in LOOKUPS and key not in PARTS and key not in ITERS:
            continue
        try:
            r = Run(P, inst, deadline)
        except Exception as ex:
            rep.undecide("%s::%s: %s %s" % (t, name, type(ex).__name__, ex))
            continue
        rep.count("lookups", 1)
        for st, v in r.outs:
            rep.count("lookup paths", 1)
            j = Judge(rep, r, st, "%s::%s" % key)
            if key in PARTS:
                part_path(j, v, PARTS[key])
            elif key in ITERS:
                iter_path(j, v, ITERS[key])
            else:
                for s, out in forked(r.e, st, lambda s: lookup_path(r, s, v, LOOKUPS[key])):
                    for cond, what, detail in out:
                        Judge(rep, r, s, j.label).ok(cond, what, detail)


def part_path(j, v, n):
    """The part of whichever variant the value is."""
    r, st, e = j.r, j.st, j.r.e
    what = "the %s of the item itself is returned" % n
    self_ = r.before()
    k = only_variant(e, st, self_) if self_.tag == "sym" else None
    if k is None:
        return j.ok(None, what)
    want = fld(e, st, e.expand(st, self_, k).args[2][0], n)
    if v.tag in ("sptr", "ptr"):
        v = content(e, st, v)
    j.eq(v, want, what)


def content(e, st, v):
    """What a reference points at."""
    if v.tag == "sptr":
        x = e.read(st, v.args[0], v.args[1])
        if x.tag == "seq" and v.args[2] is ZERO and same(e, st, v.args[3], e.seq_len(x)):
            return x
        return None
    if v.tag == "ptr":
        return e.read(st, v.args[0], v.args[1])
    return None


def iter_path(j, v, n):
    r, st, e = j.r, j.st, j.r.e
    what = "every item of %s is iterated" % n
    m = fld(e, st, r.before(), n)
    if m is not None and v.tag == "it" and {x.args[0] for x in walk(v) if x.tag == "it"} & {
            "maprange", "filter", "skip", "take", "stepby", "step_by", "skip_while", "take_while", "filter_map"} and m in walk(v):
        return j.ok(False, what, str(v)[:300])
    if v.tag != "it" or m is None or v.args[0] not in ("map", "seq") or len(v.args) < 6:
        return j.ok(None, what)
    if v.args[0] == "map":
        cond = v.args[1] == "values" and v.args[3] is m and v.args[4] is ZERO and v.args[5].tag == "lin" and \
            any(x.tag == "maplen" and x.args[0] is m for x in walk(v.args[5])) and len(v.args[5].args[1]) == 1
        return j.ok(True if cond else None if v.args[3] is not m else False, what, str(v)[:300])
    j.ok(None, what)


def steps(e, self_, v, r):
    """[(kind, ...)] of a reference into self: the table's name, then the index or key, then a variant."""
    a = r.args[0]
    if v.tag != "ptr" or v.args[0] != a.args[0] or v.args[1][:len(a.args[1])] != a.args[1]:
        return None
    return v.args[1][len(a.args[1]):]


def lookup_path(r, st, v, spec):
    e = r.e
    out = []
    self_ = expand(e, st, r.before())
    if self_.tag != "agg":
        return [(None, "the item is returned", "")]
    names = e.P.adts[e.P.types[self_.args[0]]["adt"]]["variants"][0]["fields"]
    tabn = spec[2] if spec[0] == NAME else spec[1]
    if tabn not in names or (spec[0] == NAME and spec[1] not in names):
        return [(None, "the item is returned (no table %s)" % tabn, "")]
    table = self_.args[2][names.index(tabn)]
    index = self_.args[2][names.index(spec[1])] if spec[0] == NAME else None
    kind = spec[-1] if spec[0] != KEY else None
    arg = r.args[1]
    if spec[0] == NAME:
        arg = content(e, st, arg)
    elif spec[0] == REF:
        arg = refidx(e, st, arg)
    if arg is None:
        return [(None, "the item is returned", "")]
    var = r.variant(v)
    if var == "None" or var is None and v.tag == "agg":
        return [(missing(e, st, spec, table, index, kind, arg), "nothing is returned only when there is nothing", str(arg)[:200])]
    if var == "Some":
        v = v.args[2][0]
    p = steps(e, self_, v, r)
    if p is None or len(p) < 2:
        return [(None, "the item asked for is returned", str(v)[:200])]
    good = p[0][:3] == ("f", None, names.index(tabn))
    if not good:
        return [(False, "the item asked for is returned", "%s is not in %s" % (str(v)[:200], tabn))]
    k = p[1][1]
    if p[1][0] not in ("i", "k"):
        return [(None, "the item asked for is returned", str(v)[:200])]
    hit = False
    if spec[0] == KEY:
        hit = p[1][0] == "k" and same(e, st, k, arg)
    elif spec[0] == REF:
        hit = is_int(k) and (same(e, st, k, arg) or self_ref_is(e, st, table, k, arg))
    else:
        want = e.fresh(mk("mval", index.args[0], arg), index.args[0].args[2]) if index.tag == "map" else None
        hit = want is not None and same(e, st, k, want)
        if not hit and is_int(k) and table.tag == "seq":
            base = next((q.args[0] for q in table.args[0] if q.tag == "win"), None)
            nm = fld(e, st, (lambda x: inner(e, st, x) if x.tag == "agg" and fld(e, st, x, spec[3]) is None else x)(
                expand(e, st, e.elem(base, k))), spec[3]) if base is not None else None
            hit = nm is not None and eq_cond(e, st, nm, arg) is True
    out.append((hit, "the item asked for is returned", "%s for %s" % (str(v)[:300], str(arg)[:200])))
    return out


def self_ref_is(e, st, table, k, arg):
    base = next((q.args[0] for q in table.args[0] if q.tag == "win"), None) if table.tag == "seq" else None
    if base is None:
        return False
    x = refidx(e, st, fld(e, st, e.elem(base, k), "self_ref"))
    return x is not None and same(e, st, x, arg)


def missing(e, st, spec, table, index, kind, arg):
    """Is there nothing to return under the facts of this path?"""
    if spec[0] == KEY:
        return st.facts.test(tm.not_(mk("mhas", table.args[0], arg))) is True
    if spec[0] == REF:
        n = e.seq_len(table)
        if st.facts.test(ge0(sub(arg, n))) is True:
            return True
        base = table.args[0][0].args[0] if len(table.args[0]) == 1 and table.args[0][0].tag == "win" else None
        if base is None:
            return None
        # no element carries the reference
        k = I(mk("any", "ref"))
        s = st.fork()
        s.facts = s.facts.assume(ge0(k))
        s.facts = s.facts and s.facts.assume(ge0(addc(sub(n, k), -1)))
        if s.facts is None:
            return True
        x = refidx(e, s, fld(e, s, e.elem(base, k), "self_ref") or e.elem(base, k))
        return x is not None and s.facts.test(eq0(sub(x, arg))) is False
    has = mk("mhas", index.args[0], arg)
    r = st.facts.test(tm.not_(has))
    if r is True:
        return True
    want = e.fresh(mk("mval", index.args[0], arg), index.args[0].args[2])
    if table.tag == "map":
        return st.facts.test(tm.not_(mk("mhas", table.args[0], want))) is True
    n = e.seq_len(table)
    if st.facts.test(has) is True and st.facts.test(ge0(sub(want, n))) is True:
        return True
    if kind is not None and st.facts.test(has) is True:
        base = table.args[0][0].args[0] if len(table.args[0]) == 1 and table.args[0][0].tag == "win" else None
        if base is None:
            return None
        el = e.elem(base, want)
        k = e.need_variant(st, el)
        return None if k is None else e.P.variant_name(el.args[1], k) != kind
    return False
