"""C03, from the builders to the context: no path panics, given what the other parts of this machinery prove of the
tables (C15, C16) and of the places an item is taken from."""
import time
from . import terms as tm, report
from .terms import mk, addc, sub, I, is_int, eq0, ge0, walk
from .interp import State
from .build import Fn, Cache, Parts, Lists, functions, guarded, made_of
from .assemble import Hook, roles, KINDS, strip
from .modify import forked, expand, same, fld, vname, inner, refidx

BUILDERS = (("FieldBuilder", "MessageField", ()), ("RpcBuilder", "Rpc", ()), ("EnumBuilder", "EnumInfo", ()),
            ("ServiceBuilder", "Service", (("RpcBuilder", "Rpc"),)), ("MessageBuilder", "MessageInfo", (("FieldBuilder", "MessageField"),)))


# what the discharging of an obligation below takes from obligations decided elsewhere
RESTS_ON = {
    "place": ("the row of an item has its position (idx_path)", "the position in the tree is restored", "every item declared inside is entered, in", "the items inside stay", "the item taken is the one"),
    "number": ("the row of an item has its position (final_idx)",),
    "kind": ("the row of an item has its kind",),
    "own": ("the reference is the position",),
    "names": ("the table of names leads", "the row of an item has its full name", "every item declared inside is entered under"),
    "around": ("a message can be found", "every item declared inside is entered"),
}


def rests(P, deadline):
    """{group: an obligation of it that does not hold}."""
    from . import assemble, build
    every = tuple(x for g in RESTS_ON.values() for x in g)
    r = report.Report("")
    assemble.assembling(r, P, deadline, lambda w: w.startswith(every))
    build.declared(r, P, deadline, lambda w: w.startswith(every))
    return {g: k for g, ws in RESTS_ON.items() for k in r.violations if any(": " + w in k for w in ws)}, r


def building(rep, P, deadline):
    broken, r = rests(P, deadline)
    for k, n in r.proved.items():
        rep.prove("contract: " + k, n)
    for k, n in r.undecided.items():
        rep.undecide("contract: " + k, n)
    for k in r.violations:
        rep.undecide("contract: " + k)
    start = functions(P, "ContextBuilder", "Context")
    if not start:
        rep.undecide("no function builds a Context")
    todo, seen = list(start), set(start)
    while todo:
        i = todo.pop(0)
        with guarded(rep, P, i):
            hook = Hook(P)
            try:
                f = Fn(P, i, deadline, hook)
            finally:
                for j in hook.seen:
                    if j not in seen and hook.role(j)[0] != "build":
                        seen.add(j)
                        todo.append(j)
            r = hook.role(i)
            judge(rep, f, Moving(f, hook, r), broken)
    for own, result, parts in BUILDERS:
        for i in functions(P, own, result):
            with guarded(rep, P, i):
                f = Fn(P, i, deadline, Parts(P, *parts) if parts else None)
                judge(rep, f, Building(f, own), broken)


def judge(rep, f, known, broken):
    e = f.e
    if f.outs and not any(known.possible(st) for st, _ in f.outs):
        rep.undecide("%s: what is taken to hold of the tables leaves no path" % f.name)
        known.without = set(RESTS_ON)
    rep.count("functions that build", 1)
    rep.count("paths", len(f.outs))
    for (fn, site, kind), n in e.checked.items():
        if kind != "unsafe":
            rep.prove("%s: %s" % (f.name, kind), max(0, n - len([o for o in e.obligs if (o.fn, o.site, o.kind) == (fn, site, kind)])))
    for o in e.obligs:
        if o.kind == "unsafe":
            continue
        key = "%s: %s (%s)" % (o.fn, o.kind, o.detail)
        left = known.possible(o.st)
        if not left and broken:
            known.without = set(broken)
            left = known.possible(o.st)
            known.without = set()
            if left and report.definite(e, o) and not e.recs:
                rep.violation(key, "%s at %s\nreachable from %s: %s %s\nbecause this does not hold: %s\npath condition (last 16):\n%s" % (
                    o.fn, o.site, f.name, o.kind, o.detail, "; ".join(sorted(set(broken.values()))),
                    "\n".join("  " + str(c)[:240] for c in left[0].facts.conds()[-16:])))
                continue
        if not left:
            rep.prove("%s: %s, by what holds of the tables" % (f.name, o.kind))
        elif report.definite(e, o) and not e.recs and not known.partly(o):
            rep.violation(key, "%s at %s\nreachable from %s: %s %s\npath condition (last 16):\n%s" % (
                o.fn, o.site, f.name, o.kind, o.detail, "\n".join("  " + str(c)[:240] for c in left[0].facts.conds()[-16:])))
        else:
            rep.undecide(key)


class Known:
    """What holds whenever the function is called."""

    def __init__(self, f):
        self.f, self.e, self.P = f, f.e, f.P
        self.without = set()                # what is not to be relied on (RESTS_ON)

    def cond(self, group, *conds):
        return [] if group in self.without else list(conds)

    def assume(self, st, *conds):
        fa = st.facts
        for c in conds:
            fa = fa.assume(c)
            if fa is None:
                return None
        s = st.fork()
        s.facts = fa
        return s

    def possible(self, st):
        return [s for s, ok in forked(self.e, st, self.holds) if ok is not None and ok]

    def is_kind(self, v, st, *names):
        """The conditions for an enum value to be one of the variants."""
        vs = self.P.adts[self.e.ty(self.e.val_ty(v))["adt"]]["variants"]
        d = self.e.discr(st, v)
        ways = [eq0(addc(d, -x["discr"])) for x in vs if x["name"] in names]
        while len(ways) > 1:
            ways = [ways[0] if ways[0] is tm.TRUE or ways[1] is tm.FALSE else ways[1] if ways[1] is tm.TRUE or ways[0] is tm.FALSE
                    else mk("or", ways[0], ways[1])] + ways[2:]
        return ways[0] if ways else tm.FALSE

    def path_of(self, st, row):
        p = fld(self.e, st, row, "idx_path")
        return p.args[0][0] if p is not None and p.tag == "seq" and len(p.args[0]) == 1 and p.args[0][0].tag == "win" else None

    def partly(self, o):
        """Does what decides the obligation depend on values that are only partly known here?"""
        cs = o.path()
        return bool(cs) and any(self.foreign(x) for x in walk(cs[-1]))

    def foreign(self, x):
        if x.tag in ("made", "filled"):
            return True
        if x.tag in ("el", "slen"):
            b = x.args[0]
            return b.tag == "base" and self.P.types[b.args[1]]["s"] == "usize"
        return False


class Moving(Known):
    """Filling the tables, taking items out and putting the context together."""

    def __init__(self, f, hook, role):
        super().__init__(f)
        self.hook, self.role = hook, role
        self.vals = dict(zip(roles(self.P, f.inst), [f.e.content(State(), a) if a.tag in ("ptr", "sptr") else a for a in f.args]))

    def holds(self, st):
        if self.role is None:
            return self.whole(st)
        if self.role[0] == "take":
            return self.place(st)
        # a position always has the number of the package in front, and the number of the item where items are entered
        idx = self.vals.get("idx")
        if idx is not None and idx.tag == "seq" and "place" not in self.without and self.role[1] != "PackageBuilder":
            return self.fits(st, [ge0(addc(self.e.seq_len(idx), -2))])
        return True

    def fits(self, st, conds):
        fa = st.facts
        for c in conds:
            r = fa.test(c)
            if r is False:
                return False
            fa = fa.assume(c)
            if fa is None:
                return False
        return True

    def place(self, st):
        """The position leads to an item of the tree of the kind asked for."""
        e, own = self.e, self.role[1]
        me, idx = self.vals.get("own"), self.vals.get("idx")
        if me is None or idx is None or idx.tag != "seq" or len(idx.args[0]) != 1 or "place" in self.without:
            return True
        q = idx.args[0][0]
        n = q.args[2]
        if own in ("EnumBuilder", "ServiceBuilder"):
            return self.fits(st, [eq0(n)])
        L = fld(e, st, me, {"MessageBuilder": "inner_types", "PackageBuilder": "types"}.get(own, ""))
        if L is None or L.tag != "seq" or len(L.args[0]) != 1:
            return True
        first = e.elem(q.args[0], q.args[1])
        inside = [ge0(first), ge0(addc(sub(L.args[0][0].args[2], first), -1))]
        if own == "MessageBuilder":
            return self.fits(st, [eq0(n)]) or self.fits(st, [ge0(addc(n, -1))] + inside)
        it = e.elem(L.args[0][0].args[0], first)
        return self.fits(st, [ge0(addc(n, -1))] + inside + self.cond("kind", self.is_kind(it, st, "Service" if self.role[2] == "ServiceBuilder" else "Type")))

    def whole(self, st):
        """Every row has the position of an item of its kind, and what is built of it has its number."""
        e = self.e
        packs = fld(e, st, self.vals["own"], "packages") if "own" in self.vals else None
        if packs is None or packs.tag != "seq" or len(packs.args[0]) != 1:
            return True
        size = I(mk("slen", packs.args[0][0].args[0]))
        conds = []
        for x in {y for c in st.facts.conds() for y in walk(c) if y.tag == "el"}:
            b = x.args[0]
            if b.tag != "base" or not self.P.types[b.args[1]]["s"].endswith("CacheData"):
                continue
            row = e.fresh(x, b.args[1])
            q = self.path_of(st, row)
            ty, fi = fld(e, st, row, "item_type"), fld(e, st, row, "final_idx")
            if q is None or ty is None or fi is None:
                continue
            services = b.args[0].tag == "fld" and self.field(b.args[0].args[2]) == "services"
            first = e.elem(q.args[0], q.args[1])
            conds += self.cond("place", ge0(addc(q.args[2], -2)), ge0(first), ge0(addc(sub(size, first), -1)))
            conds += self.cond("number", eq0(sub(fi, x.args[1]))) + self.cond("kind", self.is_kind(ty, st, *(("Service",) if services else ("Message", "Enum"))))
        for x in self.hook.results:
            m = made_of(x)
            r = self.hook.role(m[0]) if m else None
            rs = roles(self.P, m[0]) if m else ()
            if r is None or r[0] != "build" or "data" not in rs or not any(y is x.args[0] for c in st.facts.conds() for y in walk(c)):
                continue
            fi = fld(e, st, m[1][rs.index("data")], "final_idx")
            v = x
            if e.variant_of(st, v) is None and e.adt_name(e.val_ty(v)).endswith("Result"):
                e.need_variant(st, v)
            if vname(e, st, v) == "Ok":
                v = inner(e, st, v)
            own = refidx(e, st, fld(e, st, v, "self_ref")) if v is not None else None
            if is_int(own) and is_int(fi):
                conds += self.cond("own", eq0(sub(own, fi)))
        return self.fits(st, conds)

    def field(self, i):
        a = next(a for n, a in self.P.adts.items() if n.endswith("::BuildCache"))
        fs = a["variants"][0]["fields"]
        return fs[i] if i < len(fs) else None


class Building(Known):
    """Building an item with its row and the filled tables."""

    def __init__(self, f, own):
        super().__init__(f)
        self.own = own
        self.cache = Cache(f)
        self.data, self.me = f.arg("CacheData"), f.arg(own)

    def possible(self, st):
        out = [st]
        if self.cache.complete() and not self.without & {"names", "kind", "around"}:
            out = self.cache.sound(st)
        return [s for s0 in out for s, ok in forked(self.e, s0, self.holds) if ok]

    def fits(self, st, conds):
        return Moving.fits(self, st, conds)

    def holds(self, st):
        e, c = self.e, self.cache
        if self.data is None or self.me is None or not c.complete():
            return True
        q = self.path_of(st, self.data)
        fi = fld(e, st, self.data, "final_idx")
        if q is None or fi is None:
            return True
        kind = KINDS.get(self.own)
        n = q.args[2]
        conds = self.cond("place", ge0(addc(n, -2)))
        if kind == "Service":
            conds += self.cond("place", eq0(addc(n, -2)))
        if kind is not None:
            table = c.services if kind == "Service" else c.types
            conds += self.cond("number", ge0(addc(sub(I(mk("slen", table)), fi), -1)))
            conds += self.cond("kind", self.is_kind(fld(e, st, self.data, "item_type"), st, kind))
        if not self.fits(st, conds):
            return False
        fa = st.facts
        for x in conds:
            fa = fa.assume(x)
        st = st.fork()
        st.facts = fa
        for x in st.facts.conds():
            neg = x.tag == "not"
            a = x.args[0] if neg else x
            if a.tag != "mhas":
                continue
            m, k = a.args[0], a.args[1]
            if m is c.byidx and "around" not in self.without and self.enclosing(st, k, q):
                # an item inside another: the item around it is a message, and entered
                if neg or not self.fits(st, [self.is_kind(c.entry(m, k)[0], st, "Message")]):
                    return False
            if m is c.items and not self.without & {"names", "around"}:
                it = self.inside(st, k)
                if it is not None:
                    if neg:
                        return False
                    e.need_variant(st, it)
                    if not self.fits(st, [self.is_kind(c.entry(m, k)[0], st, vname(e, st, it))]):
                        return False
        return True

    def enclosing(self, st, k, q):
        """Is the key the position of the item around one that is inside another?"""
        if st.facts.test(ge0(addc(q.args[2], -3))) is not True:
            return False
        want = self.e.mkseq([mk("win", q.args[0], q.args[1], addc(q.args[2], -1))])
        return k.tag == "seq" and same(self.e, st, k, want)

    def inside(self, st, k):
        """The inner item whose full name the key is."""
        e = self.e
        L = fld(e, st, self.me, "inner_types") if self.own == "MessageBuilder" else None
        full = fld(e, st, self.data, "full_name")
        if L is None or full is None or L.tag != "seq" or len(L.args[0]) != 1 or k.tag != "seq":
            return None
        base = L.args[0][0].args[0]
        for x in {y for y in walk(k) if y.tag == "el" and y.args[0] is base}:
            it = e.fresh(x, base.args[1])
            e.need_variant(st, it)
            b = inner(e, st, it)
            name = fld(e, st, b, "name") if b is not None else None
            if name is not None and same(e, st, k, e.mkseq(list(full.args[0]) + [mk("cst", b".")] + list(name.args[0]))):
                return it
        return None
