"""Analysis of the functions that enter the items into the name cache, take them out of the builders again and put the context
together.  Starting from the function that makes a Context of a ContextBuilder, every function that works on a part of a builder is
replaced by a symbol for its effect where it is called and analysed by itself, from arbitrary arguments."""
from . import terms as tm
from .terms import mk, num, add, sub, addc, I, is_int, cval, ge0, eq0, ZERO, ONE, walk
from .interp import State
from .build import Fn, Verdicts, Lists, Parts, arg_names, functions, peel, made_of, whole, replaced, phis_of, guarded
from .modify import expand, same, fld, vname, inner, refidx, forked
from .pairs import tyname, result_of
from .world import World, Unevaluable

PARTS = ("PackageBuilder", "ProtobufItemBuilder", "ProtobufTypeBuilder", "MessageBuilder", "EnumBuilder", "ServiceBuilder", "InnerTypeBuilder")
KINDS = {"MessageBuilder": "Message", "EnumBuilder": "Enum", "ServiceBuilder": "Service"}
DONE = {("MessageBuilder", "MessageInfo"), ("EnumBuilder", "EnumInfo"), ("ServiceBuilder", "Service")}


def roles(P, inst):
    """What the arguments are: 'own', 'cache', 'path', 'idx', 'data' by position, None for others."""
    b = P.body(inst)
    out = []
    for k in range(b.argc):
        t = peel(P, b.locals[k + 1])
        ty = P.types[t]
        n = tyname(P, t)
        r = None
        if k == 0 and (n in PARTS or n == "ContextBuilder"):
            r = "own"
        elif n == "BuildCache":
            r = "cache"
        elif n == "CacheData":
            r = "data"
        else:
            el = ty["args"][0] if ty["k"] == "adt" and n == "Vec" else ty["elem"] if ty["k"] in ("slice", "array") else None
            if el is not None:
                s = P.types[peel(P, el)]
                r = "idx" if s["s"] == "usize" else "path" if s["s"] in ("str", "std::string::String") else None
        out.append(r)
    return out


def role_of(P, inst):
    """('fill', own), ('take', own, result) or ('build', own, result) of a function that works on a part."""
    x = P.insts[inst]
    if not x or not x["local"] or P.body(inst) is None or "{closure" in x["name"] or " as " in x["name"]:
        return None
    ns = arg_names(P, inst)
    if not ns or ns[0] not in PARTS:
        return None
    b = P.body(inst)
    res = tyname(P, result_of(P, b.locals[0])[0])
    if (ns[0], res) in DONE:
        return "build", ns[0], res
    if res in ("ProtobufTypeBuilder", "ServiceBuilder"):
        return "take", ns[0], res
    if any(n == "BuildCache" and P.types[b.locals[k + 1]].get("mut") for k, n in enumerate(ns)):
        return "fill", ns[0]
    return None


class Hook:
    def __init__(self, P):
        self.P = P
        self.results, self.seen = [], []
        self.roles = {}

    def role(self, i):
        if i not in self.roles:
            self.roles[i] = role_of(self.P, i)
        return self.roles[i]

    def __call__(self, f, fr, inst, args, st, rt):
        r = self.role(inst)
        if r is None:
            return None
        e = f.e
        vals = tuple(e.content(st, a) if a.tag in ("ptr", "sptr") else a for a in args)
        if vals[0] is f.e.content(State(), f.args[0]) or same(e, st, vals[0], self.own(f)):
            return None                                 # a helper that works on the same part
        if inst not in self.seen:
            self.seen.append(inst)
        x = e.fresh(mk("made", inst, *vals), self.P.body(inst).locals[0])
        if x not in self.results:
            self.results.append(x)
        if r[0] == "fill":
            st = st.fork()
            k = roles(self.P, inst).index("cache")
            new = e.fresh(mk("filled", inst, *vals), peel(self.P, self.P.body(inst).locals[k + 1]))
            e.write(st, args[k].args[0], args[k].args[1], new)
        return [(st, x)]

    def own(self, f):
        return f.e.content(State(), f.args[0])


def assembling(rep, P, deadline, topic=None):
    start = functions(P, "ContextBuilder", "Context")
    if not start:
        rep.undecide("no function builds a Context")
    todo, seen = list(start), set(start)
    while todo:
        i = todo.pop(0)
        with guarded(rep, P, i):
            hook = Hook(P)
            try:
                f = Fn(P, i, deadline, hook)
            finally:
                for j in hook.seen:
                    if j not in seen and hook.role(j)[0] != "build":
                        seen.add(j)
                        todo.append(j)
            V = Verdicts(rep, f, topic)
            rep.count("functions", 1)
            rep.count("paths", len(f.outs))
            rep.count("loops", len(f.e.loops))
            rep.sample("%s: %d paths, %d loops" % (f.name, len(f.outs), len(f.e.loops)))
            r = hook.role(i)
            J = Judge(V, hook, roles(P, i))
            for st, var, v in f.results():
                if r is None:
                    J.context(st, var, v)
                elif r[0] == "fill":
                    J.fill(st, var, v, r[1])
                else:
                    J.take(st, var, v, r[1])


class Judge:
    def __init__(self, V, hook, rs):
        self.V, self.f, self.e, self.hook, self.P = V, V.f, V.f.e, hook, V.f.P
        self.l = Lists(V)
        self.rs = rs
        s0 = State()
        self.arg = {r: self.e.content(s0, self.f.args[k]) for k, r in enumerate(rs) if r is not None and rs.count(r) == 1}
        self.pos = {r: k for k, r in enumerate(rs) if r is not None}

    # -------------------------------------------------------------- the tables of the cache

    def table(self, t):
        """(root, operations or elements added) of a table."""
        if t is None:
            return None
        if t.tag == "map":
            n = t.args[0]
            if n.tag == "empty":
                return "empty", t.args[1]
            return (strip(n.args[0]), t.args[1]) if n.tag == "mbase" else None
        if t.tag == "seq":
            ps = list(t.args[0])
            root = "empty"
            if ps and ps[0].tag == "win":
                if not whole(ps[0]):
                    return None
                root = strip(ps[0].args[0].args[0])
                ps.pop(0)
            new = []
            for p in ps:
                if p.tag != "lit":
                    return None
                new += p.args[0]
            return root, tuple(new)
        return None

    def tables(self, st, c):
        """The root of a cache and what was entered since: (root, {table: additions})."""
        out, root = {}, None
        for n in ("items", "items_by_idx", "types", "services"):
            t = self.table(fld(self.e, st, c, n))
            if t is None:
                return None
            r, new = t
            if root is not None and r != root and not (r == "empty" or root == "empty"):
                return None
            if root is None or root == "empty":
                root = r
            out[n] = new
        for n in out:
            r, _ = self.table(fld(self.e, st, c, n))
            if r != root:
                return None
        return root, out

    def history(self, st, c):
        """What happened to the cache, latest first: ('enter', root, additions), ('fill', instance, values), ('loop', loop, slot); then
        how it began: the root."""
        out = []
        for _ in range(12):
            t = self.tables(st, c)
            if t is None:
                return None
            root, new = t
            if any(new.values()):
                out.append(("enter", root, new))
            if root == "empty":
                return out, "empty"
            if root.tag == "filled":
                out.append(("fill", root.args[0], root.args[1:]))
                k = roles(self.P, root.args[0]).index("cache")
                c = root.args[1:][k]
                continue
            if root.tag == "phi":
                ls = next(((L, s) for L in self.e.loops for s in L.slots if s.kind == "any" and s.head.tag == "sym" and s.head.args[0] is root), None)
                if ls is None or ls[1].init is None:
                    return None
                out.append(("loop",) + ls)
                c = ls[1].init
                continue
            return out, root
        return None

    # -------------------------------------------------------------- names

    def text_of(self, st, x):
        """The text an element of the path stands for."""
        c = self.e.content(st, x) if x.tag in ("sptr", "ptr") else x
        return c if c.tag == "seq" else None

    def is_name(self, st, key, path, name):
        """Is the key the path joined with the name by dots?"""
        e = self.e
        if key is None or key.tag != "seq" or path is None or path.tag != "seq":
            return None
        if len(key.args[0]) == 1 and key.args[0][0].tag == "win" and whole(key.args[0][0]):
            j = key.args[0][0].args[0].args[0]
            if getattr(j, "tag", None) == "join" and j.args[1].tag == "seq" and j.args[1].args[0] == (mk("cst", b"."),):
                r = self.is_path(st, j.args[0], path, name)
                if r is not None:
                    return r
        return False if self.names_differ(st, key, path, name) else None

    def is_path(self, st, got, path, name):
        """Is the list the path followed by the name (or the path itself)?"""
        if got is None or got.tag != "seq":
            return None
        got = self.l.plain(st, got)
        if len(got.args[0]) == 1 and got.args[0][0].tag == "win" and whole(got.args[0][0]) and self.l.loop(got.args[0][0].args[0]):
            return self.rebuilt(st, got.args[0][0].args[0], path, name)
        a, b = list(got.args[0]), list(path.args[0])
        if name is not None:
            last = a[-1] if a and a[-1].tag == "lit" else None
            if last is None:
                return False if exact_list(got) else None
            t = self.text_of(st, last.args[0][-1])
            if t is None:
                return None
            if not same(self.e, st, t, name):
                return False
            a = a[:-1] + ([mk("lit", last.args[0][:-1])] if len(last.args[0]) > 1 else [])
        if a == b or same(self.e, st, mk("seq", tuple(a)), mk("seq", tuple(b))):
            return True
        return False if exact_list(got) and exact_list(path) else None

    def rebuilt(self, st, base, path, name):
        """Is the list a loop made the path followed by the name?"""
        e = self.e
        L, slot = self.l.loop(base)
        if len(path.args[0]) != 1 or path.args[0][0].tag != "win" or slot.kind != "seq" or slot.init is None or slot.init.args[0] or not slot.added:
            return None
        q = path.args[0][0]
        i, ok, _ = self.l.over(st, L, addc(q.args[2], 0 if name is None else 1))
        if ok is not True:
            return None
        for k, items in slot.added:
            if not items or len(items) != 1 or items[0].tag != "lit" or len(items[0].args[0]) != 1:
                return None
            b = L.backs[k]
            t = self.text_of(b, items[0].args[0][0])
            if b.facts.test(ge0(addc(sub(q.args[2], i), -1))) is True:
                want = self.text_of(b, e.elem(q.args[0], add(i, q.args[1])))
            elif name is not None and b.facts.test(eq0(sub(q.args[2], i))) is True:
                want = name
            else:
                return None
            if t is None or want is None or not same(e, b, t, want):
                return None
        return True

    def names_differ(self, st, key, path, name):
        """Is there a path and a name for which the key is another one?"""
        pb = path.args[0][0].args[0] if len(path.args[0]) == 1 and path.args[0][0].tag == "win" else None
        nb = name.args[0][0].args[0] if len(name.args[0]) == 1 and name.args[0][0].tag == "win" else None
        if pb is None or nb is None:
            return False
        for ps in ([], [b"a"], [b"a", b"b"]):
            w = World({nb: b"n"}, {}, {pb: ps}, lambda x: self.text_of(st, x))
            try:
                if w.allows([c for c in st.facts.conds() if not mentions_any(c, "made")]) and w.text(key) != b".".join(ps + [b"n"]):
                    return True
            except Unevaluable:
                continue
        return False

    # -------------------------------------------------------------- fill

    def fill(self, st, var, v, own):
        V, e = self.V, self.e
        if var == "Err":
            return self.refused(st, own)
        if var is None and made_of(v) is None:
            return V.ok(None, st, "the result")
        A = self.arg
        if A.get("own") is None or A.get("cache") is None or A.get("idx") is None:
            return V.ok(None, st, "the arguments")
        for r in ("path", "idx"):
            if r in A and self.P.types[self.P.body(self.f.inst).locals[self.pos[r] + 1]].get("mut"):
                now = e.content(st, self.f.args[self.pos[r]])
                ok = same(e, st, now, A[r])
                V.ok(ok if ok or exact_list(now) else None, st, "the position in the tree is restored afterwards", "%s: %s" % (r, str(now)[:300]))
        h = self.history(st, e.content(st, self.f.args[self.pos["cache"]]))
        if h is None:
            return V.ok(None, st, "what is entered", "changes of the tables not recognised")
        ev, began = h
        c0 = A["cache"]
        if began is not (c0.args[0] if c0.tag == "sym" else None):
            return V.ok(None, st, "what is entered", "changes of the tables not recognised")
        kind = KINDS.get(own)
        enters = [x for x in ev if x[0] == "enter"]
        rest = [x for x in ev if x[0] != "enter"]
        what = "every item is entered into the tables once"
        if kind is None:
            V.ok(not enters, st, what, "something else is entered: %s" % str(enters)[:300])
        elif not enters:
            V.ok(False, st, what, "not at all")
        elif len(enters) != 1:
            # in parts, before and after the items inside: what counts is where the row ends up
            rows = [x for x in enters if x[2]["types"] or x[2]["services"]]
            new = {n: [y for x in reversed(enters) for y in x[2][n]] for n in enters[0][2]}
            if len(rows) != 1:
                V.ok(False if not rows else None, st, what, "%d times" % len(rows))
            else:
                V.ok(True, st, what)
                self.entered(st, ("enter", rows[0][1], new), kind)
        else:
            V.ok(True, st, what)
            self.entered(st, enters[0], kind)
        what = "every item declared inside is entered, in order, with its own position"
        if own in ("MessageBuilder", "PackageBuilder"):
            src = fld(e, st, A["own"], "inner_types" if kind else "types")
            if kind:
                name = fld(e, st, A["own"], "name")
                path = lambda s, p: self.is_path(s, p, A["path"], name) if "path" in A else None
            else:
                path = lambda s, p: self.pieces(s, p)
            self.children(st, rest, src, path, A["idx"], what, ())
        elif kind is None:
            if len(rest) != 1 or rest[0][0] != "fill":
                V.ok(None if rest else False, st, what, str(rest)[:300])
            else:
                self.call(st, rest[0], A["own"], lambda s, p: self.is_path(s, p, A["path"], None) if "path" in A else None, A["idx"], None, what)
        else:
            V.ok(not rest, st, what, "items inside an item that has none")

    def entered(self, st, ev, kind):
        V, e, A = self.V, self.e, self.arg
        _, root, new = ev
        name = fld(e, st, A["own"], "name")
        tab = "services" if kind == "Service" else "types"
        other = "types" if kind == "Service" else "services"
        w = "the table of names leads to the item's position in the table of its kind"
        rows = new[tab]
        if len(rows) != 1 or new[other] or len(new["items"]) != 1:
            return V.ok(False, st, w, "entered: %s" % str(new)[:500])
        at = I(mk("slen", e.base(self.named(root, tab), self.row_ty(tab))))
        o, row = new["items"][0], rows[0]
        if o.tag != "ins":
            return V.ok(None, st, w, str(o)[:200])
        val = expand(e, st, o.args[1])
        kt, pos = val.args[2] if val.tag == "agg" and len(val.args[2]) == 2 else (None, None)
        V.ok(None if kt is None else vname(e, st, kt) == kind and self.same_int(st, pos, at), st, w, "%s where the item is number %s" % (str(val)[:300], str(at)[:200]))
        V.ok(self.is_name(st, o.args[0], A.get("path"), name), st, "the full name is the path and the name joined by dots", str(o.args[0])[:400])
        # the row
        for n, want in (("idx_path", A["idx"]), ("final_idx", at)):
            x = fld(e, st, row, n)
            V.ok(None if x is None else same(e, st, x, want), st, "the row of an item has its position (%s)" % n, "%s\nshould be %s" % (str(x)[:300], str(want)[:300]))
        x = fld(e, st, row, "full_name")
        V.ok(None if x is None else True if same(e, st, x, o.args[0]) else self.is_name(st, x, A.get("path"), name), st, "the row of an item has its full name", str(x)[:300])
        x = fld(e, st, row, "item_type")
        V.ok(None if x is None else vname(e, st, x) == kind, st, "the row of an item has its kind", str(x)[:100])
        V.ok(self.free(st, o.args[0]), st, "an item is only entered where its name is free", str(o.args[0])[:300])
        # by position
        by = new["items_by_idx"]
        w = "a message can be found by its position in the tree"
        if kind == "Message" or by:
            if len(by) != 1 or by[0].tag != "ins":
                return V.ok(False if not by else None, st, w, str(by)[:300])
            val = expand(e, st, by[0].args[1])
            kt, pos = val.args[2] if val.tag == "agg" and len(val.args[2]) == 2 else (None, None)
            V.ok(None if kt is None else same(e, st, by[0].args[0], A["idx"]) and vname(e, st, kt) == kind and self.same_int(st, pos, at), st, w, str(by)[:400])

    def same_int(self, st, a, b):
        return a is not None and is_int(a) and st.facts.test(eq0(sub(a, b))) is True

    def free(self, st, key):
        """Do the facts say that the name is not in the table?"""
        out = False
        for c in st.facts.conds():
            neg = c.tag == "not"
            a = c.args[0] if neg else c
            if a.tag == "mhas" and (a.args[1] is key or same(self.e, st, a.args[1], key)):
                out = out or neg
        return out

    def named(self, root, n):
        """The name of a table of the cache at a root."""
        ty = next(t for t in range(len(self.P.types)) if self.P.types[t]["k"] == "adt" and self.P.types[t]["adt"].endswith("::BuildCache"))
        x = fld(self.e, State(), self.e.fresh(root, ty), n)
        return x.args[0][0].args[0].args[0] if x.tag == "seq" else x.args[0].args[0]

    def row_ty(self, tab):
        ty = next(t for t in range(len(self.P.types)) if self.P.types[t]["k"] == "adt" and self.P.types[t]["adt"].endswith("::CacheData"))
        return ty

    def pieces(self, st, got):
        """Is the path the parts of the package's name?"""
        e = self.e
        got = self.l.plain(st, got)
        n = fld(e, st, self.arg["own"], "name")
        if n is None or e.need_variant(st, n) is None:
            return None
        if vname(e, st, n) == "None":
            return True if not got.args[0] else False if exact_list(got) else None
        name = inner(e, st, n)
        if not got.args[0]:
            return False
        if len(got.args[0]) == 1 and got.args[0][0].tag == "lit" and len(got.args[0][0].args[0]) == 1:
            t = self.text_of(st, got.args[0][0].args[0][0])
            return None if t is None else same(e, st, t, name)
        p = got.args[0][0]
        if len(got.args[0]) != 1 or p.tag != "win" or not whole(p):
            return None
        b = p.args[0]
        ls = self.l.loop(b)
        if ls is not None:
            L, slot = ls
            els = set()
            for k, items in slot.added:
                if items == () and slot.init is not None and not slot.init.args[0] and not L.imprecise and not L.backs[k].facts.imp:
                    # a part of the name that is left out, though there is something in it
                    for x in {y for c in L.backs[k].facts.conds() for y in walk(c) if y.tag == "el" and y.args[0].args[0].tag == "strsplit"}:
                        t = self.text_of(L.backs[k], e.fresh(x, x.args[0].args[1]))
                        if t is not None and L.backs[k].facts.assume(ge0(addc(e.seq_len(t), -1))) is not None:
                            return False
                if items is None or len(items) != 1 or items[0].tag != "lit" or len(items[0].args[0]) != 1:
                    return None
                x = items[0].args[0][0]
                els |= {y for y in walk(x) if y.tag == "el" and y.args[0].args[0].tag == "strsplit"}
            if len(els) != 1 or slot.init is None or slot.init.args[0]:
                return None
            el = next(iter(els))
            b = el.args[0]
            i, ok, why = self.l.over(st, L, I(mk("slen", b)))
            if ok is not True or not same(e, st, i, el.args[1]):
                return ok if ok is False else None
        s = b.args[0]
        if getattr(s, "tag", None) != "strsplit" or s.args[0] != "str.split":
            return None
        sep = s.args[2]
        return same(e, st, s.args[1], name) and tuple(cval(x) if is_int(x) else x for x in (sep if isinstance(sep, tuple) else (sep,))) == (46,)

    def children(self, st, rest, src, path, idx, what, _):
        V, e = self.V, self.e
        if src is None or src.tag != "seq" or len(src.args[0]) != 1:
            return V.ok(None, st, what, "items not recognised")
        q = src.args[0][0]
        if not rest:
            return V.ok(st.facts.test(eq0(q.args[2])) is True, st, what, "nothing inside is entered")
        if len(rest) != 1 or rest[0][0] != "loop":
            return V.ok(None, st, what, "search for the items inside not recognised")
        _, L, slot = rest[0]
        i, ok, why = self.l.over(st, L, q.args[2])
        if ok is not True:
            return V.ok(ok, st, what, why)
        for k, b in enumerate(L.backs):
            now = slot.vals.get(k)
            h = self.history(b, now) if now is not None else None
            # the history of an iteration ends at the head of the loop
            steps = []
            if h is not None:
                for x in h[0]:
                    if x[0] == "loop" and x[1] is L:
                        break
                    steps.append(x)
            if h is None:
                V.ok(None, b, what, "what an iteration enters is not recognised")
            elif not steps:
                V.ok(False, b, what, "an item inside is left out")
            elif len(steps) != 1 or steps[0][0] != "fill":
                V.ok(None, b, what, "what an iteration enters is not recognised")
            else:
                self.call(b, steps[0], e.elem(q.args[0], add(i, q.args[1])), path, idx, i, what)

    def call(self, st, ev, item, path, idx, i, what):
        """Is the part entered by the call the item, with its path and its position?"""
        V, e = self.V, self.e
        _, inst, vals = ev
        rs = roles(self.P, inst)
        for r, x in zip(rs, vals):
            if r == "own":
                ok = x is item or same(e, st, x, item) or (item.tag == "sym" and x.tag == "sym" and strip(x.args[0]) is strip(item.args[0]) and x.args[1] != item.args[1])
                if not ok and self.counts_alike(st, x, i):
                    ok = None
                V.ok(ok, st, what, "%s is entered for %s" % (str(x)[:300], str(item)[:200]))
            elif r == "path":
                V.ok(path(st, x), st, "every item declared inside is entered under the names around it", "path: %s" % str(x)[:300])
            elif r == "idx":
                want = e.mkseq(list(idx.args[0]) + ([mk("lit", (i,))] if i is not None else []))
                ok = x.tag == "seq" and same(e, st, x, want)
                V.ok(ok if ok or exact_list(x) and not self.counts_alike(st, x, i) else None, st, what, "position: %s\nshould be %s" % (str(x)[:300], str(want)[:300]))
            elif r != "cache":
                V.ok(None, st, what, "argument not understood: %s" % str(x)[:200])

    def counts_alike(self, st, x, i):
        """Does x depend on a counter of a loop that may well be the one that counts the items?"""
        mine = phis_of(self.e, i) if i is not None else set()
        for L in self.e.loops:
            for s in L.slots:
                if s.phi is None or s.phi in mine or s.kind != "int" or s.phi not in phis_of(self.e, x):
                    continue
                steps = [sub(sb.get(s.phi, I(s.phi)), I(s.phi)) for sb in L.substs]
                if s.init is None or L.imprecise or cval(s.init) == 0 and all(cval(d) is None or cval(d) == 1 for d in steps):
                    return True
        return False

    def refused(self, st, own):
        V, e, A = self.V, self.e, self.arg
        what = "an item is only refused where its name is taken or a part is refused"
        if any(st.facts.test(eq0(e.discr(st, x))) is False for x in self.hook.results if e.kind(x.args[1]) == "adt"):
            return V.ok(True, st, what)
        name = fld(e, st, A["own"], "name") if own in KINDS and "own" in A else None
        for c in st.facts.conds():
            if c.tag == "mhas" and name is not None:
                k = c.args[1]
                if k.tag == "seq" and ("idx" in A and same(e, st, k, A["idx"]) or self.is_name(st, k, A.get("path"), name) is True):
                    return V.ok(True, st, what)
        V.ok(False if not any(c.tag == "mhas" for c in st.facts.conds()) else None, st, what)

    # -------------------------------------------------------------- take

    def take(self, st, var, v, own):
        V, e, A = self.V, self.e, self.arg
        me, idx = A.get("own"), A.get("idx")
        if me is None or idx is None or idx.tag != "seq" or len(idx.args[0]) != 1:
            return V.ok(None, st, "the arguments")
        q = idx.args[0][0]
        n = q.args[2]
        m = made_of(v)
        what = "the item taken is the one at the position"
        if m is None and own in KINDS:
            V.ok(st.facts.test(eq0(n)) is True, st, what, "an item itself is taken for the position %s" % str(idx)[:200])
            return self.itself(st, v, own, me)
        if m is None and own == "PackageBuilder" and e.adt_name(e.val_ty(v)).endswith("ServiceBuilder"):
            L = fld(e, st, me, "types")
            if L is None or L.tag != "seq" or len(L.args[0]) != 1:
                return V.ok(None, st, what, "items not recognised")
            item = inner(e, st, e.elem(L.args[0][0].args[0], e.elem(q.args[0], q.args[1])))
            r = None if item is None else same(e, st, v, item)
            return V.ok(True if r else None if r is None or v.tag != "sym" else False, st, what, "%s is taken for %s" % (str(v)[:300], str(item)[:200]))
        if m is None:
            return V.ok(None, st, what, str(v)[:200])
        rs = roles(self.P, m[0])
        vals = dict(zip(rs, m[1]))
        if set(rs) != {"own", "idx"} or self.hook.role(m[0])[0] != "take":
            return V.ok(None, st, what, "call not understood")
        if own in ("InnerTypeBuilder", "ProtobufTypeBuilder", "ProtobufItemBuilder"):
            item, rest = me, idx
        else:
            L = fld(e, st, me, "inner_types" if own in KINDS else "types")
            if L is None or L.tag != "seq" or len(L.args[0]) != 1:
                return V.ok(None, st, what, "items not recognised")
            item = e.elem(L.args[0][0].args[0], e.elem(q.args[0], q.args[1]))
            rest = e.mkseq([mk("win", q.args[0], addc(q.args[1], 1), addc(n, -1))])
        x = vals["own"]
        V.ok(x is item or same(e, st, x, item) or item.tag == x.tag == "sym" and strip(x.args[0]) is strip(item.args[0]), st, what,
             "%s is taken for %s" % (str(x)[:300], str(item)[:200]))
        y = vals["idx"]
        V.ok(y.tag == "seq" and same(e, st, y, rest), st, what, "with the rest of the position %s\nshould be %s" % (str(y)[:300], str(rest)[:200]))

    def itself(self, st, v, own, me):
        """Is the builder handed out the one asked for, with the names of its parts still in place?"""
        V, e = self.V, self.e
        k = vname(e, st, v)
        what = "the item handed out is complete"
        x = v
        if e.adt_name(e.val_ty(v)).endswith("ProtobufTypeBuilder"):
            V.ok(None if k is None else k == KINDS[own], st, what, "handed out as %s" % k)
            x = inner(e, st, v)
        if x is None:
            return V.ok(None, st, what, str(v)[:200])
        names = self.P.adts[e.ty(e.val_ty(expand(e, st, x)))["adt"]]["variants"][0]["fields"]
        for n in names:
            a, b = fld(e, st, x, n), fld(e, st, me, n)
            if n == "inner_types":
                now = self.e.content(st, self.f.args[0])
                V.ok(same(e, st, fld(e, st, now, n), b), st, "the items inside stay where they are until they are taken", str(fld(e, st, now, n))[:300])
                if not same(e, st, a, b):
                    self.l.seq(st, a, b, self.like, what)
                continue
            V.eq(st, a, b, what)

    def like(self, st, x, y, i):
        """A stand-in with the same kind and name."""
        e = self.e
        out = True
        for s, k in forked(e, st, lambda t: (e.need_variant(t, y), vname(e, t, y))[1]):
            if k is None or vname(e, s, x) is None:
                return None, "item not recognised"
            if vname(e, s, x) != k:
                return False, "%s for %s" % (vname(e, s, x), k)
            if not same(e, s, fld(e, s, inner(e, s, x), "name"), fld(e, s, inner(e, s, y), "name")):
                return False, "another name: %s" % str(x)[:300]
        return out

    # -------------------------------------------------------------- the context

    def context(self, st, var, v):
        V, e = self.V, self.e
        if var != "Ok":
            return V.ok(None if var is None else any(st.facts.test(eq0(e.discr(st, x))) is False for x in self.hook.results if e.kind(x.args[1]) == "adt"), st,
                        "a context is only refused where one of its parts is")
        types, services = fld(e, st, v, "types"), fld(e, st, v, "services")
        packs = fld(e, st, self.arg["own"], "packages") if "own" in self.arg else None
        if None in (types, services, packs) or packs.tag != "seq" or len(packs.args[0]) != 1:
            return V.ok(None, st, "the tables of the context")
        self.packs = packs.args[0][0].args[0]
        cache = self.the_cache()
        if cache is None:
            V.ok(None, st, "every package is entered into the tables", "tables not recognised")
        else:
            self.filled(st, cache, packs)
            for n, got in (("types", types), ("services", services)):
                src = fld(e, st, cache, n)
                self.l.seq(st, got, src, lambda s, x, y, i, n=n: self.item(s, x, y, cache, n), "every item entered is built from its own builder, in order (%s)" % n)
        for n, got, src in (("types_by_name", "types", types), ("services_by_name", "services", services)):
            self.l.map(st, fld(e, st, v, n), src, lambda s, x, i: self.full_name(s, x), lambda s, x, i: i, "every item of the context is listed under its full name (%s)" % got)
        self.packages(st, fld(e, st, v, "packages"), packs, types, services)

    def the_cache(self):
        """The filled cache the parts are built with."""
        cs = []
        for x in self.hook.results:
            m = made_of(x)
            if m and self.hook.role(m[0])[0] == "build":
                rs = roles(self.P, m[0])
                if "cache" in rs and m[1][rs.index("cache")] not in cs:
                    cs.append(m[1][rs.index("cache")])
        return cs[0] if len(cs) == 1 else None

    def filled(self, st, cache, packs):
        V, e = self.V, self.e
        what = "every package is entered into the tables, which are empty at first"
        h = self.history(st, cache)
        if h is None:
            return V.ok(None, st, what, "changes of the tables not recognised")
        ev, began = h
        if began != "empty" or any(x[0] == "enter" for x in ev):
            return V.ok(None if began != "empty" else False, st, what, "tables: %s" % str(began)[:200])
        self.children(st, ev, packs, lambda s, p: None, e.mkseq([]), what, ())

    def item(self, st, x, row, cache, n):
        """Is x what is built of the builder at the row's position? (The row's kind is the kind of
        that builder: populate enters it so.)"""
        e = self.e
        if n == "types":
            k = vname(e, st, x)
            if k is None:
                return None, "item not recognised: %s" % str(x)[:200]
            x = inner(e, st, x)
        else:
            k = "Service"
        m = made_of(x) if x is not None else None
        if m is None or self.hook.role(m[0])[0] != "build":
            return None, "not built by a known function: %s" % str(x)[:200]
        want = {"Message": "MessageBuilder", "Enum": "EnumBuilder", "Service": "ServiceBuilder"}[k]
        if self.hook.role(m[0])[1] != want:
            return False, "built by the function for another kind"
        rs = roles(self.P, m[0])
        vals = dict(zip(rs, m[1]))
        if set(rs) != {"own", "data", "cache"}:
            return None, "arguments not understood"
        if not same(e, st, vals["data"], row):
            return False, "built with the row %s and not %s" % (str(vals["data"])[:200], str(row)[:200])
        t = vals["own"]
        if t.tag != "sym":
            return None, "builder not recognised: %s" % str(t)[:200]
        src = strip(t.args[0])
        if src.tag != "made" or self.hook.role(src.args[0])[0] != "take":
            return None, "builder not recognised: %s" % str(t)[:200]
        rs = roles(self.P, src.args[0])
        vals = dict(zip(rs, src.args[1:]))
        if set(rs) != {"own", "idx"}:
            return None, "arguments not understood"
        ip = fld(e, st, row, "idx_path")
        if ip is None or ip.tag != "seq" or len(ip.args[0]) != 1:
            return None, "position not recognised"
        q = ip.args[0][0]
        pk = e.elem(self.packs, e.elem(q.args[0], q.args[1]))
        rest = e.mkseq([mk("win", q.args[0], addc(q.args[1], 1), addc(q.args[2], -1))])
        if not same(e, st, vals["own"], pk):
            return False, "taken from the package %s and not %s" % (str(vals["own"])[:200], str(pk)[:200])
        if not same(e, st, vals["idx"], rest):
            return False, "taken from the position %s and not %s" % (str(vals["idx"])[:200], str(rest)[:200])
        return True

    def full_name(self, st, x):
        e = self.e
        if e.adt_name(e.val_ty(x)).endswith("TypeInfo"):
            e.need_variant(st, x)
            if vname(e, st, x) is None:
                return None
            x = inner(e, st, x)
        m = made_of(x)
        own = fld(e, st, x, "full_name")
        if m is not None and self.hook.role(m[0]) is not None and self.hook.role(m[0])[0] == "build":
            rs = roles(self.P, m[0])         # an item built has the name of its row
            if "data" in rs:
                return own, fld(e, st, m[1][rs.index("data")], "full_name")
        return own

    def packages(self, st, got, packs, types, services):
        V, e, l = self.V, self.e, self.l
        what = "every package declared is listed, in order"
        done = {}
        for _ in range(6):
            if got is None or got.tag != "seq" or len(got.args[0]) != 1 or got.args[0][0].tag != "win":
                break
            ls = l.loop(got.args[0][0].args[0])
            if ls is None or ls[1].init is not None:
                break
            L, slot = ls
            before = L.entry.mem.get(slot.key[0]) if L.entry is not None and len(slot.key) == 1 else None
            if before is None or before.tag != "seq":
                return V.ok(None, st, what, "list not recognised")
            n = self.spread(st, L, slot, got.args[0][0].args[0], types, services)
            if n is None:
                return V.ok(None, st, what, "what a loop does to the packages is not recognised")
            if n in done:
                V.ok(False, st, "the %s of a package are listed once" % n)
            done[n] = True
            got = before

        def one(s, x, y, i):
            V.eq(s, fld(e, s, x, "name"), fld(e, s, y, "name"), "the name of a package is the one declared")
            r = fld(e, s, x, "self_ref")
            V.eq(s, refidx(e, s, r) if r is not None else None, i, "the reference of a package is its position")
            for n in ("types", "services"):
                z = fld(e, s, x, n)
                if n not in done:
                    V.ok(None if z is None or z.args[0] else False, s, "a package lists the %s declared in it, in order" % n, "none are listed")
                else:
                    V.ok(None if z is None else not z.args[0], s, "a package lists nothing at first", str(z)[:200])
            return True
        l.seq(st, got, packs, one, what)

    def spread(self, st, L, slot, B, types, services):
        """A loop that enters every item of a list into the list of its package; the list that is filled."""
        V, e = self.V, self.e
        news = []
        name = None
        for k, b in enumerate(L.backs):
            val = slot.vals.get(k)
            if val is None or val.tag != "seq":
                return None
            lits = [(p, off) for p, off in offsets(val) if p.tag == "lit"]
            if not lits:
                if replaced(e, b, val, B, ZERO) is None:
                    return None
                news.append((b, None, None))
                continue
            if len(lits) != 1 or len(lits[0][0].args[0]) != 1:
                return None
            j = lits[0][1]
            x = replaced(e, b, val, B, j)
            if x is None:
                return None
            for n in ("types", "services"):
                if not same(e, b, fld(e, b, x, n), fld(e, b, e.elem(B, j), n)):
                    if name not in (None, n):
                        return None
                    name = n
            news.append((b, j, x))
        if name is None:
            return None
        src = types if name == "types" else services
        what = "a package lists the %s declared in it, in order" % name
        i, ok, why = self.l.over(st, L, e.seq_len(src))
        if ok is not True:
            V.ok(ok, st, what, why)
            return name
        for b, j, x in news:
            y, _ = self.l.at(b, src, i)
            if y is None:
                V.ok(None, b, what, "item not recognised")
                continue
            for s, pk in forked(e, b, lambda t: self.parent_of(t, y, name)):
                if pk is None:
                    V.ok(None, s, what, "parent not recognised")
                    continue
                if j is None:
                    V.ok(pk == "none", s, what, "an item of the package is left out: %s" % str(y)[:200])
                    continue
                if pk == "none":
                    V.ok(False, s, what, "an item inside a message is listed by a package")
                    continue
                V.ok(self.same_int(s, pk, j), s, what, "listed by the package %s and not %s" % (str(j)[:200], str(pk)[:200]))
                old = e.elem(B, j)
                for n in ("name", "self_ref", "types", "services"):
                    if n != name:
                        V.eq(s, fld(e, s, x, n), fld(e, s, old, n), "nothing else of the package changes")
                a, o = fld(e, s, x, name), fld(e, s, old, name)
                ps = list(a.args[0]) if a is not None and a.tag == "seq" else []
                if o is None or len(ps) != len(o.args[0]) + 1 or tuple(ps[:-1]) != tuple(o.args[0]) or ps[-1].tag != "lit" or len(ps[-1].args[0]) != 1:
                    V.ok(None, s, what, "what is listed is not recognised: %s" % str(a)[:300])
                    continue
                z = ps[-1].args[0][0]
                self.listed(s, z, y, name, what)
        return name

    def listed(self, st, z, y, name, what):
        """Is z the reference of the item y?"""
        V, e = self.V, self.e
        if name == "types":
            k = vname(e, st, y)
            y = inner(e, st, y)
            V.ok(None if vname(e, st, z) is None or k is None else vname(e, st, z) == k, st, what, "listed as %s" % vname(e, st, z))
            z = inner(e, st, z)
        r = fld(e, st, y, "self_ref") if y is not None else None
        a, b = (refidx(e, st, z) if z is not None else None), (refidx(e, st, r) if r is not None else None)
        V.ok(None if a is None or b is None else self.same_int(st, a, b), st, what, "%s for %s" % (str(a)[:200], str(b)[:200]))

    def parent_of(self, st, y, name):
        """The index of the package an item belongs to, 'none' for an item inside a message."""
        e = self.e
        if name == "types":
            e.need_variant(st, y)
            if vname(e, st, y) is None:
                return None
            y = inner(e, st, y)
        p = fld(e, st, y, "parent")
        if p is None:
            return None
        if name == "types":
            e.need_variant(st, p)
            k = vname(e, st, p)
            if k != "Package":
                return "none" if k else None
            p = inner(e, st, p)
        return refidx(e, st, p)


def offsets(s):
    off, out = ZERO, []
    for p in s.args[0]:
        out.append((p, off))
        off = add(off, p.args[2]) if p.tag == "win" else addc(off, len(p.args[0]))
    return out


def strip(n):
    """The symbol a field or payload belongs to."""
    while getattr(n, "tag", None) == "fld":
        n = n.args[0]
    return n


def exact_list(s):
    """A list whose parts are known: windows of arguments and single elements."""
    return s is not None and s.tag == "seq" and not any(x.tag == "unk" or x.tag == "base" and x.args[0].tag == "phi" for x in walk(s))


def mentions_any(c, tag):
    return any(x.tag == tag for x in walk(c))
