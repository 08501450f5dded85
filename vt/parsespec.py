"""What the functions that walk the token tree must compute, and the comparison.

A specification says, for a pair of a rule, what the value made of it holds: texts of named children, values of children
(spec symbols), lists with one element for every child of some rules, in order.  Loops are checked back edge by back edge."""
from . import terms as tm
from .terms import mk, num, add, sub, addc, I, is_int, cval, ge0, eq0, ZERO, ONE, walk, not_
from .interp import State
from .models import forked, seq_eq
from .modify import expand
from .solve import subst_term
from .compare import cmp_int, NE

KEYWORDS = ["double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32",
            "sfixed64", "bool", "string", "bytes"]
ESCAPES = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 0x5c, "'": 0x27, '"': 0x22}

# Terms that mean exactly what they say; anything else in a value makes a difference undecided.
EXACT = {"seq", "win", "cst", "lit", "base", "deref", "text", "el", "kids", "root", "arg", "spec", "slen", "int", "parse", "lin",
         "agg", "sym", "join", "flt", "fneg", "b", "num", "rng", "sptr", "ptr", "rule", "shape", "phi", "byte", "fcast", "strfn"}


def exact(v):
    """Does v say what it is without standing for what a loop computes?"""
    return all(x.tag in EXACT and not (x.tag in ("base", "sym") and getattr(x.args[0], "tag", None) == "phi")
               and not (x.tag == "strfn" and x.args[0] == "str.replace") for x in walk(v))


class Cmp:
    """Comparison of one function's results with its specification."""

    def __init__(self, rep, R, kind=None, topic=None):
        self.rep, self.R, self.e, self.t = rep, R, R.e, R.t
        self.kind, self.topic = kind, topic
        self.label = "%s%s" % (R.name.split("::", 2)[-1], "(%s)" % R.rule if R.rule else "")
        self.bases = {}
        for L in R.e.loops:
            for s in L.slots:
                if s.base is not None:
                    self.bases[s.base] = (L, s)
                self.bases[("phi", s.phi)] = (L, s)

    def verdict(self, ok, st, what, detail=""):
        if self.topic is not None and not self.topic(self.kind, what):
            return
        key = "%s: %s" % (self.label, what)
        if ok is False and not st.facts.imp and not self.lost(st):
            self.rep.violation(self.label + ": does not hold: " + what, "%s\nunder:\n%s" % (
                detail, "\n".join("  " + str(c)[:240] for c in st.facts.conds()[:14])))
        elif ok is True:
            self.rep.prove(key)
        else:
            self.rep.undecide(key + (": " + detail[:900] if detail else ""))

    def lost(self, st):
        """Does the path rest on a loop that keeps an iterator in an optional place (what is in it and the position
        go together, which its summary does not know)?"""
        for L in self.e.loops:
            if any(s.kind == "enum" and any("Pairs" in str(self.e.P.types[a].get("s", "")) or "Pairs" in str(self.e.P.types[a].get("adt", ""))
                                            for a in self.e.P.types[s.ty].get("args", ()) if isinstance(a, int)) for s in L.slots):
                names = {s.phi for s in L.slots if s.phi is not None}
                if any(x in names for c in st.facts.conds() for x in walk(c)):
                    return True
        return False

    # ------------------------------------------------------------ atoms
    def text(self, st, node):
        return self.t.text(st, node)

    def says(self, st, node, w):
        """True / False / None: is the text of node the word w?"""
        node = self.t.text_node(st, node)
        r = st.facts.test(self.t.is_text(node, w))
        if r is not None:
            return r
        ws = self.t.node_words(st, node)
        if ws is not None and w not in ws:
            return False
        got = self.text(st, node)
        c = seq_eq(self.e, st, got, self.e.cst_seq(w.encode()) if hasattr(self.e, "cst_seq") else self.e.cst(w.encode()))
        if c is tm.TRUE or c is tm.FALSE:
            return c is tm.TRUE
        return st.facts.test(c)

    def spec_name(self, st, kind, node):
        return mk("spec", kind, self.t.text_node(st, node))

    def spec(self, st, kind, node, t):
        return self.e.fresh(self.spec_name(st, kind, node), t)

    def normal(self, st, v):
        """v with every text and specified value named after the node furthest down that spans the same text."""
        m = {}
        for x in walk(v):
            if x.tag == "text":
                n = self.t.text_node(st, x.args[0])
                if n is not x.args[0]:
                    m[x] = mk("text", n)
            elif x.tag == "spec":
                n = self.t.text_node(st, x.args[1])
                if n is not x.args[1]:
                    m[x] = mk("spec", x.args[0], n)
        return subst_term(self.e, v, m) if m else v

    def same_value(self, st, got, want):
        """True / False / None."""
        if got.tag == "sptr" and want.tag == "seq":
            got = self.e.content(st, got)
        got, want = self.normal(st, got), self.normal(st, want)
        if got is want:
            return True
        if is_int(got) and is_int(want):
            r = st.facts.test(eq0(sub(got, want)))
            if r is None and (exact(got) and exact(want) or cmp_int(st.facts, got, want) == NE):
                return False
            return r
        if got.tag == "seq" and want.tag == "seq":
            c = seq_eq(self.e, st, got, want)
            if c is tm.TRUE or c is tm.FALSE:
                return c is tm.TRUE
            r = st.facts.test(c)
            if r is None and exact(got) and exact(want):
                return False
            return r
        if got.tag in ("bsym", "b", "not") or want.tag in ("bsym", "b"):
            return None
        if got.tag == want.tag == "flt":
            return self.same_value(st, got.args[0], want.args[0]) if exact(got) else None
        if exact(got) and exact(want):
            return False
        return None

    def field(self, st, v, name):
        """A field of a struct value by name, or None."""
        v = expand(self.e, st, v)
        if v.tag != "agg" or self.e.kind(v.args[0]) != "adt":
            return None
        fs = self.e.P.adts[self.e.P.types[v.args[0]]["adt"]]["variants"][v.args[1]].get("fields") or []
        for i, f in enumerate(fs):
            if (f if isinstance(f, str) else f.get("name")) == name and i < len(v.args[2]):
                return v.args[2][i]
        return None

    def ftype(self, v, name):
        ty = self.e.P.types[v.args[0] if v.tag == "agg" else v.args[1]]
        fs = self.e.P.adts[ty["adt"]]["variants"][0].get("fields") or []
        for i, f in enumerate(fs):
            if (f if isinstance(f, str) else f.get("name")) == name:
                return ty["vf"][0][i]
        return None

    # ------------------------------------------------------------ expectations
    def check(self, st, v, want, what):
        k = want[0]
        if v is None:
            return self.verdict(None, st, what, "no such field")
        if k == "text":
            return self.verdict(self.same_value(st, v, self.text(st, want[1])), st, what, "%s" % str(v)[:300])
        if k == "spec":
            t = self.e.val_ty(v)
            name = self.spec_name(st, want[1], want[2])
            if is_int(v):
                tt = self.e.P.find_ty(want[1])
                w = self.e.fresh(name, tt)
                return self.verdict(self.same_value(st, v, w), st, what, str(v)[:300])
            if v.tag == "seq":
                b = self.e.base(name, self.e.u8)
                w = self.e.mkseq([mk("win", b, ZERO, I(mk("slen", b)))])
                return self.verdict(self.same_value(st, v, w), st, what, str(v)[:300])
            if v.tag == "flt":
                w = self.e.fresh(name, self.e.P.find_ty("f64"))
                return self.verdict(self.same_value(st, v, w), st, what, str(v)[:300])
            if v.tag == "sym":
                return self.verdict(True if self.normal(st, v.args[0]) is name else False if exact(v) else None, st, what, str(v)[:300])
            if v.tag == "agg":
                # A struct written out: fields of the symbol, or built here.
                if t is not None and all(y is self.e.fresh(mk("fld", name, v.args[1], i), self.e.P.types[t]["vf"][v.args[1]][i])
                                         for i, y in enumerate(v.args[2])):
                    return self.verdict(True, st, what)
                f = MAKERS.get((self.t.rule(st, want[2]), want[1]))
                if f is not None:
                    return f(self, st, v, want[2], what + ": ")
            return self.verdict(None, st, what, str(v)[:300])
        if k == "variant":
            return self.variant(st, v, want, what)
        if k == "bool":
            w = tm.TRUE if want[1] else tm.FALSE
            if v.tag == "b":
                return self.verdict(v is w, st, what, str(v))
            r = st.facts.test(v)
            return self.verdict(None if r is None else r is want[1], st, what, str(v)[:200])
        if k == "list":
            return self.list(st, v, want, what)
        if k == "empty":
            n = self.e.seq_len(v) if v.tag == "seq" else None
            r = st.facts.test(eq0(n)) if n is not None else None
            return self.verdict(r if r is not None or n is None else False if exact(v) else None, st, what, str(v)[:200])
        raise AssertionError(k)

    def variant(self, st, v, want, what):
        """want: ("variant", name, (expectation of each field))"""
        e = self.e
        if v.tag == "sym" and e.kind(v.args[1]) == "adt":
            v = expand(e, st, v)
        if v.tag != "agg" or e.kind(v.args[0]) != "adt":
            return self.verdict(None, st, what, str(v)[:200])
        ad = e.P.adts[e.P.types[v.args[0]]["adt"]]
        n = ad["variants"][v.args[1]]["name"]
        if n != want[1]:
            if want[1] not in [x["name"] for x in ad["variants"]]:
                return self.verdict(None, st, what, "no variant " + want[1])
            return self.verdict(False, st, what, "%s where %s is meant" % (n, want[1]))
        if not want[2]:
            return self.verdict(True, st, what)
        for x, w in zip(v.args[2], want[2]):
            self.check(st, x, w, what)

    # ------------------------------------------------------------ lists
    def list(self, st, v, want, what):
        """want: ("list", parent, first, {rule: expectation of an element}) - one element for every child of these rules."""
        _, parent, first, per = want[:4]
        e, t = self.e, self.t
        if v.tag != "seq":
            return self.verdict(None, st, what, str(v)[:200])
        parts = list(v.args[0])
        n = t.count(parent)
        i = first
        while parts:
            p = parts[0]
            if p.tag == "lit":
                parts.pop(0)
                for x in p.args[0]:
                    i = self.lit_elem(st, x, parent, i, per, what)
                    if i is None:
                        return
                continue
            if p.tag == "cst" and isbytes(per):
                return self.verdict(None, st, what, "a constant among the elements")
            if p.tag == "win" and p.args[0] in self.bases and len(parts) == 1:
                if not st.facts.eq(p.args[1], ZERO) or not any(st.facts.eq(p.args[2], I(x)) for x in (
                        mk("slen", p.args[0]), mk("int", mk("slen", p.args[0]), "uint", 63))):
                    return self.verdict(None, st, what, "part of a list")
                return self.loop(st, p.args[0], parent, i, per, what)
            moved = self.moved(st, p, parent, i, per) if len(parts) == 1 else None
            return self.verdict(False if moved else None, st, what, moved or str(p)[:200])
        # Nothing more in the list: no such child may be left.
        self.none_left(st, parent, i, per, what)

    def moved(self, st, p, parent, i, per):
        """Does the code rearrange or drop elements of a list of the children's values, of which there may be two?"""
        b = p.args[0] if p.tag == "win" else None
        x = b.args[0] if b is not None and b.tag == "base" else None
        if x is None or x.tag != "permuted" or x.args[1].tag != "seq" or any(y.tag == "permuted" for y in walk(x.args[1])):
            return None
        how = {"Vec.dedup": "equal elements next to each other are dropped", "[T].reverse": "the elements are reversed",
               "[T].sort": "the elements are sorted", "[T].sort_unstable": "the elements are sorted"}.get(x.args[0])
        kb = self.t.kids(parent)
        loops = [q for q in x.args[1].args[0] if q.tag == "win" and q.args[0] in self.bases]
        if how is None or len(loops) != 1 or not isinstance(i, int):
            return None
        L, slot = self.bases[loops[0].args[0]]
        if L.imprecise or not any(y.tag == "el" and y.args[0] is kb for _, ps in slot.added for q in ps or () for y in walk(q)):
            return None
        if st.facts.assume(ge0(addc(sub(self.t.count(parent), num(i)), -2))) is None:
            return None
        return how if all(set(self.t.rules(st, self.t.child(parent, j))) & set(per) for j in (i, i + 1)) else None

    def none_left(self, st, parent, i, per, what):
        t = self.t
        r = st.facts.test(ge0(sub(i if not isinstance(i, int) else num(i), t.count(parent))))
        if r is True:
            return self.verdict(True, st, what)
        left = set()
        for k, sh in t.live_shapes(st, parent):
            c = i if isinstance(i, int) else cval(st.facts.norm(i)) or 0
            for j in range(c, len(sh.prefix)):
                left |= sh.prefix[j]
            left |= sh.tail or set()
        hit = left & set(per)
        if not hit:
            return self.verdict(True, st, what)
        self.verdict(False, st, what, "children of the rules %s from the %s. on are left out" % (sorted(hit), i))

    def lit_elem(self, st, x, parent, i, per, what):
        """A list element added outside loops belongs to the next child of the rules listed."""
        for _ in range(14):
            node = self.t.child(parent, i)
            rs = self.t.rules(st, node)
            mine = [r for r in rs if r in per]
            if not rs or st.facts.test(ge0(sub(num(i), self.t.count(parent)))) is True:
                self.verdict(False, st, what, "an element without a child it belongs to")
                return None
            if mine and len(mine) < len(rs):
                self.verdict(None, st, what, "an element for some of the rules %s" % rs)
                return None
            if mine:
                for r in mine:
                    s = st
                    if len(mine) > 1:
                        s = self.assume_rule(st, node, r)
                        if s is None:
                            continue
                    self.check_elem(s, x, node, r, per, what)
                return i + 1
            i += 1
        self.verdict(None, st, what, "elements not matched")
        return None

    def assume_rule(self, st, node, r):
        f = st.facts.assume(eq0(addc(self.e.discr(st, self.t.rule_sym(node)), -self.t.discr[r])))
        if f is None:
            return None
        s = st.fork()
        s.facts = f
        return s

    def check_elem(self, st, x, node, rule, per, what):
        w = per[rule]
        if callable(w):
            w(self, st, x, node, what)
        else:
            self.check(st, x, w[:2] + (node,) if w[0] == "spec" else w, what)

    def index_slot(self, L, parent):
        """The loop's position among the children of parent: (phi, first)."""
        kb = self.t.kids(parent)
        for s in L.slots:
            if s.kind != "int" or s.phi is None:
                continue
            el = mk("el", kb, I(s.phi) if not is_int(s.phi) else s.phi)
            ok = True
            used = False
            for k, sb in enumerate(L.substs):
                x = sb.get(s.phi)
                if x is None or sub(x, addc(I(s.phi), 1)) is not ZERO:
                    ok = False
            if not ok:
                continue
            yield s

    def loop(self, st, base, parent, i, per, what):
        L, slot = self.bases[base]
        e, t = self.e, self.t
        if L.unrolled is not None or not L.backs:
            return self.verdict(None, st, what, "loop without iterations")
        n = t.count(parent)
        why = "the loop does not walk over the children"
        for ix in self.index_slot(L, parent):
            phi = I(ix.phi)
            node = t.child(parent, phi)
            if st.facts.test(ge0(sub(phi, n))) is not True:
                # Not the position, or a loop left early.
                if any(x.tag == "el" and x is node for b in L.backs for c in b.facts.conds() for x in walk(c)):
                    why = "the loop may end before the last child"
                    r = st.facts.test(ge0(sub(phi, n)))
                    s2 = st.facts.assume(ge0(addc(sub(n, phi), -1)))
                    if s2 is not None and not st.facts.imp and not L.imprecise:
                        return self.verdict(False, st, what, why)
                continue
            init = ix.init
            c = cval(init) if init is not None and is_int(init) else init if isinstance(init, int) else None
            if c is None:
                why = "first position unknown"
                continue
            # Children before the first position.
            for j in range(i, c):
                rs = t.rules(st, t.child(parent, j))
                if set(rs) & set(per):
                    return self.verdict(False, st, what, "child %d is left out" % j)
            if c < i:
                return self.verdict(None, st, what, "children visited twice")
            for k, b in enumerate(L.backs):
                self.back(L, slot, k, b, node, per, what)
            return
        # Backwards?
        for s in L.slots:
            if s.kind == "int" and s.phi is not None and all(sb.get(s.phi) is not None and sub(sb[s.phi], addc(I(s.phi), -1)) is ZERO for sb in L.substs):
                node = t.child(parent, addc(I(s.phi), -1))
                if not L.imprecise and any(x is node for _, ps in slot.added for p in ps or () for x in walk(p)):
                    return self.verdict(False, st, what, "the children are visited backwards")
        self.verdict(None, st, what, why)

    def back(self, L, slot, k, b, node, per, what):
        t, e = self.t, self.e
        parts = [ps for kk, ps in slot.added if kk == k]
        if any(ps is None for ps in parts):
            v = slot.vals.get(k)
            why = None
            if v is not None and v.tag == "seq" and not L.imprecise:
                whole = [i for i, p in enumerate(v.args[0]) if p.tag == "win" and p.args[0] is slot.base]
                if not whole and all(p.tag in ("lit", "cst") for p in v.args[0]):
                    why = "what was collected before is dropped"
                elif whole == [len(v.args[0]) - 1] and v.args[0][-1].args[1] is ZERO and v.args[0][-1].args[2] is I(mk("int", mk("slen", slot.base), "uint", 63)):
                    why = "an element is put before the earlier ones"
                elif cval(sub(e.seq_len(v), I(mk("int", mk("slen", slot.base), "uint", 63)))) == 0 and set(t.rules(b, node)) <= set(per):
                    why = "nothing is added for a child"
            return self.verdict(False if why else None, b, what, why or "added: unknown")
        parts = list(parts[0]) if parts else []
        rs = t.rules(b, node)
        mine = [r for r in rs if r in per]
        if isbytes(per):
            for r in mine:
                s = b if len(rs) == 1 else self.assume_rule(b, node, r)
                if s is not None:
                    per[r][1](self, s, e.mkseq(parts), node, what)
            return
        els = []
        for p in parts:
            if p.tag != "lit":
                return self.verdict(None, b, what, "added: " + str(p)[:200])
            els += p.args[0]
        if not mine:
            return self.verdict(True if not els else False if all(map(exact, els)) else None, b, what,
                                "an element is added for a child of the rule %s" % rs)
        for r in mine:
            s = b if len(rs) == 1 else self.assume_rule(b, node, r)
            if s is None:
                continue
            if not els:
                self.verdict(False, s, what, "a child of the rule %s adds nothing" % r)
            elif len(els) > 1:
                self.verdict(False, s, what, "a child of the rule %s adds %d elements" % (r, len(els)))
            else:
                self.check_elem(s, els[0], node, r, per, what)
        if len(mine) < len(rs) and els:
            self.verdict(None, b, what, "an element for some of the rules %s" % rs)

    # ------------------------------------------------------------ paths
    def refusal(self, st, v, extra=()):
        """A path that returns an error: something in the source must be at fault."""
        for c in st.facts.conds():
            if c.tag == "not" and c.args[0].tag == "bsym" and getattr(c.args[0].args[0], "tag", "") in ("accepts", "parses", "syntax"):
                return self.verdict(True, st, "an error is only reported for an invalid part")
        for x in extra:
            if x(self, st):
                return self.verdict(True, st, "an error is only reported for an invalid part")
        self.verdict(False, st, "an error is only reported for an invalid part", str(v)[:300])


def isbytes(per):
    return any(isinstance(w, tuple) and w[0] == "bytes" for w in per.values())


def kid(c, st, node, rule):
    """The child of a node that has the rule, in every shape left."""
    for k, sh in c.t.live_shapes(st, node):
        for i, p in enumerate(sh.prefix):
            if rule in p:
                return c.t.child(node, i)
    return None


def has(c, st, node, rule):
    """True / False / None: does the node have a child of the rule?"""
    r = set()
    for k, sh in c.t.live_shapes(st, node):
        yes = None
        for i, p in enumerate(sh.prefix):
            if rule in p:
                x = c.t.rules(st, c.t.child(node, i))
                yes = True if x == [rule] else None if rule in x else yes
                if yes is None and rule in x:
                    r.add(None)
        r.add(bool(yes) if yes is not None else (None if None in r else False))
    return r.pop() if len(r) == 1 else None


# ------------------------------------------------------------------------------------------------ makers

OPTION = ("spec", "ProtoOption")


def maker(*keys):
    def deco(f):
        for k in keys:
            MAKERS[k] = f
        return f
    return deco


MAKERS = {}


def options(c, st, node):
    return ("list", node, 0, {"fieldOption": OPTION, "enumValueOption": OPTION, "option": OPTION})


@maker(("topLevelDef", "ProtobufItemBuilder"))
def m_item(c, st, v, node, w):
    k = c.t.child(node, 0)
    for r in c.t.rules(st, k):
        s = c.assume_rule(st, k, r)
        if s is None:
            continue
        if r == "service":
            want = ("variant", "Service", (("spec", "ServiceBuilder", k),))
        else:
            n = {"message": "Message", "enum_": "Enum"}.get(r)
            if n is None:
                c.verdict(None, s, w + "the kind of a definition", r)
                continue
            want = ("variant", "Type", (("variant", n, (("spec", n + "Builder", k),)),))
        c.check(s, v, want, w + "a definition keeps its kind")


@maker(("message", "MessageBuilder"))
def m_message(c, st, v, node, w):
    body = kid(c, st, node, "messageBody")
    c.check(st, c.field(st, v, "name"), ("text", kid(c, st, node, "messageName")), w + "the name is the declared one")
    for f, per in (("fields", {"field": ("spec", "FieldBuilder")}),
                   ("oneofs", {"oneof": ("spec", "OneofBuilder")}),
                   ("options", {"option": OPTION}),
                   ("inner_types", {"message": wrap("Message", "MessageBuilder"), "enum_": wrap("Enum", "EnumBuilder")})):
        c.check(st, c.field(st, v, f), ("list", body, 0, per), w + "%s: one for each declared, in order" % f)


def wrap(variant, kind):
    def f(c, st, v, node, what):
        c.check(st, v, ("variant", variant, (("spec", kind, node),)), what)
    return f


@maker(("enum_", "EnumBuilder"))
def m_enum(c, st, v, node, w):
    body = kid(c, st, node, "enumBody")
    c.check(st, c.field(st, v, "name"), ("text", kid(c, st, node, "enumName")), w + "the name is the declared one")
    c.check(st, c.field(st, v, "options"), ("list", body, 0, {"option": OPTION}), w + "options: one for each declared, in order")
    c.check(st, c.field(st, v, "fields"), ("list", body, 0, {"enumField": ("spec", "EnumField")}), w + "values: one for each declared, in order")


@maker(("enumField", "EnumField"))
def m_enumfield(c, st, v, node, w):
    c.check(st, c.field(st, v, "name"), ("text", kid(c, st, node, "ident")), w + "the name is the declared one")
    c.check(st, c.field(st, v, "value"), ("spec", "i64", kid(c, st, node, "intLit")), w + "the number is the declared one")
    c.check(st, c.field(st, v, "options"), ("list", node, 2, {"enumValueOption": OPTION}), w + "options: one for each declared, in order")


@maker(("service", "ServiceBuilder"))
def m_service(c, st, v, node, w):
    c.check(st, c.field(st, v, "name"), ("text", kid(c, st, node, "serviceName")), w + "the name is the declared one")
    c.check(st, c.field(st, v, "rpcs"), ("list", node, 1, {"rpc": ("spec", "RpcBuilder")}), w + "rpcs: one for each declared, in order")
    c.check(st, c.field(st, v, "options"), ("list", node, 1, {"option": OPTION}), w + "options: one for each declared, in order")


@maker(("rpc", "RpcBuilder"))
def m_rpc(c, st, v, node, w):
    c.check(st, c.field(st, v, "name"), ("text", kid(c, st, node, "rpcName")), w + "the name is the declared one")
    args = [c.t.child(node, i) for k, sh in c.t.live_shapes(st, node)[:1] for i, p in enumerate(sh.prefix) if p == {"rpcParam"}]
    if len(args) == 2:
        c.check(st, c.field(st, v, "input"), ("spec", "RpcArgBuilder", args[0]), w + "the request is the first type")
        c.check(st, c.field(st, v, "output"), ("spec", "RpcArgBuilder", args[1]), w + "the response is the second type")
    c.check(st, c.field(st, v, "options"), ("list", node, 3, {"option": OPTION}), w + "options: one for each declared, in order")


@maker(("rpcParam", "RpcArgBuilder"))
def m_rpcarg(c, st, v, node, w):
    o = kid(c, st, node, "opt_stream")
    for s, h in split_has(c, st, o, "stream"):
        c.check(s, c.field(s, v, "stream"), ("bool", h), w + "stream is set by the keyword")
    c.check(st, c.field(st, v, "message"), ("spec", "String", kid(c, st, node, "messageType")), w + "the type is the declared one")


def split_has(c, st, node, rule):
    out = []
    for s in forked(c.e, st, lambda s: [s] if c.t.need_shape(s, node) is not None else []):
        h = has(c, s, node, rule)
        if h is not None:
            out.append((s, h))
        else:
            c.verdict(None, s, "children of " + str(rule))
    return out


def field_common(c, st, v, node, w):
    c.check(st, c.field(st, v, "name"), ("text", kid(c, st, node, "fieldName")), w + "the name is the declared one")
    c.check(st, c.field(st, v, "number"), ("spec", "u64", kid(c, st, node, "fieldNumber")), w + "the number is the declared one")
    c.check(st, c.field(st, v, "field_type"), ("spec", "FieldTypeBuilder", kid(c, st, node, "type_")), w + "the type is the declared one")
    for s in forked(c.e, st, lambda s: [s] if c.t.need_shape(s, node) is not None else []):
        o = kid(c, s, node, "fieldOptions")
        if o is None:
            c.check(s, c.field(s, v, "options"), ("empty",), w + "no options where none are declared")
        else:
            # Its children are only looked at where the options are.
            for s2 in forked(c.e, s, lambda s: [s] if c.t.need_shape(s, o) is not None else []):
                c.check(s2, c.field(s2, v, "options"), options(c, s2, o), w + "options: one for each declared, in order")


@maker(("field", "FieldBuilder"))
def m_field(c, st, v, node, w):
    field_common(c, st, v, node, w)
    m = kid(c, st, node, "multiplicity")
    got = c.field(st, v, "multiplicity")
    what = w + "the label is the declared one"
    for s, h in split_has(c, st, m, "one_multiplicity"):
        if not h:
            c.check(s, got, ("variant", "Single", ()), what)
            continue
        one = c.t.child(m, 0)
        for s2 in forked(c.e, s, lambda s: [s] if c.t.need_shape(s, one) is not None else []):
            k = c.t.child(one, 0)
            for r in c.t.rules(s2, k):
                s3 = c.assume_rule(s2, k, r)
                if s3 is not None:
                    n = {"repeated": "Repeated", "optional": "Optional"}.get(r)
                    c.check(s3, got, ("variant", n, ()), what) if n else c.verdict(None, s3, what, r)


@maker(("oneofField", "FieldBuilder"))
def m_oneoffield(c, st, v, node, w):
    field_common(c, st, v, node, w)
    c.check(st, c.field(st, v, "multiplicity"), ("variant", "Single", ()), w + "a field of a oneof is singular")


@maker(("oneof", "OneofBuilder"))
def m_oneof(c, st, v, node, w):
    c.check(st, c.field(st, v, "name"), ("text", kid(c, st, node, "oneofName")), w + "the name is the declared one")
    c.check(st, c.field(st, v, "fields"), ("list", node, 1, {"oneofField": ("spec", "FieldBuilder")}), w + "fields: one for each declared, in order")
    c.check(st, c.field(st, v, "options"), ("list", node, 1, {"option": OPTION}), w + "options: one for each declared, in order")


@maker(("option", "ProtoOption"), ("fieldOption", "ProtoOption"), ("enumValueOption", "ProtoOption"))
def m_option(c, st, v, node, w):
    c.check(st, c.field(st, v, "name"), ("spec", "String", kid(c, st, node, "optionName")), w + "the name is the declared one")
    c.check(st, c.field(st, v, "value"), ("spec", "Constant", kid(c, st, node, "constant")), w + "the value is the declared one")


@maker(("constant", "Constant"))
def m_constant(c, st, v, node, w):
    k = c.t.child(node, 0)
    for r in c.t.rules(st, k):
        s = c.assume_rule(st, k, r)
        if s is None:
            continue
        what = w + "a constant keeps its kind and value"
        if r == "boolLit":
            for b in ("true", "false"):
                f = s.facts.assume(c.t.is_text(k, b))
                f = f and f.assume(not_(c.t.is_text(k, "false" if b == "true" else "true")))
                if f is not None:
                    s2 = s.fork()
                    s2.facts = f
                    c.check(s2, v, ("variant", "Bool", (("bool", b == "true"),)), what)
            continue
        x = {"fullIdent": ("Ident", "String"), "intLit": ("Integer", "i64"), "floatLit": ("Float", "f64"), "strLit": ("String", "Bytes")}.get(r)
        if x is None:
            c.verdict(None, s, what, r)
        else:
            c.check(s, v, ("variant", x[0], (("spec", x[1], k),)), what)


@maker(("type_", "FieldTypeBuilder"))
def m_type(c, st, v, node, w):
    e = c.e
    what = w + "each keyword denotes the type of its name, anything else a type name"
    v = expand(e, st, v)
    if v.tag != "agg":
        return c.verdict(None, st, what, str(v)[:200])
    n = c.R.p.P.adts[e.P.types[v.args[0]]["adt"]]["variants"][v.args[1]]["name"]
    k = c.t.child(node, 0)
    if n == "Builtin":
        x = v.args[2][0]
        xv = e.variant_of(st, x) if x.tag in ("agg", "sym") else None
        if xv is None:
            return c.verdict(None, st, what, str(x)[:100])
        kw = e.P.adts[e.P.types[e.val_ty(x)]["adt"]]["variants"][xv]["name"]
        r = c.says(st, node, kw.lower())
        if r is None:
            # The text is not known to be any keyword: then it must at least be excluded that it is another.
            r = False if all(c.says(st, node, o) is False for o in KEYWORDS if o != kw.lower()) is False and exact(v) else None
        return c.verdict(r, st, what, "%s for a text that is not '%s'" % (kw, kw.lower()))
    if n == "Unknown":
        if "builtinType" in c.t.rules(st, k):
            for o in KEYWORDS:
                if c.says(st, node, o) is not False:
                    return c.verdict(False, st, what, "the keyword '%s' is taken for a type name" % o)
        for r in c.t.rules(st, k):
            s = c.assume_rule(st, k, r)
            if s is None:
                continue
            if r == "builtinType":
                continue                   # excluded above: every word of the rule is a keyword
            c.check(s, v.args[2][0], ("spec", "String", k), what)
        return
    c.verdict(None, st, what, n)


@maker(("messageType", "String"), ("enumType", "String"))
def m_typename(c, st, v, node, w):
    what = w + "the name is the parts joined by dots, with a leading dot where there is one"
    if v.tag != "seq":
        return c.verdict(None, st, what, str(v)[:200])
    parts = list(v.args[0])
    dot = False
    if parts and parts[0].tag == "cst" and parts[0].args[0] == b".":
        dot = True
        parts.pop(0)
    text = c.text(st, node)
    lead = None
    for cnd in (mk("bsym", mk("strip_prefix", text, num(46))),):
        lead = st.facts.test(cnd)
    if len(parts) == 1 and parts[0].tag == "win" and parts[0].args[0].tag == "base" and parts[0].args[0].args[0].tag == "join":
        j = parts[0].args[0].args[0]
        sep_ok = j.args[1] is c.e.cst_seq(b".") if hasattr(c.e, "cst_seq") else j.args[1] is c.e.cst(b".")
        if lead is None:
            return c.verdict(None, st, what, "leading dot")
        if lead != dot or not sep_ok:
            return c.verdict(False, st, what, "dot %s, separator %s" % (dot, j.args[1]))
        T = ("text",)
        return c.check(st, j.args[0], ("list", node, 0, {"ident": text_elem, "messageName": text_elem, "enumName": text_elem}), what)
    ok = lead is not None and joined(c, st, parts, node, 0, {"ident": text_part, "messageName": text_part, "enumName": text_part}, what)
    if not ok and lead is not None and lead == dot:
        return c.verdict(parted(c, st, c.e.mkseq(parts) if dot else v, node, {k: text_part for k in ("ident", "messageName", "enumName")}), st, what, str(v)[:200])
    c.verdict(True if ok and lead == dot else False if ok else None, st, what, str(v)[:200])


def joined(c, st, parts, parent, first, per, what):
    """The parts of a name written one after the other with dots between: (expected parts of a child) in per."""
    e, t = c.e, c.t
    i = first
    seps = 0
    parts = list(parts)

    def take(ps, node, s, lead):
        """The parts of one child, after a dot or not."""
        for r in t.rules(s, node):
            s2 = s if len(t.rules(s, node)) == 1 else c.assume_rule(s, node, r)
            if s2 is None:
                continue
            if r not in per:
                return None
            want = e.mkseq(([mk("cst", b".")] if lead else []) + list(per[r](c, s2, node).args[0]))
            if c.same_value(s2, e.mkseq(ps), want) is not True:
                return None
        return True
    loop = None
    if parts and parts[-1].tag == "win" and parts[-1].args[0] in c.bases:
        loop = parts.pop()
    if parts:
        # What comes before the loop is the first part.
        if take(parts, t.child(parent, i), st, False) is not True:
            return None
        i += 1
    if loop is None:
        return True if st.facts.eq(t.count(parent), num(i)) else None
    base = loop.args[0]
    L, slot = c.bases[base]
    if L.unrolled is not None or not L.backs or loop.args[1] is not ZERO or not st.facts.eq(loop.args[2], I(mk("int", mk("slen", base), "uint", 63))):
        return None
    for ix in c.index_slot(L, parent):
        phi = I(ix.phi)
        x = ix.init
        x = cval(x) if x is not None and is_int(x) else x
        if x != i or st.facts.test(ge0(sub(phi, t.count(parent)))) is not True:
            continue
        for k, b in enumerate(L.backs):
            ps = [y for kk, y in slot.added if kk == k]
            if not ps or ps[0] is None:
                return None
            lead = True if i > 0 else False if b.facts.eq(phi, ZERO) else True if b.facts.test(ge0(addc(phi, -1))) is True else None
            if lead is None or take(list(ps[0]), t.child(parent, phi), b, lead) is not True:
                return None
        return True
    return None


def parted(c, st, v, node, per):
    """A name put together without a loop: True / False / None."""
    e, t = c.e, c.t
    kb, n = t.kids(node), t.count(node)
    at = [x.args[1] for x in walk(v) if x.tag == "el" and x.args[0] is kb]
    at = [cval(i) if is_int(i) else i for i in at]
    if v.tag != "seq" or not at or not all(isinstance(i, int) for i in at) or not exact(v):
        return None
    m = max(at)
    if st.facts.assume(ge0(addc(sub(n, num(m)), -2))) is not None:
        return False                    # there may be a further child, which the name does not have
    parts = []
    for i in range(m + 1):
        rs = t.rules(st, t.child(node, i))
        if len(rs) != 1 or rs[0] not in per:
            return None
        parts += ([mk("cst", b".")] if i else []) + list(per[rs[0]](c, st, t.child(node, i)).args[0])
    return c.same_value(st, v, e.mkseq(parts))


def text_part(c, st, node):
    return c.text(st, node)


def paren_part(c, st, node):
    e = c.e
    b = e.base(c.spec_name(st, "String", node), e.u8)
    return e.mkseq([mk("cst", b"("), mk("win", b, ZERO, I(mk("slen", b))), mk("cst", b")")])


def text_elem(c, st, v, node, what):
    c.check(st, v, ("text", node), what)


def paren_elem(c, st, v, node, what):
    """(name) for an extension"""
    c.verdict(c.same_value(st, v, paren_part(c, st, node)), st, what, str(v)[:300])


@maker(("optionName", "String"), ("fullIdent", "String"))
def m_ident(c, st, v, node, w):
    what = w + "the name is the parts joined by dots, an extension in parentheses"
    if v.tag == "seq" and len(v.args[0]) == 1 and v.args[0][0].tag == "win":
        b = v.args[0][0].args[0]
        if b.tag == "base" and b.args[0].tag == "join":
            j = b.args[0]
            if j.args[1] is not c.e.cst(b"."):
                return c.verdict(False if exact(j.args[1]) else None, st, what, "separator %s" % j.args[1])
            return c.check(st, j.args[0], ("list", node, 0, {"ident": text_elem, "fullIdent": paren_elem}), what)
    ok = v.tag == "seq" and joined(c, st, v.args[0], node, 0, {"ident": text_part, "fullIdent": paren_part}, what)
    if not ok:
        ok = parted(c, st, v, node, {"ident": text_part, "fullIdent": paren_part})
    c.verdict(ok, st, what, str(v)[:200])


# ------------------------------------------------------------------------------------------------ literals

RADIX = {"decimalLit": (10, 0), "octalLit": (8, 0), "hexLit": (16, 2)}


def digits(c, st, k, rule, ty, prefix=b""):
    radix, skip = RADIX[rule]
    b = c.t.text_base(k)
    parts = [mk("win", b, num(skip), addc(I(mk("slen", b)), -skip))]
    if prefix:
        parts.insert(0, mk("cst", prefix))
    return mk("parse", ty, radix, c.e.mkseq(parts))


def literal(c, st, v, k, ty, neg, what):
    for r in c.t.rules(st, k):
        s = c.assume_rule(st, k, r)
        if s is None:
            continue
        if r not in RADIX:
            c.verdict(None, s, what, r)
            continue
        nm = digits(c, s, k, r, ty, b"-" if neg else b"")
        want = c.e.fresh(nm, c.e.P.find_ty(ty))
        x = c.same_value(s, v, want)
        if x is False and not parse_form(v):
            x = None
        if s.facts.test(mk("bsym", mk("parses", nm))) is False:
            x = False
        if x is None and trimmed(c, v, k, r, ty):
            x = False
        c.verdict(x, s, what, "got %s, meant %s" % (str(v)[:300], str(want)[:300]))


# Spellings of the literals of the language.
SPELT = {"hexLit": ("0x1F", "0X1F", "0xa0", "0X0b"), "octalLit": ("017", "0", "007", "020"), "decimalLit": ("10", "7", "120")}


def trimmed(c, v, k, r, ty):
    """Is what the code parses the text with a constant pattern trimmed off, which leaves something else than the digits
    of some literal?"""
    ps = [x for x in walk(v) if x.tag == "parse"]
    ts = [x for x in walk(v) if x.tag == "trim"]
    b = c.t.text_base(k)
    if len(ps) != 1 or ps[0].args[0] != ty or not ts or v is not c.e.fresh(ps[0], c.e.P.find_ty(ty)):
        return False
    w = ps[0].args[2].args[0][-1]
    if w.tag != "win" or w.args[0] is not b or len(ps[0].args[2].args[0]) > 1 and c.e.mkseq(ps[0].args[2].args[0][:-1]) not in (c.e.cst(b"-"), c.e.cst(b"+")):
        return False
    whole = c.e.mkseq([mk("win", b, ZERO, I(mk("slen", b)))])
    if not all(t.args[2] is whole and len(t.args[3]) == 1 for t in ts):
        return False
    cut = [[t for t in dict.fromkeys(ts) if t.args[1] == side] for side in ("start", "end")]
    if any(len(x) > 1 for x in cut) or not cut[0] and w.args[1] is not ZERO:
        return False
    for x, y in ((cut[0], w.args[1]), (cut[0] + cut[1], sub(I(mk("slen", b)), w.args[2]))):
        if y.args[0] or sorted((id(a.args[0]) if a.tag == "rng" else 0, k) for a, k in y.args[1]) != sorted((id(t), 1) for t in x):
            return False
    for word in SPELT[r]:
        left = word
        for x in cut:
            for t in x:
                pat = t.args[3][0]
                pat = chr(cval(pat)) if is_int(pat) and cval(pat) is not None else tm.seq_const(pat).decode() if not is_int(pat) and tm.seq_const(pat) else None
                if not pat:
                    return False
                while t.args[1] == "start" and left.startswith(pat):
                    left = left[len(pat):]
                while t.args[1] == "end" and left.endswith(pat):
                    left = left[:-len(pat)]
        ok = left and all(x in "0123456789abcdef"[:ps[0].args[1]] for x in left.lower())
        got = int(left, ps[0].args[1]) if ok else None
        if got != int(word[RADIX[r][1]:], RADIX[r][0]):
            return True
    return False


def parse_form(v):
    """Is the integer exactly the value of a parsed text?"""
    v = v if is_int(v) else None
    if v is None:
        return False
    ps = [x for x in walk(v) if x.tag == "parse"]
    return len(ps) == 1 and exact(v)


@maker(("fieldNumber", "u64"))
def m_number(c, st, v, node, w):
    c.check(st, v, ("spec", "u64", c.t.child(node, 0)), w + "the number is the literal's")


@maker(("intLit", "u64"))
def m_uint(c, st, v, node, w):
    what = w + "the value of the digits in their base"
    k = c.t.child(node, 0)
    if c.t.rules(st, k) == ["sign"]:
        if c.says(st, k, "-") is not False:
            return c.verdict(False, st, what, "a negative literal is accepted")
        k = c.t.child(node, 1)
    literal(c, st, v, k, "u64", False, what)


def signed(c, st):
    n = c.R.node
    return c.t.rule(st, c.t.child(n, 0)) == "sign"


@maker(("intLit", "i64"))
def m_int(c, st, v, node, w):
    what = w + "the value of the digits in their base, with the sign"
    for s in forked(c.e, st, lambda s: [s] if c.t.need_shape(s, node) is not None else []):
        k = c.t.child(node, 0)
        neg = False
        if c.t.rules(s, k) == ["sign"]:
            neg = c.says(s, k, "-")
            if neg is None:
                # The sign was not looked at on this path.
                for wd in ("-", "+"):
                    f = s.facts.assume(c.t.is_text(k, wd))
                    if f is not None:
                        s2 = s.fork()
                        s2.facts = f
                        literal(c, s2, v, c.t.child(node, 1), "i64", wd == "-", what)
                continue
            k = c.t.child(node, 1)
        literal(c, s, v, k, "i64", neg, what)


@maker(("floatLit", "f64"))
def m_float(c, st, v, node, w):
    what = w + "the value of the number, with the sign"
    e = c.e
    for s in forked(c.e, st, lambda s: [s] if c.t.need_shape(s, node) is not None else []):
        k = c.t.child(node, 0)
        neg = False
        cases = [(s, False)]
        if c.t.rules(s, k) == ["sign"]:
            cases = []
            for wd in ("-", "+"):
                f = s.facts.assume(c.t.is_text(k, wd))
                if f is not None and c.says(s, k, wd) is not False:
                    s2 = s.fork()
                    s2.facts = f
                    cases.append((s2, wd == "-"))
            k = c.t.child(node, 1)
        f64 = e.P.find_ty("f64")
        for s2, neg in cases:
            want = e.fresh(c.spec_name(s2, "f64", k), f64)
            if neg:
                want = mk("flt", I(mk("int", mk("fneg", want), "uint", 64)), 64)
            c.verdict(True if v is want else c.same_value(s2, v, want), s2, what, "got %s, meant %s" % (str(v)[:200], str(want)[:200]))


@maker(("unsignedFloat", "f64"))
def m_ufloat(c, st, v, node, w):
    what = w + "the value of the number"
    b = c.t.text_base(c.t.text_node(st, node))
    want = c.e.fresh(mk("parse", "f64", 10, c.e.mkseq([mk("win", b, ZERO, I(mk("slen", b)))])), c.e.P.find_ty("f64"))
    c.verdict(True if v is want else c.same_value(st, v, want), st, what, "got %s" % str(v)[:200])


def char_bytes(c, st, v, node, what):
    """The bytes one character of a string literal stands for."""
    e, t = c.e, c.t
    g = t.child(node, 0)
    for r in t.rules(st, g):
        s = c.assume_rule(st, g, r)
        if s is None:
            continue
        if r == "anyChar":
            c.verdict(c.same_value(s, v, c.text(s, g)), s, what, str(v)[:200])
            continue
        k = t.child(g, 0)
        if r == "charEscape":
            for ch, code in ESCAPES.items():
                f = s.facts.assume(t.is_text(k, ch))
                if f is None or c.says(s, k, ch) is False:
                    continue
                s2 = s.fork()
                s2.facts = f
                c.verdict(c.same_value(s2, v, e.cst(bytes([code]))), s2, what, "\\%s gives %s" % (ch, str(v)[:100]))
            continue
        radix = {"hexEscape": 16, "octEscape": 8}.get(r)
        x = None
        if v.tag == "seq" and len(v.args[0]) == 1 and v.args[0][0].tag == "lit" and len(v.args[0][0].args[0]) == 1:
            x = v.args[0][0].args[0][0]
        if radix is None or x is None:
            c.verdict(None if radix is None or not exact(v) else False, s, what, str(v)[:200])
            continue
        ps = [p for p in walk(x) if p.tag == "parse"]
        b = t.text_base(t.text_node(s, k))
        ok = None
        if len(ps) == 1:
            p = ps[0]
            txt = e.mkseq([mk("win", b, ZERO, I(mk("slen", b)))])
            whole = e.fresh(p, e.P.find_ty(p.args[0]))
            ok = p.args[1] == radix and p.args[2] is txt and x in (whole, tm.bits(whole, 0, 8))
            part = is_int(x) and len(x.args[1]) == 1 and x.args[1][0][0].tag == "bits" and x.args[1][0][0].args[0] is whole
            if not ok and not exact(x) and not part:
                ok = None if p.args[1] == radix and p.args[2] is txt else False
        c.verdict(ok, s, what, "got %s" % str(x)[:200])


@maker(("strLit", "Bytes"))
def m_str(c, st, v, node, w):
    what = w + "the bytes of the characters and escapes, in order"
    c.check(st, v, ("list", node, 0, {"charValueQuot": ("bytes", char_bytes), "charValueDblQuot": ("bytes", char_bytes)}), what)


# ------------------------------------------------------------------------------------------------ files

def file_spec(c, st, v):
    """parse_str: the package of a file."""
    root = None
    for x in st.facts.conds():
        for y in walk(x):
            if y.tag == "root":
                root = y
    if root is None:
        for L in c.e.loops:
            for b in L.backs:
                for x in b.facts.conds():
                    for y in walk(x):
                        if y.tag == "root":
                            root = y
    if root is None:
        return c.verdict(None, st, "the package of a file")
    c.check(st, c.field(st, v, "types"), ("list", root, 0, {"topLevelDef": ("spec", "ProtobufItemBuilder")}),
            "definitions: one for each declared, in order")
    nm = c.field(st, v, "name")
    what = "the package name is the declared one"
    if nm is None:
        return c.verdict(None, st, what, "no such field")
    L, slot = c.bases.get(("phi", nm.args[0]), (None, None)) if nm.tag == "sym" else (None, None)
    for L2 in [L] if L is not None else c.e.loops:
        for ix in c.index_slot(L2, root):
            node = c.t.child(root, I(ix.phi))
            if st.facts.test(ge0(sub(I(ix.phi), c.t.count(root)))) is not True:
                continue
            if cval(ix.init) is None if is_int(ix.init) else False:
                continue
            if slot is not None and slot.init is not None:
                c.check(st, slot.init, ("variant", "None", ()), what)
            elif slot is None:
                c.check(st, nm, ("variant", "None", ()), what)
            for k, b in enumerate(L2.backs):
                got = slot.vals.get(k) if slot is not None else nm
                if got is None:
                    got = nm               # left as it was
                same = got is nm or got is expand(c.e, b, nm)
                rs = c.t.rules(b, node)
                if "package" not in rs:
                    c.verdict(True if same else None, b, what, str(got)[:200])
                elif rs == ["package"]:
                    if same:
                        c.verdict(False, b, what, "a package statement is ignored")
                    else:
                        c.check(b, got, ("variant", "Some", (("spec", "String", c.t.child(node, 0)),)), what)
                else:
                    c.verdict(False if same else None, b, what, "a package statement is ignored")
            return
    c.verdict(None, st, what, "loop not recognised")


def map_field(c, st):
    """Maps are not supported: reported."""
    for x in st.facts.conds():
        for y in walk(x):
            if y.tag == "rule" and c.t.rule(st, y.args[0]) == "mapField":
                return True
    return False


ALLOWED = {("message", "MessageBuilder"): (map_field,), ("intLit", "u64"): (signed,)}
