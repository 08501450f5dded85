"""The token tree pest builds, as symbolic values.

A pair is a node: its rule, the sequence of its children, its text. What children a node can have is read off the
compiled grammar: for every rule a list of shapes, each a prefix of sets of rules and possibly a tail of a set of rules.
Functions that turn a pair into a value are analysed one at a time; a call to another of them yields the symbol
spec(kind, node), which that function is in turn checked to compute."""
from . import terms as tm
from .terms import mk, num, add, sub, addc, I, cval, ge0, eq0, ZERO, ONE, TRUE, FALSE
from .interp import Fork, State
from .models import model, Ctx, slc, forked, mark_imp
from . import grammar


class Shape:
    __slots__ = ("prefix", "tail", "extra")

    def __init__(self, prefix, tail, extra=0):
        self.prefix, self.tail, self.extra = prefix, tail, extra

    def at(self, i):
        return self.prefix[i] if i < len(self.prefix) else self.tail

    def every(self):
        r = set(self.tail or ())
        for p in self.prefix:
            r |= p
        return frozenset(r)

    def __repr__(self):
        return " ".join("|".join(sorted(p)) for p in self.prefix) + (" (%s)*" % "|".join(sorted(self.tail)) if self.tail else "")


class Shapes:
    """Children of the pairs of each rule."""

    def __init__(self, g):
        self.g = g
        self.memo = {}
        self.wordmemo = {}
        self.headmemo = {}
        self.infomemo = {}
        for r in ("WHITESPACE", "COMMENT"):
            if r in g.rules and g.rules[r][0] != "_":
                raise grammar.GrammarError("%s is not silent" % r)

    def of(self, rule):
        r = self.memo.get(rule)
        if r is None:
            r = self.memo[rule] = self._of(rule)
        return r

    def _of(self, rule):
        if rule == "EOI" or rule not in self.g.rules:
            return [Shape([], None)]
        m, e, _ = self.g.rules[rule]
        n = Nfa()
        s = n.new()
        t = self.build(n, e, s, m == "@", ())
        n.final = t
        return n.shapes()

    def build(self, n, e, s, atomic, stack):
        k = e[0]
        if k in ("str", "ins", "range", "pos", "neg"):
            return s
        if k == "ref":
            name = e[1]
            if name == "EOI":
                t = n.new()
                n.edge(s, None if atomic else "EOI", t)
                return t
            if name not in self.g.rules:
                return s
            m, x, _ = self.g.rules[name]
            if m == "_":
                if name in stack:
                    raise grammar.GrammarError("recursive silent rule " + name)
                return self.build(n, x, s, atomic, stack + (name,))
            t = n.new()
            n.edge(s, None if atomic and m in ("", "@") else name, t)
            return t
        if k == "seq":
            for x in e[1]:
                s = self.build(n, x, s, atomic, stack)
            return s
        if k == "choice":
            t = n.new()
            for x in e[1]:
                n.edge(self.build(n, x, s, atomic, stack), None, t)
            return t
        if k == "opt":
            t = n.new()
            n.edge(self.build(n, e[1], s, atomic, stack), None, t)
            n.edge(s, None, t)
            return t
        if k in ("star", "plus"):
            a = n.new()
            n.edge(s, None, a)
            b = self.build(n, e[1], a, atomic, stack)
            n.edge(b, None, a)
            if k == "plus":
                return b if b != a else a
            return a
        if k == "rep":
            _, x, lo, hi = e
            for _ in range(lo or 0):
                s = self.build(n, x, s, atomic, stack)
            if hi is None:
                return self.build(n, ("star", x), s, atomic, stack)
            t = n.new()
            for _ in range(hi - (lo or 0)):
                n.edge(s, None, t)
                s = self.build(n, x, s, atomic, stack)
            n.edge(s, None, t)
            return t
        raise grammar.GrammarError("unsupported expression " + k)

    def transparent(self, rule):
        """Does a pair of this rule always span exactly its only child?"""
        if rule not in self.g.rules:
            return False
        m, e, _ = self.g.rules[rule]

        def single(x):
            if x[0] == "choice":
                return all(single(y) for y in x[1])
            if x[0] == "ref":
                r = self.g.rules.get(x[1])
                return r is not None and (r[0] in ("", "@", "$", "!") or r[0] == "_" and single(r[1]))
            return False
        return m in ("", "$", "!") and single(e)

    # -------------------------------------------------- texts
    LIMIT = 40

    def words(self, rule):
        """All texts of a rule when they are few, else None."""
        if rule not in self.wordmemo:
            self.wordmemo[rule] = None
            try:
                m, e, _ = self.g.rules[rule]
                self.wordmemo[rule] = self._words(e, m in ("@", "$"), 0)
            except (KeyError, OverflowError):
                pass
        return self.wordmemo[rule]

    def _words(self, e, atomic, depth):
        if depth > 12:
            raise OverflowError
        k = e[0]
        if k in ("pos", "neg"):
            return {""}
        if k == "str":
            return {e[1]}
        if k == "range":
            if e[2] - e[1] > self.LIMIT:
                raise OverflowError
            return {chr(c) for c in range(e[1], e[2] + 1)}
        if k == "ref":
            m, x, _ = self.g.rules[e[1]]
            return self._words(x, {"@": True, "$": True, "!": False}.get(m, atomic), depth + 1)
        if k == "choice":
            r = set()
            for x in e[1]:
                r |= self._words(x, atomic, depth + 1)
        elif k == "opt":
            r = self._words(e[1], atomic, depth + 1) | {""}
        elif k == "seq":
            r = {""}
            for x in e[1]:
                w = self._words(x, atomic, depth + 1)
                if not atomic and self.g.has_ws and r != {""} and w != {""}:
                    raise OverflowError
                r = {a + b for a in r for b in w}
                if len(r) > self.LIMIT:
                    raise OverflowError
        else:
            raise OverflowError
        if len(r) > self.LIMIT:
            raise OverflowError
        return r

    def heads(self, rule, n):
        """What a text of the rule may start with: strings of n characters, shorter ones where a text may end; None if many."""
        if (rule, n) not in self.headmemo:
            self.headmemo[rule, n] = None
            try:
                m, e, _ = self.g.rules[rule]
                self.headmemo[rule, n] = self._heads(e, m in ("@", "$"), n, 0)
            except (KeyError, OverflowError):
                pass
        return self.headmemo[rule, n]

    def _heads(self, e, atomic, n, depth):
        if depth > 20:
            raise OverflowError
        k = e[0]
        if k in ("pos", "neg"):
            return {""}
        if k == "str":
            return {e[1][:n]}
        if k == "ins":
            r = {""}
            for ch in e[1][:n]:
                r = {a + b for a in r for b in {ch.lower(), ch.upper()}}
            return r
        if k == "range":
            if e[2] - e[1] > 100:
                raise OverflowError
            return {chr(c) for c in range(e[1], e[2] + 1)}
        if k == "ref":
            if e[1] not in self.g.rules and e[1] in ("SOI", "EOI"):
                return {""}
            m, x, _ = self.g.rules[e[1]]
            return self._heads(x, {"@": True, "$": True, "!": False}.get(m, atomic), n, depth + 1)
        if k == "choice":
            return set().union(*[self._heads(x, atomic, n, depth + 1) for x in e[1]])

        def after(r, x):
            out = {a for a in r if len(a) >= n}
            for a in r - out:
                if a and not atomic and self.g.has_ws:
                    raise OverflowError
                out |= {a + b for b in self._heads(x, atomic, n - len(a), depth + 1)}
            if len(out) > 400:
                raise OverflowError
            return out
        if k == "seq":
            r = {""}
            for x in e[1]:
                r = after(r, x)
            return r
        if k == "opt":
            return {""} | self._heads(e[1], atomic, n, depth + 1)
        if k in ("star", "plus"):
            r = {""} if k == "star" else self._heads(e[1], atomic, n, depth + 1)
            for _ in range(n + 1):
                r = r | after(r, e[1])
            return r
        raise OverflowError

    def info(self, rule):
        """(least length, greatest length or None, set of characters or None) in characters of a rule's text."""
        if rule not in self.infomemo:
            self.infomemo[rule] = (0, None, None)
            if rule in self.g.rules:
                m, e, _ = self.g.rules[rule]
                self.infomemo[rule] = self._info(e, m in ("@", "$"), 0)
        return self.infomemo[rule]

    def _info(self, e, atomic, depth):
        top = (0, None, None)
        if depth > 14:
            return top
        k = e[0]
        if k in ("pos", "neg"):
            return (0, 0, frozenset())
        if k == "str":
            return (len(e[1]), len(e[1]), frozenset(e[1]))
        if k == "ins":
            return (len(e[1]), len(e[1]), frozenset(e[1].lower() + e[1].upper()))
        if k == "range":
            return (1, 1, frozenset(map(chr, range(e[1], e[2] + 1))) if e[2] < 128 else None)
        if k == "ref":
            if e[1] not in self.g.rules:
                return (0, 0, frozenset()) if e[1] in ("SOI", "EOI") else (1, 1, None)
            m, x, _ = self.g.rules[e[1]]
            return self._info(x, {"@": True, "$": True, "!": False}.get(m, atomic), depth + 1)
        if k == "choice":
            xs = [self._info(x, atomic, depth + 1) for x in e[1]]
            return (min(x[0] for x in xs), None if any(x[1] is None for x in xs) else max(x[1] for x in xs),
                    None if any(x[2] is None for x in xs) else frozenset().union(*[x[2] for x in xs]))
        if k == "seq":
            xs = [self._info(x, atomic, depth + 1) for x in e[1]]
            ws = not atomic and self.g.has_ws and sum(x[1] != 0 for x in xs) > 1
            return (sum(x[0] for x in xs), None if ws or any(x[1] is None for x in xs) else sum(x[1] for x in xs),
                    None if ws or any(x[2] is None for x in xs) else frozenset().union(*[x[2] for x in xs]))
        x = self._info(e[1], atomic, depth + 1)
        ws = not atomic and self.g.has_ws
        if k == "opt":
            return (0, x[1], x[2])
        if k == "star":
            return (0, None, None if ws else x[2])
        if k == "plus":
            return (x[0], None, None if ws else x[2])
        if k == "rep":
            hi = None if e[3] is None or x[1] is None or ws else x[1] * e[3]
            return (x[0] * (e[2] or 0), hi, None if ws else x[2])
        return top


class Nfa:
    def __init__(self):
        self.n = 0
        self.e = {}
        self.final = None

    def new(self):
        self.n += 1
        return self.n - 1

    def edge(self, a, x, b):
        self.e.setdefault(a, []).append((x, b))

    def close(self, ss):
        out, work = set(ss), list(ss)
        while work:
            for x, b in self.e.get(work.pop(), ()):
                if x is None and b not in out:
                    out.add(b)
                    work.append(b)
        return frozenset(out)

    def shapes(self):
        start = self.close([0])
        trans, work = {}, [start]
        while work:
            s = work.pop()
            if s in trans:
                continue
            nx = {}
            for q in s:
                for x, b in self.e.get(q, ()):
                    if x is not None:
                        nx.setdefault(x, set()).add(b)
            trans[s] = {x: self.close(b) for x, b in nx.items()}
            work += trans[s].values()
        # Equivalent states.
        cls = {s: int(self.final in s) for s in trans}
        while True:
            sig = {s: (cls[s], tuple(sorted((x, cls[b]) for x, b in trans[s].items()))) for s in trans}
            ids = {v: i for i, v in enumerate(sorted(set(sig.values()), key=repr))}
            new = {s: ids[sig[s]] for s in trans}
            if len(ids) == len(set(cls.values())):
                cls = new
                break
            cls = new
        d, acc = {}, {}
        for s in trans:
            d[cls[s]] = {x: cls[b] for x, b in trans[s].items()}
            acc[cls[s]] = self.final in s

        def reach(q):
            out, work = set(), [q]
            while work:
                for b in d[work.pop()].values():
                    if b not in out:
                        out.add(b)
                        work.append(b)
            return out
        out = []

        def dist(q):
            k, front, seen = 0, {q}, {q}
            while front:
                if any(acc[x] for x in front):
                    return k
                front = {b for x in front for b in d[x].values()} - seen
                seen |= front
                k += 1
            return 0

        def walk(q, prefix):
            if len(prefix) > 12 or len(out) > 12:
                raise OverflowError
            r = reach(q)
            if q in r:
                out.append(Shape(prefix, frozenset(x for s in r | {q} for x in d[s]), dist(q)))
                return
            if acc[q]:
                out.append(Shape(prefix, None))
            succ = {}
            for x, b in d[q].items():
                succ.setdefault(b, set()).add(x)
            for b, xs in sorted(succ.items()):
                walk(b, prefix + [frozenset(xs)])
        try:
            walk(cls[start], [])
        except OverflowError:
            return [Shape([], frozenset(x for q in d for x in d[q]), 0)]
        return out


# ------------------------------------------------------------------------------------------------ the models

class Tree:
    """What an engine knows about pairs; kept at e.tree."""

    def __init__(self, e, shapes):
        self.e, self.sh = e, shapes
        P = e.P
        self.pair = self.pairs = None
        for i, t in enumerate(P.types):
            if t["k"] == "adt" and t["adt"] == "pest::iterators::Pair" and self.pair is None:
                self.pair = i
            if t["k"] == "adt" and t["adt"] == "pest::iterators::Pairs" and self.pairs is None:
                self.pairs = i
        self.rulety = P.types[self.pair]["args"][-1] if self.pair is not None else None
        for a in P.types[self.pair]["args"]:
            if e.kind(a) == "adt":
                self.rulety = a
        self.names = [v["name"] for v in P.adts[P.types[self.rulety]["adt"]]["variants"]]
        self.discr = {v["name"]: v["discr"] for v in P.adts[P.types[self.rulety]["adt"]]["variants"]}
        self.byd = {v: k for k, v in self.discr.items()}
        self.strref = P.find_ty("&str")
        e.tree = self
        e.axioms.append(self.axiom)
        e.parse_hooks.append(self.parse_hook)
        e.boundary_hooks.append(self.boundary)
        e.head_hooks.append(self.heads)

    # ---------------- rules
    def axiom(self, e, st, v, dom):
        n = v.args[0]
        if getattr(n, "tag", None) != "rule":
            return dom
        ok = self.possible(st, n.args[0])
        if ok is None:
            return dom
        return [d for d in dom if self.byd[d] in ok] or dom

    def possible(self, st, node):
        """The rules the grammar allows a node to have here."""
        if node.tag == "root":
            return frozenset([node.args[1]])
        if node.tag != "el" or node.args[0].tag != "base" or node.args[0].args[0].tag != "kids":
            return None
        parent, idx = node.args[0].args[0].args[0], node.args[1]
        out = set()
        for k, sh in self.live_shapes(st, parent):
            c = cval(st.facts.norm(idx))
            if c is not None:
                r = sh.at(c)
                out |= r or ()
            elif sh.prefix:
                if st.facts.test(ge0(addc(idx, -len(sh.prefix)))) is True:
                    out |= sh.tail or ()
                else:
                    for i, p in enumerate(sh.prefix):
                        if st.facts.test(eq0(addc(idx, -i))) is not False:
                            out |= p
                    out |= sh.tail or ()
            else:
                out |= sh.tail or ()
        return frozenset(out)

    def rule_sym(self, node):
        return self.e.fresh(mk("rule", node), self.rulety)

    def rules(self, st, node):
        """The rules node may still have."""
        ok = self.possible(st, node)
        out = []
        v = self.rule_sym(node)
        d = self.e.discr(st, v)
        for r in self.names if ok is None else sorted(ok):
            if r in self.discr and st.facts.test(eq0(addc(d, -self.discr[r]))) is not False:
                out.append(r)
        if len(out) > 1:
            out = [r for r in out if not self.excluded(st, node, r)] or out
        return out

    def excluded(self, st, node, r):
        """Is it known of every word of the rule that it is not the text of node?"""
        from .models import seq_eq
        ws = self.sh.words(r)
        if not ws:
            return False
        b = self.text_base(node)
        txt = self.e.mkseq([mk("win", b, ZERO, I(mk("slen", b)))])
        for w in ws:
            if st.facts.test(seq_eq(self.e, st, txt, self.e.cst(w.encode()))) is not False:
                return False
        return True

    def rule(self, st, node):
        r = self.rules(st, node)
        return r[0] if len(r) == 1 else None

    def need_rule(self, st, node):
        """The node's rule, forking while there are several."""
        rs = self.rules(st, node)
        d = self.e.discr(st, self.rule_sym(node))
        for r in rs[:-1]:
            if self.e.decide(st, eq0(addc(d, -self.discr[r]))):
                return r
        return rs[-1] if rs else None

    # ---------------- shapes
    def shape_int(self, node):
        return I(mk("rng", mk("shape", node), 0, 64))

    def live_shapes(self, st, node):
        r = self.rule(st, node)
        if r is None:
            out = []
            for q in self.rules(st, node):
                out += [(None, s) for s in self.sh.of(q)]
            return out
        x = self.shape_int(node)
        return [(k, s) for k, s in enumerate(self.sh.of(r)) if st.facts.test(eq0(addc(x, -k))) is not False]

    def need_shape(self, st, node):
        r = self.need_rule(st, node)
        if r is None:
            return None
        x = self.shape_int(node)
        ls = self.live_shapes(st, node)
        got = ls[-1][1] if ls else None
        for k, s in ls[:-1]:
            if self.e.decide(st, eq0(addc(x, -k))):
                got, ls = s, [(k, s)]
                break
        if got is None:
            return None
        f = st.facts.assume(eq0(addc(x, -ls[-1][0])))
        n = self.count(node)
        if f is not None:
            if got.tail is None:
                f = f.assume(eq0(addc(n, -len(got.prefix))))
            else:
                f = f.assume(ge0(addc(n, -len(got.prefix) - got.extra)))
        if f is None:
            return None
        st.facts = f
        return got

    def kids(self, node):
        return self.e.base(mk("kids", node), self.pair)

    def count(self, node):
        return I(mk("slen", self.kids(node)))

    def child(self, node, i):
        return mk("el", self.kids(node), i if not isinstance(i, int) else num(i))

    def pair_of(self, node):
        return mk("sym", node, self.pair)

    def iter_of(self, node):
        b = self.kids(node)
        n = self.count(node)
        return mk("it", "slice", "own", (("K", self.e.mkseq([mk("win", b, ZERO, n)])), ()), ZERO, n, self.pair)

    # ---------------- texts
    def text_node(self, st, node, depth=0):
        """The node further down that spans the same text."""
        while depth < 8:
            r = self.rule(st, node)
            if r is None or not self.sh.transparent(r):
                return node
            node = self.child(node, 0)
            depth += 1
        return node

    def text_ref(self, node):
        return self.e.fresh(mk("text", node), self.strref)

    def text_base(self, node):
        return self.e.base(mk("deref", mk("text", node)), self.e.u8)

    def text(self, st, node):
        """The content of a node's text: a constant where it is known."""
        node = self.text_node(st, node)
        ws = self.node_words(st, node)
        for w in ws or ():
            if st.facts.test(self.is_text(node, w)) is True:
                return self.e.cst(w.encode())
        b = self.text_base(node)
        return self.e.mkseq([mk("win", b, ZERO, I(mk("slen", b)))])

    def is_text(self, node, w):
        return mk("bsym", mk("istext", node, w))

    def node_words(self, st, node):
        out = set()
        for r in self.rules(st, node) or [None]:
            w = self.sh.words(r) if r else None
            if w is None:
                return None
            out |= w
        return sorted(out) if len(out) <= self.sh.LIMIT else None

    def node_info(self, st, node):
        xs = [self.sh.info(r) for r in self.rules(st, node)]
        if not xs:
            return (0, None, None)
        return (min(x[0] for x in xs), None if any(x[1] is None for x in xs) else max(x[1] for x in xs),
                None if any(x[2] is None for x in xs) else frozenset().union(*[x[2] for x in xs]))

    def node_of_base(self, b):
        """The node whose text a sequence base is."""
        if b.tag == "base" and b.args[0].tag == "deref" and getattr(b.args[0].args[0], "tag", None) == "text":
            return b.args[0].args[0].args[0]
        return None

    def heads(self, st, s, n):
        """What the first n characters of a text may be, or None."""
        if s.tag != "seq" or len(s.args[0]) != 1 or s.args[0][0].tag != "win":
            return None
        p = s.args[0][0]
        node = self.node_of_base(p.args[0])
        if node is None or not st.facts.eq(p.args[1], ZERO) or not st.facts.eq(p.args[2], I(mk("slen", p.args[0]))):
            return None
        out = set()
        for r in self.rules(st, node):
            h = self.sh.heads(r, n)
            if h is None:
                return None
            out |= h
        return out

    def boundary(self, c, s, at):
        """Every position of a text in which only ASCII characters occur lies between characters."""
        if s.tag != "seq":
            return False
        for p in s.args[0]:
            if p.tag == "cst":
                if any(x >= 128 for x in p.args[0]):
                    return False
            elif p.tag == "win":
                n = self.node_of_base(p.args[0])
                if n is None:
                    return False
                cs = self.node_info(c.st, n)[2]
                if cs is None or any(ord(x) >= 128 for x in cs):
                    return False
            else:
                return False
        return True

    DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"

    def parse_hook(self, c, nm):
        """True when the text always parses."""
        _, ty, radix, s = (None,) + nm.args
        if s.tag != "seq" or len(s.args[0]) != 1 or s.args[0][0].tag != "win":
            return None
        p = s.args[0][0]
        n = self.node_of_base(p.args[0])
        if n is None or not c.st.facts.eq(p.args[1], ZERO):
            return None
        if ty in ("f32", "f64"):
            rs = self.rules(c.st, n)
            return True if rs and all(float_rule(self.sh.g, r) for r in rs) else None
        lo, hi, cs = self.node_info(c.st, n)
        if lo < 1 or hi is None or cs is None:
            return None
        ds = self.DIGITS[:radix]
        if not all(x.lower() in ds and ord(x) < 128 for x in cs):
            return None
        bits = 64 if ty[1:] == "size" else int(ty[1:])
        top = (1 << bits) - 1 if ty[0] == "u" else (1 << (bits - 1)) - 1
        return True if radix ** hi - 1 <= top else None


_floats = {}


def float_rule(g, rule):
    """Is every text of the rule one that str::parse::<f64> accepts?"""
    key = (id(g), rule)
    if key not in _floats:
        _floats[key] = False
        txt = g.text + ("\nrustDigits__ = @{ ('0'..'9')+ }\n"
                        "rustFloat__ = @{ (\"-\" | \"+\")? ~ (^\"infinity\" | ^\"inf\" | ^\"nan\" | ((rustDigits__ ~ (\".\" ~ rustDigits__?)?) | "
                        "(\".\" ~ rustDigits__)) ~ (^\"e\" ~ (\"-\" | \"+\")? ~ rustDigits__)?) }\n")
        try:
            g2 = grammar.Grammar(txt)
            al = grammar.Alphabet([g2])
            d1 = grammar.lang(g2, al, ("ref", rule))
            d2 = grammar.lang(g2, al, ("ref", "rustFloat__"))
            _floats[key] = grammar.witness_in_not(d1, d2) is None
        except Exception:
            pass
    return _floats[key]


def tree_of(c):
    return getattr(c.e, "tree", None)


def node_of(c, p):
    v = p
    while v.tag in ("ptr", "box"):
        v = c.read(v)
    return v.args[0] if v.tag == "sym" else None


@model("Pair.as_rule")
def m_as_rule(c, p):
    t = tree_of(c)
    n = node_of(c, p) if t else None
    if n is None:
        return NotImplemented
    r = t.rule(c.st, n)
    if r is not None:
        return c.one(mk("agg", t.rulety, t.names.index(r), ()))
    return c.one(t.rule_sym(n))


@model("Pair.into_inner")
def m_into_inner(c, p):
    t = tree_of(c)
    n = node_of(c, p) if t else None
    if n is None:
        return NotImplemented
    e = c.e

    def go(s):
        sh = t.need_shape(s, n)
        return [(s, t.iter_of(n))] if sh is not None else []
    return forked(e, c.st, go)


@model("Pair.as_str")
def m_as_str(c, p):
    t = tree_of(c)
    n = node_of(c, p) if t else None
    if n is None:
        return NotImplemented
    e = c.e
    n = t.text_node(c.st, n)
    ws = t.node_words(c.st, n)
    if ws:
        def go(s):
            for w in ws[:-1]:
                if e.decide(s, t.is_text(n, w)):
                    return [(s, mk("sptr", ("K", e.cst(w.encode())), (), ZERO, num(len(w.encode()))))]
            w = ws[-1]
            f = s.facts.assume(t.is_text(n, w))
            if f is None:
                return []
            s.facts = f
            return [(s, mk("sptr", ("K", e.cst(w.encode())), (), ZERO, num(len(w.encode()))))]
        return forked(e, c.st, go)
    lo, hi, cs = t.node_info(c.st, n)
    ln = I(mk("slen", t.text_base(n)))
    f = c.st.facts.assume(ge0(addc(ln, -lo)))
    if f is not None and hi is not None and cs is not None and all(ord(x) < 128 for x in cs):
        f = f.assume(ge0(sub(num(hi), ln)))
    if f is not None:
        c.st.facts = f
    return c.one(t.text_ref(n))


@model("Pairs|IntoIterator::into_iter")
def m_pairs_iter(c, v):
    return c.one(v) if v.tag == "it" else NotImplemented


@model("Pairs|Clone::clone", "Pair|Clone::clone")
def m_pairs_clone(c, p):
    v = c.read(p)
    return c.one(v) if v.tag in ("it", "sym") else NotImplemented


@model("Pairs.peek")
def m_pairs_peek(c, p):
    from .models import pull
    v = c.read(p)
    if tree_of(c) is None or v.tag != "it":
        return NotImplemented
    out = []
    for s, it, ev in pull(c, c.st, v):
        out.append((s, mk("agg", c.rt, 1, (ev[1],)) if ev[0] == "item" else mk("agg", c.rt, 0, ())))
    return out


# ------------------------------------------------------------------------------------------------ the functions

SPECS = {
    # (rule, result): what a function from a pair of the rule to such a value computes
    ("topLevelDef", "ProtobufItemBuilder"), ("message", "MessageBuilder"), ("enum_", "EnumBuilder"), ("service", "ServiceBuilder"),
    ("field", "FieldBuilder"), ("oneofField", "FieldBuilder"), ("oneof", "OneofBuilder"), ("rpc", "RpcBuilder"),
    ("rpcParam", "RpcArgBuilder"), ("fieldNumber", "u64"), ("intLit", "u64"), ("intLit", "i64"), ("floatLit", "f64"),
    ("unsignedFloat", "f64"), ("option", "ProtoOption"), ("fieldOption", "ProtoOption"), ("enumValueOption", "ProtoOption"),
    ("constant", "Constant"), ("optionName", "String"), ("fullIdent", "String"), ("strLit", "Bytes"), ("enumField", "EnumField"),
    ("type_", "FieldTypeBuilder"), ("messageType", "String"), ("enumType", "String"),
}


def tyname(P, t):
    ty = P.types[t]
    if ty["k"] == "adt":
        return ty["adt"].split("::")[-1]
    return ty.get("s")


def result_of(P, t):
    """(payload type, is it wrapped in a Result)."""
    ty = P.types[t]
    if ty["k"] == "adt" and ty["adt"].endswith("result::Result"):
        return ty["args"][0], True
    return t, False


def is_parser(P, inst):
    n = P.insts[inst]["name"]
    return " as pest::Parser<" in n and n.endswith(">::parse")


class Parse:
    """Analyses of the functions that walk the tree, one (function, rule) at a time."""

    def __init__(self, P, shapes, deadline):
        self.P, self.shapes, self.deadline = P, shapes, deadline
        self.todo = []
        self.seen = set()

    def need(self, inst, rule):
        if (inst, rule) not in self.seen:
            self.seen.add((inst, rule))
            self.todo.append((inst, rule))

    def engine(self):
        from .interp import Engine
        from . import axioms
        e = Engine(self.P)
        e.deadline = self.deadline
        axioms.install(e)
        e.second_try = True
        t = Tree(e, self.shapes)
        e.call_hook = lambda fr, inst, args, st, rt: self.hook(e, t, fr, inst, args, st, rt)
        return e, t

    def hook(self, e, t, fr, inst, args, st, rt):
        P = self.P
        if is_parser(P, inst) and len(args) == 2:
            a = args[0]
            rule = t.names[a.args[1]] if a.tag == "agg" else None
            if rule is None:
                return None
            root = mk("root", args[1], rule)
            at = P.types[rt]["args"]
            it = mk("it", "slice", "own", (("K", e.mkseq([mk("lit", (t.pair_of(root),))])), ()), ZERO, ONE, t.pair)
            out = []
            for c, v in ((mk("bsym", mk("syntax", args[1])), mk("agg", rt, 0, (it,))),
                         (tm.not_(mk("bsym", mk("syntax", args[1]))), mk("agg", rt, 1, (e.fresh(mk("syntaxerr", args[1]), at[1]),)))):
                s = st.assume(c)
                if s is not None:
                    out.append((s.fork(), v))
            return out
        if len(args) != 1 or P.body(inst) is None:
            return None
        v = args[0]
        while v.tag == "ptr":
            v = e.read(st, v.args[0], v.args[1])
        if v.tag != "sym" or P.types[v.args[1]].get("adt") != "pest::iterators::Pair":
            return None
        pt, wrapped = result_of(P, rt)
        nm = tyname(P, pt)
        node = v.args[0]

        def go(s):
            rule = t.need_rule(s, node)
            if (rule, nm) not in SPECS:
                raise NoSpec()
            self.need(inst, rule)
            at = t.text_node(s, node)
            r = e.fresh(mk("spec", nm, at), pt)
            if not wrapped:
                return [(s, r)]
            if e.decide(s, mk("bsym", mk("accepts", nm, at))):
                return [(s, mk("agg", rt, 0, (r,)))]
            return [(s, mk("agg", rt, 1, (e.fresh(mk("refusal", nm, at), P.types[rt]["args"][1]),)))]
        if len(t.rules(st, node)) > 4:
            return None
        try:
            return forked(e, st, go)
        except NoSpec:
            return None

    def run(self, inst, rule):
        e, t = self.engine()
        b = self.P.body(inst)
        st = State()
        if rule is None:
            args = [e.fresh(mk("arg", k), b.locals[k + 1]) for k in range(b.argc)]
            node = None
        else:
            node = mk("root", mk("arg", 0), rule)
            v = t.pair_of(node)
            if self.P.types[b.locals[1]]["k"] == "ref":
                v = mk("ptr", ("K", v), ())
            args = [v]
        outs = e.call_body(inst, args, st, ())
        return Result(self, e, t, inst, rule, node, outs)


class NoSpec(Exception):
    pass


class Result:
    def __init__(self, p, e, t, inst, rule, node, outs):
        self.p, self.e, self.t, self.inst, self.rule, self.node, self.outs = p, e, t, inst, rule, node, outs
        self.name = p.P.insts[inst]["name"].replace("protofish::", "")


def entry(P):
    """Functions that call the pest parser directly."""
    out = []
    for i, x in enumerate(P.insts):
        if x and x["local"] and P.body(i) is not None:
            for b in P.body(i).blocks:
                if b["t"][0] == "call" and b["t"][1] is not None and is_parser(P, b["t"][1]):
                    out.append(i)
    return sorted(set(out))
