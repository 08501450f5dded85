"""Concrete readings of terms over strings, to tell two terms apart under the facts of a path."""
from . import terms as tm
from .terms import T, cval, is_int


class Unevaluable(Exception):
    pass


class World:
    """Texts of bases, values of loop variables; table entries are free (remembered per text)."""

    def __init__(self, texts, ints, lists=None, element=None):
        self.texts, self.ints, self.lists, self.element = texts, ints, lists or {}, element

    def num(self, t):
        n = t.args[0]
        for a, c in t.args[1]:
            n += c * self.atom(a)
        return n

    def atom(self, a):
        if a in self.ints:
            return self.ints[a]
        if a.tag in ("int", "rng") and isinstance(a.args[0], T):
            return self.atom(a.args[0])
        if a.tag == "slen" and a.args[0] in self.lists:
            return len(self.lists[a.args[0]])
        if a.tag == "slen":
            return len(self.base(a.args[0]))
        if a.tag in ("find", "rfind"):
            s, x = self.text(a.args[0]), self.pattern(a.args[1])
            n = s.find(x) if a.tag == "find" else s.rfind(x)
            if n < 0:
                raise Unevaluable(a)
            return n
        raise Unevaluable(a)

    def base(self, b):
        n = b.args[0]
        if b not in self.texts and getattr(n, "tag", None) == "join":
            return self.text(n.args[1]).join(self.list(n.args[0]))
        return self.texts.get(b, b"other")

    def list(self, s):
        out = []
        for p in s.args[0]:
            if p.tag == "win" and p.args[0] in self.lists:
                o, n = self.num(p.args[1]), self.num(p.args[2])
                if o < 0 or n < 0 or o + n > len(self.lists[p.args[0]]):
                    raise Unevaluable(s)
                out += self.lists[p.args[0]][o:o + n]
            elif p.tag == "lit" and self.element is not None:
                for x in p.args[0]:
                    t = self.element(x)
                    if t is None:
                        raise Unevaluable(x)
                    out.append(self.text(t))
            else:
                raise Unevaluable(p)
        return out

    def pattern(self, x):
        if is_int(x):
            c = cval(x)
            if c is None:
                raise Unevaluable(x)
            return chr(c).encode()
        return self.text(x)

    def text(self, s):
        if s.tag != "seq":
            raise Unevaluable(s)
        out = b""
        for p in s.args[0]:
            if p.tag == "cst":
                out += p.args[0]
            elif p.tag == "win":
                b, o, n = self.base(p.args[0]), self.num(p.args[1]), self.num(p.args[2])
                if o < 0 or n < 0 or o + n > len(b):
                    raise Unevaluable(s)
                out += b[o:o + n]
            elif p.tag == "lit" and all(is_int(x) for x in p.args[0]):
                out += bytes(self.num(x) & 255 for x in p.args[0])
            else:
                raise Unevaluable(p)
        return out

    def holds(self, c):
        if c.tag == "not":
            return not self.holds(c.args[0])
        if c.tag == "ge":
            return self.num(c.args[0]) >= 0
        if c.tag == "eq":
            return self.num(c.args[0]) == 0
        if c.tag == "bsym":
            x = c.args[0]
            if x.tag == "find":
                return self.pattern(x.args[1]) in self.text(x.args[0])
            if x.tag == "strip_prefix":
                return self.text(x.args[0]).startswith(self.pattern(x.args[1]))
            if x.tag == "strip_suffix":
                return self.text(x.args[0]).endswith(self.pattern(x.args[1]))
        if c.tag == "mhas" and c.args[1].tag == "seq":
            return ("has", c.args[0], self.text(c.args[1]))
        raise Unevaluable(c)

    def allows(self, conds):
        """Do all the facts hold?  Facts about entries hold where no two of them contradict each other."""
        has = {}
        for c in conds:
            neg = c.tag == "not"
            r = self.holds(c.args[0] if neg else c)
            if isinstance(r, tuple):
                if has.setdefault(r, not neg) is not (not neg):
                    return False
            elif r is neg:
                return False
        return True
