"""The relational part of an abstract state: linear constraints over integer atoms, finite domains
for discriminants, and truth values of other boolean terms."""
from math import gcd
from . import terms as tm
from .terms import T, mk, cval, lin, num, add, sub, scale, addc, arange, INF, TRUE, FALSE

FM_LIMIT = 220


BITOPS = {"BitAnd": tm.and_, "BitOr": tm.or_, "BitXor": tm.xor_}


def atoms_of(c):
    """What a condition is about."""
    if c.tag in ("not", "and", "or"):
        return frozenset().union(*map(atoms_of, c.args))
    if c.tag in ("ge", "eq0"):
        return frozenset(a for a, _ in c.args[0].args[1])
    return frozenset(x for x in c.args if isinstance(x, tm.T)) | {c}


class Facts:
    __slots__ = ("ges", "nes", "doms", "bools", "sub", "_bounds", "imp", "log", "alls", "_deep", "_q", "_n")

    def __init__(self):
        self.ges = ()       # lin terms known to be >= 0
        self.nes = frozenset()
        self.doms = {}      # atom -> frozenset of possible values
        self.bools = {}     # boolean atom -> bool
        self.sub = {}       # atom -> lin (solved equalities)
        self._bounds = None
        self.imp = False    # a condition that was assumed depends on an unknown value
        self.log = None     # linked list of the assumed conditions, newest first
        self.alls = ()      # statements about every element a finished loop went over
        self._deep = 0      # how many of them have been used already
        self._q = {}
        self._n = {}

    def copy(self):
        f = Facts()
        f.alls = self.alls
        f.ges, f.nes, f.imp, f.log = self.ges, self.nes, self.imp, self.log
        f.doms = self.doms
        f.bools = self.bools
        f.sub = self.sub
        return f

    def conds(self):
        out = []
        l = self.log
        while l is not None:
            out.append(l[0])
            l = l[1]
        out.reverse()
        return out

    # ------------------------------------------------------------ normal form of a linear term
    def norm(self, x):
        s = self.sub
        if not s:
            return x
        c = self._n.get(x)
        if c is None:
            c = self._norm(x)
            self._n[x] = c
        return c

    def _norm(self, x):
        s = self.sub
        for _ in range(20):
            d = None
            for a, c in x.args[1]:
                if a.tag == "rng" and a.args[0].tag in BITOPS and a not in s:
                    p, q = a.args[0].args
                    p2, q2 = self.norm(p), self.norm(q)
                    if p2 is not p or q2 is not q:
                        r = BITOPS[a.args[0].tag](p2, q2)
                        if not any(z.tag == "and" for z, _ in r.args[1]):
                            if d is None:
                                d = x
                            d = add(d, sub(r, tm.I(a)), c)
                    continue
                if a.tag in ("bits", "smod", "sar") and a not in s:
                    y = self.norm(a.args[0])
                    if y is not a.args[0]:
                        if a.tag == "bits":
                            r = tm.bits(y, a.args[1], a.args[2])
                        elif a.tag == "smod":
                            r = tm.smod(y, a.args[1])
                        else:
                            r = tm.sar(y, a.args[1])
                        if d is None:
                            d = x
                        d = add(d, sub(r, tm.I(a)), c)
            if d is not None:
                x = d
            hit = False
            for a, _c in x.args[1]:
                if a in s:
                    hit = True
                    break
            if not hit:
                return x
            d = {}
            const = x.args[0]
            for a, c in x.args[1]:
                r = s.get(a)
                if r is None:
                    d[a] = d.get(a, 0) + c
                else:
                    const += c * r.args[0]
                    for a2, c2 in r.args[1]:
                        d[a2] = d.get(a2, 0) + c * c2
            x = lin(const, d)
        return x

    # ------------------------------------------------------------ bounds
    def bounds(self):
        if self._bounds is not None:
            return self._bounds
        b = {}
        for a, dom in self.doms.items():
            ints = [v for v in dom if isinstance(v, int)]
            if ints:
                b[a] = (min(ints), max(ints))

        def get(a):
            r = b.get(a)
            if r is None:
                r = arange(a)
            return r
        ges = [g.args for g in self.ges]
        for _ in range(6):
            changed = False
            for const, items in ges:
                hi_sum = const
                infs = 0
                infa = None
                for a, c in items:
                    l, h = get(a)
                    m = c * h if c > 0 else c * l
                    if m == INF or m != m:
                        infs += 1
                        infa = a
                    else:
                        hi_sum += m
                if infs > 1:
                    continue
                for a, c in items:
                    if infs == 1 and a is not infa:
                        continue
                    l, h = get(a)
                    if infs == 1:
                        rest = hi_sum
                    else:
                        rest = hi_sum - (c * h if c > 0 else c * l)
                    # c*a + rest >= 0
                    if c > 0:
                        lo = -(int(rest) // c)
                        if lo > l:
                            b[a] = (lo, h)
                            changed = True
                    else:
                        hi = int(rest) // (-c)
                        if hi < h:
                            b[a] = (l, hi)
                            changed = True
            for x in self.nes:
                if len(x.args[1]) == 1:
                    a, c = x.args[1][0]
                    if -x.args[0] % c == 0:
                        v = -x.args[0] // c
                        l, h = get(a)
                        if l == v:
                            b[a] = (l + 1, h)
                            changed = True
                        elif h == v:
                            b[a] = (l, h - 1)
                            changed = True
            if not changed:
                break
        self._bounds = b
        return b

    def env(self, a):
        b = self.bounds()
        r = b.get(a)
        if r is None:
            s = self.sub.get(a)
            if s is not None:
                r = self.rng(s)
                r2 = arange(a)
                return (max(r[0], r2[0]), min(r[1], r2[1]))
            return arange(a)
        return r

    def rng(self, x):
        """Interval of a linear term."""
        x = self.norm(x)
        l, h = tm.lrange(x, self.env)
        return l, h

    # ------------------------------------------------------------ queries
    def test(self, b):
        """True / False when the facts decide b, None otherwise."""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        r = self._q.get(b, 0)
        if r == 0:
            r = self._test(b)
            self._q[b] = r
        return r

    def _test(self, b):
        g = b.tag
        if g == "not":
            r = self.test(b.args[0])
            return None if r is None else not r
        if g == "and":
            rs = [self.test(x) for x in b.args]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if g == "or":
            rs = [self.test(x) for x in b.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if g == "ge":
            x = self.norm(b.args[0])
            if self.entails_ge(x):
                return True
            if self.entails_ge(addc(scale(x, -1), -1)):
                return False
            return None
        if g == "eq0":
            r = self.test_eq0(b.args[0])
            return r if r is not None or not self.alls else self._instantiate(b)
        r = self.bools.get(b)
        if r is None and g == "same":
            r = self.bools.get(mk("same", b.args[1], b.args[0]))
        if r is None and self.alls:
            r = self._instantiate(b)
        return r

    def _instantiate(self, b):
        """Does a statement about all elements of a sequence, taken for one it mentions, decide b?"""
        for a in self.alls:
            for j in a.indices(b):
                if a.vacuous(self, j):
                    continue
                got = set()
                alts = a.at(j)
                mine = atoms_of(b)
                if b.tag == "eq0":
                    mine = mine | atoms_of(tm.eq0(self.norm(b.args[0])))
                if not (b.tag == "bsym" and b.args[0].tag == "el") and not any(atoms_of(c) & mine for conds in alts for c in conds):
                    continue
                for conds in alts:
                    f = self.copy()
                    f.alls = ()
                    for c in conds:
                        f = f.assume(c)
                        if f is None:
                            break            # this alternative cannot be
                    else:
                        if self._deep < 1:
                            f = f.copy()
                            f.alls, f._deep = tuple(x for x in self.alls if x is not a), self._deep + 1
                        got.add(f.test(b))
                        if None in got:
                            break
                if not got:
                    return True              # no such element: anything holds
                if len(got) == 1 and None not in got:
                    return got.pop()
        return None

    def test_eq0(self, x):
        x = self.norm(x)
        c = cval(x)
        if c is not None:
            return c == 0
        l, h = tm.lrange(x, self.env)
        if l > 0 or h < 0:
            return False
        if l == h == 0:
            return True
        if len(x.args[1]) == 1:
            a, k = x.args[1][0]
            if x.args[0] % k:
                return False
            v = -x.args[0] // k
            dom = self.doms.get(a)
            if dom is not None:
                if v not in dom:
                    return False
                if len(dom) == 1:
                    return True
        if x in self.nes or scale(x, -1) in self.nes:
            return False
        e = tm.eq0(x)
        if e.tag == "eq0" and (e.args[0] in self.nes or scale(e.args[0], -1) in self.nes):
            return False
        if e is FALSE:
            return False
        up = self.entails_ge(x)
        dn = self.entails_ge(scale(x, -1))
        if up and dn:
            return True
        if self.entails_ge(addc(x, -1)) or self.entails_ge(addc(scale(x, -1), -1)):
            return False
        return None

    def entails_ge(self, x):
        """Is x >= 0 in every concrete state?"""
        x = self.norm(x)
        c = cval(x)
        if c is not None:
            return c >= 0
        l, h = tm.lrange(x, self.env)
        if l >= 0:
            return True
        if h < 0:
            return False
        if self._infeasible(addc(scale(x, -1), -1)):
            return True
        if self.nes:
            # x + 1 >= 0 and x + 1 != 0.
            y = addc(x, 1)
            if y.args[1]:
                e = tm.eq0(y)
                if e.tag == "eq0" and (e.args[0] in self.nes or scale(e.args[0], -1) in self.nes):
                    return self._infeasible(addc(scale(y, -1), -1))
        return False

    def eq(self, x, y):
        if x is y:
            return True
        return self.test_eq0(sub(x, y)) is True

    def _infeasible(self, extra):
        """Do the constraints together with extra >= 0 have no solution (Fourier-Motzkin)?"""
        rows = [extra]
        atoms = {a for a, _ in extra.args[1]}
        pool = list(self.ges)
        # Constraints in the same component.
        changed = True
        while changed:
            changed = False
            rest = []
            for g in pool:
                if any(a in atoms for a, _ in g.args[1]):
                    rows.append(g)
                    for a, _ in g.args[1]:
                        if a not in atoms:
                            atoms.add(a)
                            changed = True
                else:
                    rest.append(g)
            pool = rest
        cons = []
        for r in rows:
            cons.append((r.args[0], dict(r.args[1])))
        env = self.env
        for a in atoms:
            l, h = arange(a)
            l2, h2 = env(a)
            l, h = max(l, l2), min(h, h2)
            if l != -INF:
                cons.append((-int(l), {a: 1}))
            if h != INF:
                cons.append((int(h), {a: -1}))
        seen = set()

        def norm(c, d):
            g = 0
            for v in d.values():
                g = gcd(g, v)
            if g > 1:
                c = c // g
                d = {a: v // g for a, v in d.items()}
            return c, d
        cur = []
        for c, d in cons:
            c, d = norm(c, d)
            if not d:
                if c < 0:
                    return True
                continue
            cur.append((c, d))
        remaining = set(atoms)
        while remaining:
            best = None
            for a in remaining:
                p = n = 0
                for c, d in cur:
                    v = d.get(a)
                    if v:
                        if v > 0:
                            p += 1
                        else:
                            n += 1
                cost = p * n - p - n
                if best is None or cost < best[0]:
                    best = (cost, a)
            a = best[1]
            remaining.discard(a)
            pos, neg, out = [], [], []
            for c, d in cur:
                v = d.get(a)
                if not v:
                    out.append((c, d))
                elif v > 0:
                    pos.append((c, d))
                else:
                    neg.append((c, d))
            if len(pos) * len(neg) + len(out) > FM_LIMIT:
                return False
            keys = {}
            for c, d in out:
                k = frozenset(d.items())
                if k not in keys or keys[k] > c:
                    keys[k] = c
            for c1, d1 in pos:
                for c2, d2 in neg:
                    v1, v2 = d1[a], -d2[a]
                    g = gcd(v1, v2)
                    m1, m2 = v2 // g, v1 // g
                    c = c1 * m1 + c2 * m2
                    d = {}
                    for k, v in d1.items():
                        d[k] = v * m1
                    for k, v in d2.items():
                        d[k] = d.get(k, 0) + v * m2
                    d = {k: v for k, v in d.items() if v}
                    c, d = norm(c, d)
                    if not d:
                        if c < 0:
                            return True
                        continue
                    k = frozenset(d.items())
                    if k not in keys or keys[k] > c:
                        keys[k] = c
            cur = [(c, dict(k)) for k, c in keys.items()]
        return False

    # ------------------------------------------------------------ assuming
    def assume(self, b):
        """Facts with b added, or None when b contradicts them."""
        r = self.test(b)
        if r is True:
            return self
        if r is False:
            return None
        f = self.copy()
        f.log = (b, self.log)
        if tm.imprecise(b):
            f.imp = True
        return f._add(b, True)

    def _add(self, b, val):
        g = b.tag
        if g == "not":
            return self._add(b.args[0], not val)
        if g == "b":
            return self if b.args[0] == val else None
        if (g == "and" and val) or (g == "or" and not val):
            f = self
            for x in b.args:
                f = f.copy()
                f = f._add(x, val)
                if f is None:
                    return None
            return f
        if g == "ge":
            x = self.norm(b.args[0])
            if not val:
                x = addc(scale(x, -1), -1)
            return self._add_ge(x)
        if g == "eq0":
            x = self.norm(b.args[0])
            if val:
                return self._add_eq(x)
            return self._add_ne(x)
        d = dict(self.bools)
        d[b] = val
        self.bools = d
        return self

    def _reset(self):
        self._bounds = None
        self._q = {}
        self._n = {}

    def _add_ge(self, x):
        c = cval(x)
        if c is not None:
            return self if c >= 0 else None
        e = tm.ge0(x)
        if e is TRUE:
            return self
        if e is FALSE:
            return None
        if e.tag == "ge":
            x = e.args[0]
        self.ges = self.ges + (x,)
        self._reset()
        return self._check()

    def _check(self):
        for a, (l, h) in self.bounds().items():
            if l > h:
                return None
        return self

    def _add_ne(self, x):
        c = cval(x)
        if c is not None:
            return None if c == 0 else self
        if len(x.args[1]) == 1:
            a, k = x.args[1][0]
            if x.args[0] % k == 0:
                v = -x.args[0] // k
                dom = self.doms.get(a)
                if dom is not None:
                    dom = dom - {v}
                    if not dom:
                        return None
                    d = dict(self.doms)
                    d[a] = dom
                    self.doms = d
                    self._reset()
                    if len(dom) == 1:
                        return self._add_eq(addc(tm.I(a), -next(iter(dom))))
                    return self
                l, h = self.env(a)
                if l != -INF and h != INF:
                    if l == v:
                        return self._add_eq(addc(tm.I(a), -int(h))) if h == l + 1 else self._add_ge(addc(tm.I(a), -int(l) - 1))
                    if h == v:
                        return self._add_eq(addc(tm.I(a), -int(l))) if h == l + 1 else self._add_ge(addc(scale(tm.I(a), -1), int(h) - 1))
        e = tm.eq0(x)
        if e is FALSE:
            return self
        self.nes = self.nes | {e.args[0]}
        self._reset()
        return self._check()

    def _add_eq(self, x):
        c = cval(x)
        if c is not None:
            return self if c == 0 else None
        e = tm.eq0(x)
        if e is FALSE:
            return None
        x = e.args[0]
        if len(x.args[1]) == 1:
            a, k = x.args[1][0]
            v = -x.args[0] // k
            dom = self.doms.get(a)
            if dom is not None and v not in dom:
                return None
            l, h = self.env(a)
            if v < l or v > h:
                return None
        # Solve for an atom with coefficient +-1, preferring young ones.
        cand = None
        for a, k in x.args[1]:
            if k in (1, -1) and (cand is None or a.uid > cand[0].uid):
                cand = (a, k)
        if cand is None:
            self.ges = self.ges + (x, scale(x, -1))
            self._reset()
            return self._check()
        a, k = cand
        rest = lin(x.args[0], {b: c for b, c in x.args[1] if b is not a})
        sol = scale(rest, -k)  # a = -k*rest
        lo, hi = arange(a)
        blo, bhi = self.env(a)
        lo, hi = max(lo, blo), min(hi, bhi)
        d = {}
        one = {a: sol}
        for b, t in self.sub.items():
            d[b] = _subst(t, one)
        d[a] = sol
        self.sub = d
        ges = []
        for g in self.ges:
            g2 = _subst(g, one)
            e = tm.ge0(g2)
            if e is FALSE:
                return None
            if e is TRUE:
                continue
            ges.append(e.args[0])
        if lo != -INF and cval(sol) is None:
            e = tm.ge0(addc(sol, -int(lo)))
            if e is FALSE:
                return None
            if e is not TRUE:
                ges.append(e.args[0])
        if hi != INF and cval(sol) is None:
            e = tm.ge0(addc(scale(sol, -1), int(hi)))
            if e is FALSE:
                return None
            if e is not TRUE:
                ges.append(e.args[0])
        self.ges = tuple(dict.fromkeys(ges))
        nes = set()
        for n in self.nes:
            n2 = _subst(n, one)
            e = tm.eq0(n2)
            if e is TRUE:
                return None
            if e is FALSE:
                continue
            nes.add(e.args[0])
        self.nes = frozenset(nes)
        if a in self.doms and cval(sol) is not None:
            dd = dict(self.doms)
            dd[a] = frozenset([cval(sol)])
            self.doms = dd
        self._reset()
        if a.tag == "sar" and cval(sol) is not None:
            # floor(y / 2^k) = c bounds y.
            k, v = a.args[1], cval(sol)
            f = self._add_ge(addc(a.args[0], -(v << k)))
            f = f and f._add_ge(addc(scale(a.args[0], -1), ((v + 1) << k) - 1))
            return f
        return self._check()

    def with_dom(self, a, values):
        """Restrict a finite-domain atom."""
        dom = self.doms.get(a)
        new = frozenset(values) if dom is None else dom & frozenset(values)
        if not new:
            return None
        v = self.sub.get(a)
        if v is not None:
            c = cval(v)
            if c is not None:
                return self if c in new else None
        if dom == new:
            return self
        f = self.copy()
        d = dict(self.doms)
        d[a] = new
        f.doms = d
        f._reset()
        return f


def _subst(x, m):
    d = {}
    const = x.args[0]
    hit = False
    for a, c in x.args[1]:
        r = m.get(a)
        if r is None:
            d[a] = d.get(a, 0) + c
        else:
            hit = True
            const += c * r.args[0]
            for a2, c2 in r.args[1]:
                d[a2] = d.get(a2, 0) + c * c2
    return lin(const, d) if hit else x
