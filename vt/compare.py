"""Comparing an abstract value with the value a specification prescribes.

The answer is EQ when the two normal forms agree under the facts of the path, NE when
some valuation of the independent atoms allowed by those facts tells them apart, and
UNK otherwise (never reported)."""
import random
from . import terms as tm
from .terms import T, mk, cval, sub, is_int, ge0, eq0, not_, lin, INF, walk, imprecise

EQ, NE, UNK = "equal", "different", "undecided"

ARITH = {"bits", "smod", "sar", "and"}
OPS = {"BitXor", "BitAnd", "BitOr", "mul", "div", "rem"}


class Unevaluable(Exception):
    pass


def leaves(t, out):
    for a, _ in t.args[1]:
        if a.tag in ARITH:
            for x in a.args:
                if isinstance(x, T):
                    leaves(x, out)
        elif a.tag == "rng" and isinstance(a.args[0], T) and a.args[0].tag in OPS:
            for x in a.args[0].args:
                if isinstance(x, T):
                    leaves(x, out)
        else:
            out.add(a)


def ev(t, env):
    r = t.args[0]
    for a, c in t.args[1]:
        r += c * ev_atom(a, env)
    return r


def ev_atom(a, env):
    if a in env:
        return env[a]
    g = a.tag
    if g == "bits":
        return (ev(a.args[0], env) >> a.args[1]) & ((1 << a.args[2]) - 1)
    if g == "smod":
        v = ev(a.args[0], env) & ((1 << a.args[1]) - 1)
        return v - (1 << a.args[1]) if v >> (a.args[1] - 1) else v
    if g == "sar":
        return ev(a.args[0], env) >> a.args[1]
    if g == "and":
        return ev(a.args[0], env) & ev(a.args[1], env)
    if g == "rng" and isinstance(a.args[0], T) and a.args[0].tag in OPS:
        o = a.args[0]
        x = ev(o.args[0], env)
        y = ev(o.args[1], env) if isinstance(o.args[1], T) else o.args[1]
        if o.tag == "BitXor":
            return x ^ y
        if o.tag == "BitAnd":
            return x & y
        if o.tag == "BitOr":
            return x | y
        if o.tag == "mul":
            return x * y
        if y == 0:
            raise Unevaluable()
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return q if o.tag == "div" else x - q * y
    raise Unevaluable()


GROUP = {"uvar": "v", "ulen": "n", "byte": "b"}


def kind_of(a):
    if a.tag == "byte":
        return "b"
    if a.tag in ("int", "rng") and isinstance(a.args[0], T):
        return GROUP.get(a.args[0].tag)
    return None


def samples(facts, vs, extra, count=600):
    """Valuations of the atoms vs that the facts allow."""
    rnd = random.Random(20240607)
    vs = sorted(vs, key=lambda a: a.uid)
    rng = {}
    for a in vs:
        l, h = facts.env(a)
        l = max(l, -(1 << 64)) if l != -INF else -(1 << 64)
        h = min(h, 1 << 64) if h != INF else 1 << 64
        if l > h:
            return
        d = facts.doms.get(a)
        rng[a] = (int(l), int(h), sorted(d) if d is not None else None)
    cons = []
    for g in facts.ges:
        s = set()
        leaves(g, s)
        if s <= set(vs):
            cons.append(g)
    nes = []
    for g in facts.nes:
        s = set()
        leaves(g, s)
        if s <= set(vs):
            nes.append(g)
    for _ in range(count):
        env = {}
        for a in vs:
            l, h, d = rng[a]
            if d is not None:
                env[a] = rnd.choice(d)
                continue
            m = rnd.randrange(6)
            if m == 0:
                v = rnd.randint(l, h)
            elif m == 1:
                v = rnd.choice((l, h, l + 1, h - 1))
            elif m == 2:
                v = (1 << rnd.randrange(66)) + rnd.choice((-1, 0, 1))
            elif m == 3:
                v = -(1 << rnd.randrange(65)) + rnd.choice((-1, 0, 1))
            elif m == 4:
                v = l + rnd.randrange(0, 300)
            else:
                v = rnd.randrange(-3, 12)
            env[a] = min(max(v, l), h)
        try:
            if all(ev(g, env) >= 0 for g in cons) and all(ev(g, env) != 0 for g in nes):
                yield env
        except Unevaluable:
            return


def cmp_int(facts, a, b):
    """a: what the code computes; b: what is prescribed."""
    if not (is_int(a) and is_int(b)):
        return UNK
    a, b = facts.norm(a), facts.norm(b)
    if a is b or facts.eq(a, b):
        return EQ
    if facts.imp or imprecise(a) or imprecise(b):
        return UNK
    d = sub(a, b)
    if cval(d) is not None or facts.test_eq0(d) is False:
        return NE
    la, lb = set(), set()
    leaves(a, la)
    leaves(b, lb)
    ka, kb = {kind_of(x) for x in la}, {kind_of(x) for x in lb}
    if (ka - {None}) and not (ka - {None}) <= kb | {None} and (kb - {None}):
        return UNK
    for x in la | lb:
        if not known_leaf(x):
            return UNK
    n = 0
    for env in samples(facts, la | lb, None):
        n += 1
        try:
            if ev(a, env) != ev(b, env):
                return NE
        except Unevaluable:
            return UNK
    return UNK


KNOWN = {"int", "byte", "slen", "discr", "rng"}


def known_leaf(x):
    if x.tag == "rng":
        return isinstance(x.args[0], T) and x.args[0].tag in ("uvar", "ulen", "el", "fld", "arg", "deref", "phi")
    return x.tag in KNOWN


def cmp_bool(facts, a, b):
    """Boolean terms."""
    ra, rb = facts.test(a), facts.test(b)
    if ra is not None and rb is not None:
        return EQ if ra == rb else (UNK if facts.imp else NE)
    if a is b:
        return EQ
    bad = False
    for x, y in ((a, not_(b)), (not_(a), b)):
        f = facts.assume(x)
        f = f and f.assume(y)
        if f is not None:
            bad = True
            if f.imp or imprecise(a) or imprecise(b):
                return UNK
    if not bad:
        return EQ
    vs = set()
    try:
        bleaves(a, vs)
        bleaves(b, vs)
    except Unevaluable:
        return NE if ra is not None or rb is not None else UNK
    if {kind_of(x) for x in vs} - {None} > {"v"} or not all(known_leaf(x) for x in vs):
        return UNK
    for env in samples(facts, vs, None):
        try:
            if evb(a, env) != evb(b, env):
                return NE
        except Unevaluable:
            return UNK
    return UNK


def bleaves(b, out):
    if b.tag == "b":
        return
    if b.tag == "not":
        return bleaves(b.args[0], out)
    if b.tag in ("ge", "eq0"):
        return leaves(b.args[0], out)
    raise Unevaluable()


def evb(b, env):
    if b.tag == "b":
        return b.args[0]
    if b.tag == "not":
        return not evb(b.args[0], env)
    v = ev(b.args[0], env)
    return v >= 0 if b.tag == "ge" else v == 0


def both(rs):
    rs = list(rs)
    if any(r == NE for r in rs):
        return NE
    return EQ if all(r == EQ for r in rs) else UNK


def cmp_seq(e, facts, a, b):
    """Byte (or element) sequences a and b, both `seq` terms."""
    if a.tag != "seq" or b.tag != "seq":
        return UNK
    if a is b:
        return EQ
    ca, cb = tm.seq_const(a), tm.seq_const(b)
    if ca is not None and cb is not None:
        return EQ if ca == cb else NE
    pa, pb = norm_parts(e, facts, a), norm_parts(e, facts, b)
    if len(pa) == len(pb) and all(x[0] == y[0] for x, y in zip(pa, pb)):
        return both(cmp_part(e, facts, x, y) for x, y in zip(pa, pb))
    la, lb = e.seq_len(a), e.seq_len(b)
    r = cmp_int(facts, la, lb)
    if r == NE:
        return NE
    # Equal leading parts, then something different in kind.
    for x, y in zip(pa, pb):
        if x[0] == y[0] and cmp_part(e, facts, x, y) == EQ:
            continue
        if x[0] == "byte" and y[0] == "byte":
            return cmp_part(e, facts, x, y)
        if {x[0], y[0]} == {"byte", "uv"}:
            return cmp_low(facts, x, y)
        break
    return UNK


def cmp_low(facts, x, y):
    """A byte against the start of a varint: the low seven bits are the value's. NE or UNK."""
    r = cmp_int(facts, *(tm.bits(z[1], 0, 7, facts.env) for z in (x, y)))
    return NE if r == NE else UNK


def norm_parts(e, facts, s):
    """[('byte', int)] / ('win', base, start, len) / ('uv', int) / ('other', term) in order, empty windows dropped."""
    out = []
    for p in s.args[0]:
        if p.tag == "cst":
            out += [("byte", tm.num(x)) for x in p.args[0]]
        elif p.tag == "lit":
            out += [("byte" if is_int(x) else "el", facts.norm(x) if is_int(x) else x) for x in p.args[0]]
        elif p.tag == "win":
            n = facts.norm(p.args[2])
            if n is tm.ZERO or facts.test_eq0(n) is True:
                continue
            st = facts.norm(p.args[1])
            if out and out[-1][0] == "win" and out[-1][1] is p.args[0] and facts.eq(tm.add(out[-1][2], out[-1][3]), st):
                out[-1] = ("win", p.args[0], out[-1][2], facts.norm(tm.add(out[-1][3], n)))
            else:
                out.append(("win", p.args[0], st, n))
        elif p.tag == "uv":
            v = facts.norm(p.args[0])
            c = cval(v)
            if c is not None and c >= 0:
                while True:
                    out.append(("byte", tm.num((c & 127) | (128 if c > 127 else 0))))
                    c >>= 7
                    if not c:
                        break
            elif facts.rng(v)[0] >= 0 and facts.rng(v)[1] <= 127:
                out.append(("byte", v))
            else:
                out.append(("uv", v))
        else:
            out.append(("other", p))
    return out


def cmp_part(e, facts, x, y):
    if x[0] in ("byte", "uv"):
        return cmp_int(facts, x[1], y[1])
    if x[0] == "win":
        if x[1] is not y[1]:
            if imprecise(x[1]) or imprecise(y[1]) or facts.imp:
                return UNK
            # Contents of two different buffers.
            return NE if roots_differ(x[1], y[1]) else UNK
        return both([cmp_int(facts, x[2], y[2]), cmp_int(facts, x[3], y[3])])
    return EQ if x[1] is y[1] else UNK


def roots_differ(a, b):
    """Two named buffers that the caller can fill independently."""
    return named(a) and named(b)


def named(b):
    n = b.args[0]
    while isinstance(n, T) and n.tag in ("fld", "deref", "el", "boxed", "mval"):
        n = n.args[0]
        if isinstance(n, T) and n.tag in ("base", "mbase"):
            n = n.args[0]
    return isinstance(n, T) and n.tag in ("arg", "recarg")
