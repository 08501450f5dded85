"""Hash-consed value terms: the abstract values of the analysis.

Integers are linear combinations of atoms over the mathematical integers.  Machine arithmetic is
expressed with two atom kinds: bits(x, lo, n) = floor(x / 2^lo) mod 2^n, and smod(x, n) = the
signed value of the low n bits of x.  Both are normalised so that equal values built in different
ways become the same term wherever the rules below apply.
"""


class T:
    __slots__ = ("tag", "args", "uid", "imp")
    count = 0

    def __init__(self, tag, args):
        self.tag = tag
        self.args = args
        self.uid = T.count
        T.count += 1
        self.imp = None

    def __repr__(self):
        return show(self)


_tab = {}


def mk(tag, *args):
    key = (tag, args)
    t = _tab.get(key)
    if t is None:
        t = T(tag, args)
        _tab[key] = t
    return t


def walk(t, seen=None):
    """All sub-terms of t."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


def imprecise(t):
    """True when t depends on a value the analysis knows nothing about."""
    if t.imp is None:
        r = False
        if t.tag == "unk":
            r = True
        else:
            stack = list(t.args)
            while stack:
                x = stack.pop()
                if isinstance(x, T):
                    if imprecise(x):
                        r = True
                        break
                elif isinstance(x, tuple):
                    stack.extend(x)
        t.imp = r
    return t.imp


# ---------------------------------------------------------------- integers

def lin(const, items):
    items = tuple(sorted(((a, c) for a, c in items.items() if c != 0), key=lambda p: p[0].uid))
    return mk("lin", const, items)


def num(n):
    return mk("lin", n, ())


ZERO = num(0)
ONE = num(1)


def I(atom):
    return mk("lin", 0, ((atom, 1),))


def is_int(t):
    return isinstance(t, T) and t.tag == "lin"


def cval(t):
    """The value of a constant term, else None."""
    if t.tag == "lin" and not t.args[1]:
        return t.args[0]
    return None


def add(x, y, k=1):
    """x + k*y"""
    if k == 0:
        return x
    if not y.args[1]:
        return mk("lin", x.args[0] + k * y.args[0], x.args[1])
    d = dict(x.args[1])
    for a, c in y.args[1]:
        d[a] = d.get(a, 0) + k * c
    return lin(x.args[0] + k * y.args[0], d)


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    if k == 0:
        return ZERO
    return mk("lin", x.args[0] * k, tuple((a, c * k) for a, c in x.args[1]))


def addc(x, n):
    return mk("lin", x.args[0] + n, x.args[1])


INF = float("inf")
USIZE_MAX = 2 ** 64 - 1
ISIZE_MAX = 2 ** 63 - 1


def ity(kind, bits):
    """Range of an integer type."""
    if kind == "uint":
        return 0, 2 ** bits - 1
    return -(2 ** (bits - 1)), 2 ** (bits - 1) - 1


def arange(a):
    """Range of an atom that holds in every state."""
    g = a.tag
    if g == "byte":
        return 0, 255
    if g == "bits":
        hi = 2 ** a.args[2] - 1
        x = a.args[0]
        lo2, hi2 = lrange(x)
        if lo2 >= 0 and hi2 != INF:
            hi = min(hi, int(hi2) >> a.args[1])
        return 0, hi
    if g == "smod":
        n = a.args[1]
        return -(2 ** (n - 1)), 2 ** (n - 1) - 1
    if g == "int":
        return ity(a.args[1], a.args[2])
    if g == "rng":  # rng(name, lo, hi)
        return a.args[1], a.args[2]
    if g == "slen":
        return 0, ISIZE_MAX
    if g == "sar":
        lo, hi = lrange(a.args[0])
        k = a.args[1]
        return (lo if lo == -INF else int(lo) >> k), (hi if hi == INF else int(hi) >> k)
    if g == "rem":
        return 0, a.args[1] - 1
    if g == "and":
        hi = INF
        for x in a.args:
            l, h = lrange(x)
            if l >= 0:
                hi = min(hi, h)
        if hi != INF:
            return 0, hi
    if g == "discr":
        return 0, 255
    if g == "uvlen":
        h = lrange(a.args[0])[1]
        return 1, (max((int(h).bit_length() + 6) // 7, 1) if h != INF else 19)
    if g == "min":
        los, his = zip(*(lrange(x) for x in a.args))
        return min(los), min(his)
    return -INF, INF


def lrange(t, env=None):
    lo = hi = t.args[0]
    for a, c in t.args[1]:
        l, h = env(a) if env else arange(a)
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    return lo, hi


def bits(x, lo, n, env=None):
    """floor(x / 2^lo) mod 2^n"""
    if n <= 0:
        return ZERO
    c = cval(x)
    if c is not None:
        return num((c >> lo) & ((1 << n) - 1))
    if not x.args[0] and len(x.args[1]) == 1:
        a, k = x.args[1][0]
        if k == 1:
            if a.tag == "bits":
                y, l2, n2 = a.args
                return bits(y, l2 + lo, min(n, n2 - lo), env)
            if a.tag == "smod" and lo + n <= a.args[1]:
                return bits(a.args[0], lo, n, env)
            r = env(a) if env else arange(a)
            if r[0] >= 0 and r[1] < (1 << lo):
                return ZERO
            if lo == 0:
                if r[0] >= 0 and r[1] < (1 << n):
                    return x
                return I(mk("bits", x, 0, n))
            # Canonical number of bits for values of known width.
            if r[0] >= 0 and r[1] != INF:
                n = min(n, int(r[1]).bit_length() - lo)
            return I(mk("bits", x, lo, n))
    l, h = lrange(x, env)
    if lo == 0 and l >= 0 and h < (1 << n):
        return x
    y = _reduce_mod_sum(x, lo + n, env)
    l, h = lrange(y, env)
    if l >= 0 and h < (1 << lo):
        return ZERO
    if lo > 0:
        # Drop a low part that cannot carry into the extracted bits.
        m = 1 << lo
        low = {a: k for a, k in y.args[1] if k % m}
        lowc = y.args[0] % m
        lowt = lin(lowc, low)
        ll, lh = lrange(lowt, env)
        if ll >= 0 and lh < m:
            high = lin((y.args[0] - lowc) // m, {a: k // m for a, k in y.args[1] if not k % m})
            return bits(high, 0, n, env)
        if l >= 0 and h != INF:
            n = min(n, int(h).bit_length() - lo)
        return I(mk("bits", y, lo, n))
    if l >= 0 and h < (1 << n):
        return y
    if len(y.args[1]) == 1 and y.args[0] == 0 and y.args[1][0][1] == 1 and y is not x:
        return bits(y, 0, n, env)
    return I(mk("bits", y, 0, n))


def _reduce_mod_sum(x, n, env=None):
    m = 1 << n
    const = x.args[0] % m
    d = {}
    for a, c in x.args[1]:
        c2 = c % m
        if c2 == 0:
            continue
        if c2 > m // 2 and c < 0:
            c2 = c  # keep small negative coefficients
        k = (c2 & -c2).bit_length() - 1
        w = n - k
        base = I(a)
        # Remove reductions of the atom that the outer modulus implies.
        changed = True
        while changed:
            changed = False
            if len(base.args[1]) == 1 and base.args[0] == 0 and base.args[1][0][1] == 1:
                a2 = base.args[1][0][0]
                if a2.tag == "bits" and a2.args[1] == 0 and a2.args[2] >= w:
                    base = a2.args[0]
                    changed = True
                elif a2.tag == "smod" and a2.args[1] >= w:
                    base = a2.args[0]
                    changed = True
        if len(base.args[1]) == 1 and base.args[0] == 0 and base.args[1][0][1] == 1:
            a2 = base.args[1][0][0]
            lo, hi = env(a2) if env else arange(a2)
            if c2 == (1 << k) and (lo < 0 or hi >= (1 << w)) and not (k == 0 and len(x.args[1]) == 1):
                base = bits(base, 0, w, env)
        else:
            base = base
        const += base.args[0] * c2
        for a2, k2 in base.args[1]:
            d[a2] = d.get(a2, 0) + k2 * c2
    t = lin(const, d)
    if any(c < 0 for _, c in t.args[1]) and all(c <= 0 for _, c in t.args[1]):
        # e.g. -1 - x : keep the canonical representative near zero.
        if t.args[0] > m // 2:
            t = addc(t, -m)
    return t


def smod(x, n, env=None):
    c = cval(x)
    if c is not None:
        v = c & ((1 << n) - 1)
        return num(v - (1 << n) if v >> (n - 1) else v)
    l, h = lrange(x, env)
    if l >= -(1 << (n - 1)) and h < (1 << (n - 1)):
        return x
    y = x
    while len(y.args[1]) == 1 and y.args[0] == 0 and y.args[1][0][1] == 1:
        a = y.args[1][0][0]
        if a.tag == "bits" and a.args[1] == 0 and a.args[2] >= n:
            y = a.args[0]
        elif a.tag == "smod" and a.args[1] >= n:
            y = a.args[0]
        else:
            break
    else:
        y2 = _reduce_mod_sum(y, n, env)
        l, h = lrange(y2, env)
        if l >= -(1 << (n - 1)) and h < (1 << (n - 1)):
            return y2
        y = y2
    l, h = lrange(y, env)
    if l >= -(1 << (n - 1)) and h < (1 << (n - 1)):
        return y
    return I(mk("smod", y, n))


def wrap(x, kind, nbits, env=None):
    return bits(x, 0, nbits, env) if kind == "uint" else smod(x, nbits, env)


def sar(x, k, env=None):
    c = cval(x)
    if c is not None:
        return num(c >> k)
    l, h = lrange(x, env)
    if l >= 0 and h != INF:
        return bits(x, k, max(int(h).bit_length() - k, 0), env)
    if l != -INF and h != INF and (int(l) >> k) == (int(h) >> k):
        return num(int(l) >> k)
    return I(mk("sar", x, k))


def and_(x, y, env=None):
    cx, cy = cval(x), cval(y)
    if cx is not None and cy is not None:
        return num(cx & cy)
    if cx is not None:
        x, y, cx, cy = y, x, cy, cx
    if cy is not None:
        if cy == 0:
            return ZERO
        if cy == -1:
            return x
        if cy < 0:
            # x & -2^k : clear the low bits.
            inv = ~cy
            return sub(x, and_(x, num(inv), env))
        out = ZERO
        lo = 0
        while cy >> lo:
            if (cy >> lo) & 1:
                n = 0
                while (cy >> (lo + n)) & 1:
                    n += 1
                out = add(out, bits(x, lo, n, env), 1 << lo)
                lo += n
            else:
                lo += 1
        return out
    if x is y:
        return x
    # Disjoint bit ranges.
    for p, q in ((x, y), (y, x)):
        l, h = lrange(p, env)
        if l >= 0 and h != INF:
            m = 1 << int(h).bit_length()
            if q.args[0] % m == 0 and all(c % m == 0 for _, c in q.args[1]):
                return ZERO
    # A mask that is 0 or -1.
    if x.uid > y.uid:
        x, y = y, x
    return I(mk("and", x, y))


def or_(x, y, env=None):
    return sub(add(x, y), and_(x, y, env))


def xor_(x, y, env=None):
    return add(add(x, y), and_(x, y, env), -2)


# ---------------------------------------------------------------- booleans

TRUE = mk("b", True)
FALSE = mk("b", False)


def _norm_lin(t):
    from math import gcd
    g = 0
    for _, c in t.args[1]:
        g = gcd(g, c)
    return g


def ge0(x):
    """x >= 0"""
    c = cval(x)
    if c is not None:
        return TRUE if c >= 0 else FALSE
    l, h = lrange(x)
    if l >= 0:
        return TRUE
    if h < 0:
        return FALSE
    g = _norm_lin(x)
    if g > 1:
        x = mk("lin", x.args[0] // g, tuple((a, c // g) for a, c in x.args[1]))
    return mk("ge", x)


def eq0(x):
    c = cval(x)
    if c is not None:
        return TRUE if c == 0 else FALSE
    l, h = lrange(x)
    if l > 0 or h < 0:
        return FALSE
    g = _norm_lin(x)
    if g > 1:
        if x.args[0] % g:
            return FALSE
        x = mk("lin", x.args[0] // g, tuple((a, c // g) for a, c in x.args[1]))
    if x.args[1][0][1] < 0:
        x = scale(x, -1)
    return mk("eq0", x)


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.tag == "not":
        return b.args[0]
    if b.tag == "ge":
        return ge0(addc(scale(b.args[0], -1), -1))
    return mk("not", b)


def same(a, b):
    """Equality of two non-integer values."""
    if a is b:
        return TRUE
    if a.tag == "lin" and b.tag == "lin":
        return eq0(sub(a, b))
    ca, cb = seq_const(a), seq_const(b)
    if ca is not None and cb is not None:
        return TRUE if ca == cb else FALSE
    if a.tag == "agg" and b.tag == "agg" and a.args[1] != b.args[1]:
        return FALSE
    if a.uid > b.uid:
        a, b = b, a
    return mk("same", a, b)


def seq_const(s):
    """The bytes of a constant byte sequence, else None."""
    if s.tag != "seq":
        return None
    out = b""
    for p in s.args[0]:
        if p.tag == "cst":
            out += p.args[0]
        elif p.tag == "lit":
            for e in p.args[0]:
                if not is_int(e) or cval(e) is None or not 0 <= cval(e) < 256:
                    return None
                out += bytes([cval(e)])
        else:
            return None
    return out


# ---------------------------------------------------------------- printing

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return repr(t) if not isinstance(t, str) else t
    if d > 12:
        return "..."
    g, a = t.tag, t.args
    if g == "lin":
        s = []
        for at, c in a[1]:
            x = show(at, d + 1)
            s.append(x if c == 1 else "%d*%s" % (c, x))
        if a[0] or not s:
            s.append(str(a[0]))
        return "+".join(s).replace("+-", "-")
    if g == "b":
        return str(a[0])
    if g == "int" or g == "rng":
        return show(a[0], d + 1)
    if g == "sym":
        return show(a[0], d + 1)
    if g == "bits":
        return "%s[%d:%d]" % (show(a[0], d + 1), a[1], a[1] + a[2])
    if g == "agg":
        return "%s#%s{%s}" % (a[0] if isinstance(a[0], str) else "", a[1], ", ".join(show(x, d + 1) for x in a[2]))
    if g == "fld":
        return "%s.%s" % (show(a[0], d + 1), ".".join(show(x, d + 1) for x in a[1:]))
    if g == "ge":
        return show(a[0], d + 1) + ">=0"
    if g == "eq0":
        return show(a[0], d + 1) + "==0"
    return g + "(" + ", ".join(show(x, d + 1) for x in a) + ")"
