"""What decoding must do with every record, compared with what the code does.

The reading loop is found by its effect (it appends FieldValues to the message it
returns), wherever it is written.  Every path through one iteration is compared with
the record the wire format prescribes under that path's conditions."""
from collections import Counter
from . import terms as tm
from .terms import T, mk, num, I, add, sub, addc, ge0, eq0, not_, bits, smod, cval, is_int, walk, ZERO
from .interp import Engine, State, Fork
from . import solve
from .solve import subst_term
from .compare import EQ, NE, UNK, cmp_int, cmp_bool, cmp_seq, both
from .axioms import last, adt_last
from . import axioms

# ValueType variant -> (Value variant, wire type, reading)
SCALARS = {
    "Double": (1, ("fixed", 8, "flt")), "Float": (5, ("fixed", 4, "flt")),
    "Int32": (0, ("smod", 32)), "Int64": (0, ("smod", 64)),
    "UInt32": (0, ("wrap", 32)), "UInt64": (0, ("wrap", 64)),
    "SInt32": (0, ("zz", 32)), "SInt64": (0, ("zz", 64)),
    "Fixed32": (5, ("fixed", 4, "u")), "Fixed64": (1, ("fixed", 8, "u")),
    "SFixed32": (5, ("fixed", 4, "s")), "SFixed64": (1, ("fixed", 8, "s")),
    "Bool": (0, ("bool",)),
}
OTHERS = {"String": 2, "Bytes": 2, "Message": 2, "Enum": 0}
WIRE = dict({k: v[0] for k, v in SCALARS.items()}, **OTHERS)


def uvar(B, p):
    return I(solve.uvar(B, p))


def ulen(B, p):
    return I(solve.ulen(B, p))


class Finding:
    def __init__(self, props, fn, site, what, path):
        self.props, self.fn, self.site, self.what, self.path = props, fn, site, what, path

    def key(self):
        return "%s: %s" % (self.fn, self.what)


class Result:
    def __init__(self):
        self.findings = []
        self.compared = Counter()     # obligation kind -> proved
        self.undecided = Counter()
        self.samples = []

    def add(self, r, props, L, what, facts, sample=None):
        if r == EQ:
            for p in props:
                self.compared[(p, what)] += 1
            if sample and len(self.samples) < 40:
                self.samples.append(sample)
        elif r == NE:
            self.findings.append(Finding(props, L.fn, L.site, what, [str(c)[:300] for c in facts.conds()][-14:]))
        else:
            for p in props:
                self.undecided[(p, what)] += 1


def zigzag(u, facts, n):
    """(facts, value) of the two halves of the zig-zag map."""
    out = []
    low = bits(u, 0, 1, facts.env)
    half = bits(u, 1, n - 1, facts.env)
    f = facts.assume(eq0(low))
    if f is not None:
        out.append((f, half))
    f = facts.assume(eq0(addc(low, -1)))
    if f is not None:
        out.append((f, addc(tm.scale(half, -1), -1)))
    return out


class Dec:
    def __init__(self, e, res):
        self.e, self.res = e, res

    # ------------------------------------------------------------ bytes
    def byte(self, B, i):
        return I(mk("byte", B, i))

    def varint(self, facts, B, p):
        """(facts, value or None, length) of the varint at p; None when the bytes there are not one."""
        ok = mk("lebok", B, p)
        r = facts.test(ok)
        if r is True:
            return [(facts, uvar(B, p), ulen(B, p))]
        if r is False:
            return [(facts, None, None)]
        # Bytes the code looked at itself.
        b = facts.norm(self.byte(B, p))
        if facts.test_eq0(bits(b, 7, 1, facts.env)) is not None:
            return self.raw_varint(facts, B, p, 0, ZERO)
        out = []
        f = facts.assume(ok)
        if f is not None:
            out.append((f, uvar(B, p), ulen(B, p)))
        f = facts.assume(not_(ok))
        if f is not None:
            out.append((f, None, None))
        return out

    def raw_varint(self, facts, B, p, k, val):
        """As varint, byte by byte."""
        if k == 10:
            return [(facts, None, None)]
        b = facts.norm(self.byte(B, add(p, num(k))))
        top = bits(b, 7, 1, facts.env)
        val = add(val, bits(b, 0, 7, facts.env), 1 << (7 * k))
        out = []
        f = facts.assume(eq0(top))
        if f is not None:
            out.append((f, tm.wrap(val, "uint", 64, f.env), num(k + 1)))
        f = facts.assume(not_(eq0(top)))
        if f is not None:
            out += self.raw_varint(f, B, p, k + 1, val)
        return out

    def le(self, B, p, n):
        v = ZERO
        for i in range(n):
            v = add(v, self.byte(B, add(p, num(i))), 1 << (8 * i))
        return v

    def win(self, B, p, n):
        return self.e.mkseq([mk("win", B, p, n)])

    # ------------------------------------------------------------ values
    def adt(self, v):
        if v.tag in ("agg", "sym"):
            return adt_last(self.e, v.args[0] if v.tag == "agg" else v.args[1])
        return None

    def variant(self, st, v):
        """Name of the variant of an enum value."""
        if v.tag not in ("agg", "sym"):
            return None
        r = self.e.variant_of(st, v)
        if r is None:
            return None
        t = v.args[0] if v.tag == "agg" else v.args[1]
        return self.e.P.adts[self.e.P.types[t]["adt"]]["variants"][r]["name"]

    def field(self, st, v, name, variant=None):
        """A named field of a struct value, or a numbered one of a variant."""
        t = v.args[0] if v.tag == "agg" else v.args[1]
        ty = self.e.P.types[t]
        a = self.e.P.adts[ty["adt"]]
        var = 0
        if variant is not None:
            var = next(i for i, x in enumerate(a["variants"]) if x["name"] == variant)
        i = a["variants"][var]["fields"].index(name)
        return self.e.proj(st, v, ("f", var if variant is not None else None, i, ty["vf"][var][i]))

    def payload(self, st, v):
        var = self.variant(st, v)
        return self.field(st, v, "0", var)

    # ------------------------------------------------------------ one scalar at p
    def scalar(self, facts, B, p, end, how):
        """[(facts, spec, next)]: spec None when the bytes do not hold one."""
        out = []
        if how[0] == "fixed":
            n = how[1]
            f = facts.assume(ge0(addc(sub(end, p), -n)))
            if f is not None:
                out.append((f, (how[2], self.le(B, p, n), n * 8), addc(p, n)))
            f = facts.assume(ge0(addc(sub(p, end), n - 1)))
            if f is not None:
                out.append((f, None, None))
            return out
        vs = self.varint(facts, B, p)
        if vs is None:
            return None
        for f, v, n in vs:
            if v is None:
                out.append((f, None, None))
                continue
            # A varint that runs over the end is not one of this payload.
            g = f.assume(ge0(sub(end, add(p, n))))
            h = f.assume(ge0(addc(sub(add(p, n), end), -1)))
            if h is not None:
                out.append((h, None, None))
            if g is None:
                continue
            nx = add(p, n)
            if how[0] == "smod":
                out.append((g, ("int", smod(v, how[1], g.env)), nx))
            elif how[0] == "wrap":
                out.append((g, ("int", bits(v, 0, how[1], g.env)), nx))
            elif how[0] == "zz":
                u = bits(v, 0, how[1], g.env)
                for f2, x in zigzag(u, g, how[1]):
                    out.append((f2, ("int", x), nx))
            elif how[0] == "bool":
                out.append((g, ("bool", not_(eq0(v))), nx))
        return out

    def match(self, st, facts, v, spec):
        """Does value v satisfy spec?"""
        s2 = State(st.mem, facts, st.ev)
        k = spec[0]
        if k == "any":
            return EQ
        if k in ("int", "u"):
            return cmp_int(facts, v, spec[1])
        if k == "s":
            return cmp_int(facts, v, smod(spec[1], spec[2], facts.env))
        if k == "flt":
            if v.tag != "flt":
                return UNK
            return cmp_int(facts, v.args[0], spec[1])
        if k == "bool":
            return cmp_bool(facts, v, spec[1])
        if k == "seq":
            return cmp_seq(self.e, facts, v, spec[1])
        if k == "str":
            # Text: the bytes themselves wherever they are UTF-8.
            w = unlossy(v)
            if w is None:
                return UNK
            for b, lo, n in lossy_parts(v):
                left = sub(I(mk("slen", b)), n)
                if facts.eq(left, ZERO):
                    continue
                # a part of the text only
                return UNK if facts.imp or tm.imprecise(left) or facts.assume(ge0(addc(left, -1))) is None else NE
            return cmp_seq(self.e, facts, w, spec[1])
        if k == "var":
            n = self.variant(s2, v)
            if n is None:
                return UNK
            if n != spec[1]:
                return UNK if facts.imp else NE
            if len(spec) == 2:
                return EQ
            rs = []
            for i, sp in enumerate(spec[2]):
                rs.append(self.match(st, facts, self.field(s2, v, str(i), n), sp))
            return both(rs)
        if k == "struct":
            rs = []
            for name, sp in spec[1].items():
                try:
                    rs.append(self.match(st, facts, self.field(s2, v, name), sp))
                except (ValueError, StopIteration, KeyError):
                    rs.append(UNK)
            return both(rs)
        if k == "same":
            a, b = v, spec[1]
            if a is b:
                return EQ
            ia, ib = inner_int(self, s2, a), inner_int(self, s2, b)
            if ia is None or ib is None:
                return UNK
            return cmp_int(facts, ia, ib)
        if k == "fn":
            return spec[1](st, facts, v)
        raise AssertionError(k)


def inner_int(d, st, v):
    """The index inside a reference newtype."""
    for _ in range(4):
        if is_int(v):
            return v
        if v.tag not in ("agg", "sym"):
            return None
        t = v.args[0] if v.tag == "agg" else v.args[1]
        if t < 0 or d.e.P.types[t]["k"] != "adt":
            return None
        ty = d.e.P.types[t]
        if len(ty["vf"]) != 1 or len(ty["vf"][0]) != 1:
            return None
        v = d.e.proj(st, v, ("f", None, 0, ty["vf"][0][0]))
    return None


def lossy_parts(v):
    return [p.args for p in v.args[0] if p.tag == "win" and isinstance(p.args[0], T) and p.args[0].tag == "base" and
            isinstance(p.args[0].args[0], T) and p.args[0].args[0].tag == "utf8lossy"]


def unlossy(v):
    """The bytes a (lossily converted) text stands for."""
    if v.tag != "seq":
        return None
    ps = []
    for p in v.args[0]:
        if p.tag == "win" and isinstance(p.args[0], T) and p.args[0].tag == "base" and isinstance(p.args[0].args[0], T) and \
                p.args[0].args[0].tag == "utf8lossy":
            x = p.args[0].args[0].args[0]
            if x.tag != "seq":
                return None
            ps += list(x.args[0])
        else:
            ps.append(p)
    return mk("seq", tuple(ps))


# ---------------------------------------------------------------- the reading loop

def elem_adt(e, s):
    """Element type of a sequence slot."""
    if s.kind != "seq" or s.base is None:
        return None
    return adt_last(e, s.base.args[1])


def reading_loops(e, adt="FieldValue", loops=None):
    return [L for L in (e.loops if loops is None else loops) if L.unrolled is None and not L.imprecise and L.backs
            and any(elem_adt(e, s) == adt for s in L.slots)]


def phis_in(t, L):
    return any(x in L.phis for x in walk(t))


def cursor(L):
    """(base, position) the iteration reads its tag from, in terms of the head."""
    cnt = Counter()
    n0 = len(L.head.facts.conds())
    for b in L.backs + [s for _, s in L.exits]:
        for c in b.facts.conds()[n0:]:
            x = c.args[0] if c.tag == "not" else c
            if x.tag == "lebok" and phis_in(x.args[1], L) and outside_head(x.args[1]) is None:
                cnt[(x.args[0], x.args[1])] += 1
                break
            ys = [y for y in walk(c) if y.tag == "byte" and phis_in(y.args[1], L)]
            if ys:
                y = min(ys, key=lambda z: z.args[1].args[0])
                cnt[(y.args[0], y.args[1])] += 1
                break
    if not cnt:
        return None
    return cnt.most_common(1)[0][0]


def outside_head(p):
    """Positions that already depend on what was read."""
    for x in walk(p):
        if x.tag in ("ulen", "uvar", "byte"):
            return x
    return None


def head_subst(e, L, t, bi):
    """t at the head of the next iteration (bi: back edge) or of the first (None)."""
    m = {}
    for s in L.slots:
        if s.phi is None:
            continue
        if bi is None:
            if s.kind == "int" and s.init is not None:
                m[s.phi] = s.init
        elif s.phi in L.substs[bi]:
            m[s.phi] = L.substs[bi][s.phi]
    return subst_term(e, t, m)


def self_message(e, L):
    """The pointer to the message type whose fields are read."""
    found = {}
    st = L.entry
    for r, v in st.mem.items():
        if r[0] != "L" or v.tag != "ptr":
            continue
        root, path = v.args
        t = None
        if root[0] == "S" and not path:
            t = root[2]
        elif path:
            p = path[-1]
            t = p[3] if p[0] == "f" else (p[2] if len(p) > 2 else None)
        if t is not None and adt_last(e, t) == "MessageInfo":
            found.setdefault((r[1] == L.fid, r[1]), {})[(root, path)] = v
    if not found:
        return None
    best = found[max(found)]
    return next(iter(best.values())) if len(best) == 1 else None


def get_field(e, st, msg, number):
    """The declared field with that number, through the public lookup: [(state, field pointer or None)]."""
    insts = e.P.method("MessageInfo", "get_field")
    if not insts:
        return None
    out = []
    try:
        rs = e.call_body(insts[0], [msg, number], st.fork(), ())
    except Fork:
        return None
    for s, v in rs:
        if v.tag not in ("agg", "sym"):
            return None
        var = e.variant_of(s, v)
        if var is None:
            return None
        out.append((s, e.payload(s, v, 1) if var == 1 else None))
    return out


PROPS_COUNT = ("C09", "C10")


def compare_records(e, res, outs):
    d = Dec(e, res)
    Ls = reading_loops(e)
    for L in Ls:
        slot = next(s for s in L.slots if elem_adt(e, s) == "FieldValue")
        cur = cursor(L)
        if cur is None:
            res.add(UNK, ("C10",), L, "reading position", L.head.facts)
            continue
        B, p0 = cur
        end = I(mk("slen", B))
        msg = self_message(e, L)
        res.add(cmp_int(L.entry.facts, head_subst(e, L, p0, None), ZERO), ("C10",), L,
                "the first record is read at the start of the data", L.entry.facts)
        # The invariant that makes the data end where the input ends is part of the head facts.
        for bi, b in enumerate(L.backs):
            nxt = head_subst(e, L, p0, bi)
            parts = [ps for k, ps in slot.added if k == bi]
            parts = parts[0] if parts else ()
            els = []
            exact = True
            for x in parts:
                if x.tag == "lit":
                    els += list(x.args[0])
                else:
                    exact = False
            compare_record(d, L, b, B, p0, end, msg, els, exact, nxt)
    compare_ends(d, reading_loops(e, loops=e.first_loops + e.loops), outs)
    return Ls


def compare_record(d, L, b, B, p0, end, msg, els, exact, nxt):
    res, e = d.res, d.e
    vs = d.varint(b.facts, B, p0)
    if vs is None:
        res.add(UNK, ("C10",), L, "one field value per record", b.facts)
        return
    for f, tag, tl in vs:
        if tag is None:
            if els:
                res.add(NE if not f.imp else UNK, ("C09", "C10"), L, "bytes that are not a tag do not become a field value", f)
            continue
        if not exact:
            res.add(UNK, ("C10",), L, "one field value per record", f)
            continue
        res.add(EQ if len(els) == 1 else (UNK if f.imp else NE), PROPS_COUNT, L, "one field value per record", f)
        if len(els) != 1:
            continue
        fv = els[0]
        number = bits(tag, 3, 61, f.env)
        wt = bits(tag, 0, 3, f.env)
        p = add(p0, tl)
        st = State(b.mem, f, b.ev)
        try:
            got_n = d.field(st, fv, "number")
            got_v = d.field(st, fv, "value")
        except (ValueError, StopIteration, KeyError):
            res.add(UNK, ("C10",), L, "field number", f)
            continue
        res.add(cmp_int(f, got_n, number), ("C10",), L, "the field value carries the number of the tag", f)
        fields = get_field(e, st, msg, number) if msg is not None else None
        if fields is None:
            res.add(UNK, ("C06", "C10"), L, "field lookup", f)
            continue
        for s2, fld in fields:
            for s3, w in wires(s2, wt):
                if fld is None:
                    check_alts(d, L, s3, got_v, nxt, [unknown(d, B, p, end, w, s3.facts)], ("undeclared", w), w)
                    continue
                ft = e.read(s3, fld.args[0], fld.args[1])
                try:
                    vt = d.field(s3, ft, "field_type")
                    mult = d.field(s3, ft, "multiplicity")
                except (ValueError, StopIteration, KeyError):
                    res.add(UNK, ("C06", "C10"), L, "field type", s3.facts)
                    continue
                for s4, tname in variants(d, s3, vt):
                    for s5, mname in variants(d, s4, mult):
                        check_typed(d, L, s5, got_v, nxt, B, p, end, w, tname, mname, vt)


def wires(st, wt):
    """The states for each feasible wire type 0..7."""
    c = cval(st.facts.norm(wt))
    if c is not None:
        return [(st, c)]
    out = []
    for w in range(8):
        f = st.facts.assume(eq0(addc(wt, -w)))
        if f is not None:
            out.append((State(st.mem, f, st.ev), w))
    return out


def variants(d, st, v):
    e = d.e
    n = d.variant(st, v)
    if n is not None:
        return [(st, n)]
    if v.tag != "sym":
        return []
    s0 = State(st.mem, st.facts, st.ev)
    disc = e.discr(s0, v)
    out = []
    for x in e.P.adts[e.P.types[v.args[1]]["adt"]]["variants"]:
        f = s0.facts.assume(eq0(addc(disc, -x["discr"])))
        if f is not None:
            out.append((State(st.mem, f, st.ev), x["name"]))
    return out


def unknown(d, B, p, end, w, facts):
    """[(facts, value spec, next)] of an uninterpreted record of wire type w."""
    U = lambda n, *a: ("var", "Unknown", (("var", n, a),))
    inc = lambda f: (f, incomplete(d, B, p, end, w), end)
    out = []
    if w == 0:
        rs = d.scalar(facts, B, p, end, ("wrap", 64))
        if rs is None:
            return None
        for f, v, nx in rs:
            out.append(inc(f) if v is None else (f, U("Varint", v), nx))
    elif w in (1, 5):
        n = 8 if w == 1 else 4
        for f, v, nx in d.scalar(facts, B, p, end, ("fixed", n, "u")):
            out.append(inc(f) if v is None else (f, U("Fixed%d" % (n * 8), ("int", v[1])), nx))
    elif w == 2:
        rs = block(d, facts, B, p, end)
        if rs is None:
            return None
        for f, q, n in rs:
            out.append(inc(f) if q is None else (f, U("VariableLength", ("seq", d.win(B, q, n))), add(q, n)))
    else:
        out.append((facts, U("Invalid", ("int", num(w)), ("seq", d.win(B, p, sub(end, p)))), end))
    return out


def incomplete(d, B, p, end, w):
    return ("var", "Incomplete", (("int", num(w)), ("seq", d.win(B, p, sub(end, p)))))


def block(d, facts, B, p, end):
    """[(facts, start, length)] of a length-delimited payload, start None when it is not there."""
    vs = d.varint(facts, B, p)
    if vs is None:
        return None
    out = []
    for f, v, n in vs:
        if v is None:
            out.append((f, None, None))
            continue
        q = add(p, n)
        g = f.assume(ge0(sub(end, add(q, v))))
        if g is not None:
            out.append((g, q, v))
        g = f.assume(ge0(addc(sub(add(q, v), end), -1)))
        if g is not None:
            out.append((g, None, None))
    return out


def check_alts(d, L, st, got, nxt, alts, what, w, props=None):
    """got must be one of the prescribed readings (a list per acceptable behaviour)."""
    res = d.res
    best = None
    for alt in alts:
        if alt is None:
            best = best or []
            best.append(("unk", None, None, None, st.facts))
            continue
        rows = []
        for f, spec, nx in alt:
            rv = d.match(st, f, got, spec)
            rn = cmp_int(f, nxt, nx)
            rows.append((spec, rv, rn, nx, f))
        if best is None:
            best = []
        best.append(("rows", rows, None, None, None))
    if not best:
        return
    # An acceptable behaviour that matches on every row wins; otherwise blame the first.
    for kind, rows, *_ in best:
        if kind == "rows" and all(r[1] == EQ and r[2] == EQ for r in rows):
            for spec, rv, rn, nx, f in rows:
                report(d, L, st, what, w, spec, rv, rn, f, got)
            return
    if any(k == "unk" for k, *_ in best) or \
            any(not any(NE in (r[1], r[2]) for r in rows) for _, rows, *_ in best):
        for p in ("C06", "C07", "C08", "C09", "C10"):
            res.undecided[(p, "%s field, wire type %d" % (what[-1], w))] += 1
        return
    for spec, rv, rn, nx, f in best[0][1]:
        report(d, L, st, what, w, spec, rv, rn, f, got)


def top(spec):
    return spec[1] if spec[0] == "var" else None


def report(d, L, st, what, w, spec, rv, rn, f, got):
    res = d.res
    n = d.variant(State(st.mem, f, st.ev), got) if got.tag in ("agg", "sym") else None
    t = top(spec)
    kind = what[0]
    name = "%s field, wire type %d" % (what[1], w) if kind == "declared" else "undeclared field, wire type %d" % w
    if n != t:
        # Read as something else than prescribed.
        if t in ("Unknown", "Incomplete"):
            ps = ("C09", "C06") if t == "Unknown" and kind == "declared" else ("C09", "C10") if t == "Unknown" else ("C09", "C10")
        elif t == "Packed":
            ps = ("C08", "C06", "C10")
        elif t == "Message":
            ps = ("C10", "C06")
        else:
            ps = ("C07", "C06", "C10")
        res.add(rv, ps, L, "%s is kept as %s" % (name, t), f)
    else:
        ps = {"Unknown": ("C09",), "Incomplete": ("C09",), "Packed": ("C08",), "Message": ("C10",)}.get(t, ("C07",))
        pp = ps + (("C06", "C10") if rv == EQ else ())
        res.add(rv, pp, L, "%s: content of %s" % (name, t), f,
                "%s: %s = %s when %s" % (name, t, str(got)[:160], [str(c)[:90] for c in f.conds()][-3:]))
    ps = {"Unknown": ("C09", "C10"), "Incomplete": ("C09", "C10"), "Packed": ("C08", "C10")}.get(t, ("C10", "C07") if t != "Message" else ("C10",))
    res.add(rn, ps, L, "%s: the next record starts right after a %s payload" % (name, t), f)


def check_typed(d, L, st, got, nxt, B, p, end, w, tname, mname, vt):
    e = d.e
    f0 = st.facts
    if tname not in WIRE:
        return
    what = ("declared", tname)
    native = None
    if tname in SCALARS:
        rs = d.scalar(f0, B, p, end, SCALARS[tname][1])
        if rs is not None:
            native = []
            for f, v, nx in rs:
                if v is None:
                    native.append((f, incomplete(d, B, p, end, w), end))
                else:
                    if v[0] == "s":
                        v = ("s", v[1], v[2])
                    elif v[0] in ("u", "flt"):
                        v = v[:2]
                    native.append((f, ("var", tname, (v,)), nx))
    elif tname == "Enum":
        rs = d.scalar(f0, B, p, end, ("smod", 64))
        if rs is not None:
            native = []
            for f, v, nx in rs:
                if v is None:
                    native.append((f, incomplete(d, B, p, end, w), end))
                else:
                    ref = d.payload(State(st.mem, f, st.ev), vt)
                    native.append((f, ("var", "Enum", (("struct", {"enum_ref": ("same", ref), "value": v}),)), nx))
    else:
        rs = block(d, f0, B, p, end)
        if rs is not None:
            native = []
            for f, q, n in rs:
                if q is None:
                    native.append((f, incomplete(d, B, p, end, w), end))
                    continue
                c = d.win(B, q, n)
                if tname == "String":
                    native.append((f, ("var", "String", (("str", c),)), add(q, n)))
                elif tname == "Bytes":
                    native.append((f, ("var", "Bytes", (("seq", c),)), add(q, n)))
                else:
                    ref = d.payload(State(st.mem, f, st.ev), vt)
                    spec = ("var", "Message", (("fn", lambda s, g, v, ref=ref, c=c: nested(d, s, g, v, ref, c)),))
                    if deep(st):
                        # Below the nesting limit: left uninterpreted.
                        if d.variant(st, got) == "Unknown":
                            spec = ("var", "Unknown", (("var", "VariableLength", (("seq", c),)),))
                    native.append((f, spec, add(q, n)))
    unk = unknown(d, B, p, end, w, f0)
    if mname == "RepeatedPacked":
        if tname in SCALARS:
            if w == 2:
                check_alts(d, L, st, got, nxt, [packed(d, L, st, got, B, p, end, tname)], what, w)
            elif w == WIRE[tname]:
                check_alts(d, L, st, got, nxt, [unk, native], what, w)
            else:
                check_alts(d, L, st, got, nxt, [unk], what, w)
        else:
            alts = [native] if w == WIRE[tname] else []
            check_alts(d, L, st, got, nxt, alts + [unk, packed_other(d, B, p, end, w, f0)], what, w)
        return
    if w == WIRE[tname]:
        check_alts(d, L, st, got, nxt, [native], what, w)
    elif w == 2 and tname in SCALARS and mname == "Repeated":
        check_alts(d, L, st, got, nxt, [unk, packed(d, L, st, got, B, p, end, tname)], what, w)
    else:
        check_alts(d, L, st, got, nxt, [unk], what, w)


def packed_other(d, B, p, end, w, f0):
    return None


def deep(st):
    """Is the path restricted by the nesting depth of an inner call?"""
    for c in st.facts.conds():
        if any(x.tag == "recarg" for x in walk(c)):
            return True
    return False


def nested(d, st, facts, v, ref, c):
    """v is the boxed result of decoding the payload c as the message ref."""
    e = d.e
    if v.tag != "box":
        return UNK
    x = e.read(State(st.mem, facts, st.ev), v.args[0], ())
    evs = [ev for ev in st_events(st) if ev[0] == "rec" and (ev[3] is x or (x.tag in ("sym",) and ev[3] is x.args[0]) or built_from(x, ev[3]))]
    if not evs:
        return UNK
    ev = evs[-1]
    rs = []
    data = None
    who = None
    for a in ev[2]:
        if a.tag == "sptr":
            data = a
        elif a.tag == "ptr":
            root, path = a.args
            t = None
            if path:
                q = path[-1]
                t = q[3] if q[0] == "f" else (q[2] if len(q) > 2 else None)
            elif root[0] == "S":
                t = root[2]
            if t is not None and adt_last(e, t) == "MessageInfo":
                who = a
    if data is None or who is None:
        return UNK
    s2 = State(st.mem, facts, st.ev)
    try:
        rs.append(cmp_seq(e, facts, e.content(s2, data), c))
    except Fork:
        rs.append(UNK)
    # The type is the one the field names.
    want = inner_int(d, s2, ref)
    idx = None
    for q in who.args[1]:
        if q[0] == "i":
            idx = q[1]
    if idx is None and who.args[0][0] == "S":
        for y in walk(who.args[0][1]):
            if y.tag == "el":
                idx = y.args[1]
    rs.append(cmp_int(facts, idx, want) if idx is not None and want is not None else UNK)
    return both(rs)


def built_from(x, nm):
    if x.tag == "agg":
        return any(isinstance(y, T) and any(z is nm for z in walk(y)) for y in x.args[2])
    return any(z is nm for z in walk(x))


def st_events(st):
    out, l = [], st.ev
    while l is not None:
        out.append(l[0])
        l = l[1]
    out.reverse()
    return out


# ---------------------------------------------------------------- packed fields

def packed(d, L, st, got, B, p, end, tname):
    """The rows of a packed field of scalars."""
    f0 = st.facts
    rs = block(d, f0, B, p, end)
    if rs is None:
        return None
    out = []
    for f, q, n in rs:
        if q is None:
            out.append((f, incomplete(d, B, p, end, 2), end))
            continue
        if d.variant(State(st.mem, f, st.ev), got) == "Incomplete":
            # An element that cannot be read: the field is kept whole.
            k = bad_element(d, L, State(st.mem, f, st.ev), B, q, n, tname)
            spec = ("var", "Incomplete", (("int", num(2)), ("seq", d.win(B, p, sub(add(q, n), p)))))
            if k == EQ:
                out.append((f, spec, add(q, n)))
                continue
            if k == UNK:
                return None
        out.append((f, ("var", "Packed", (("var", tname, (("fn", lambda s, g, v, q=q, n=n: elements(d, s, g, v, B, q, n, tname)),)),)), add(q, n)))
    return out


def inner_loops(d):
    return [M for M in d.e.loops if M.unrolled is None and M.backs and not M.imprecise]


def element_cursor(M):
    c = cursor(M)
    if c is not None:
        return c
    # Fixed-width elements: the position a byte is read from.
    cnt = Counter()
    for slot in M.slots:
        if slot.kind != "seq":
            continue
        for _, ps in slot.added:
            for x in ps:
                if x.tag != "lit":
                    continue
                ys = [y for el in x.args[0] for y in walk(el) if y.tag == "byte" and phis_in(y.args[1], M)]
                if ys:
                    y = min(ys, key=lambda z: z.args[1].args[0])
                    cnt[(y.args[0], y.args[1])] += 1
    return cnt.most_common(1)[0][0] if cnt else None


def head_cursor(M):
    """Position expressions of the head when no iteration tells: the integer slots."""
    return [I(s.phi) if not is_int(s.phi) else s.phi for s in M.slots if s.kind == "int" and s.phi is not None]


def loop_of_base(d, base):
    for M in inner_loops(d):
        for s in M.slots:
            if s.kind == "seq" and s.base is base:
                return M, s
    return None, None


def elements(d, st, facts, v, B, q, n, tname):
    """v holds exactly the elements of the payload [q, q+n)."""
    e = d.e
    if v.tag != "seq":
        return UNK
    ps = v.args[0]
    if not ps:
        return cmp_int(facts, n, ZERO)
    if len(ps) != 1 or ps[0].tag != "win":
        return UNK
    M, slot = loop_of_base(d, ps[0].args[0])
    if M is None:
        return UNK
    r = [loop_elements(d, M, slot, B, q, n, tname)]
    r.append(cmp_seq(e, facts, v, slot.head))
    cur = element_cursor(M)
    if cur is None or cur[0] is not B:
        return UNK
    # The path left the loop at the end of the payload.
    r.append(cmp_int(facts, cur[1], add(q, n)))
    return both(r)


def loop_elements(d, M, slot, B, q, n, tname):
    key = (M, slot.key, tname)
    cache = d.__dict__.setdefault("elem_cache", {})
    if key in cache:
        return cache[key]
    cache[key] = UNK
    cur = element_cursor(M)
    if cur is None or cur[0] is not B:
        return UNK
    p0 = cur[1]
    rs = [cmp_int(M.entry.facts, head_subst(d.e, M, p0, None), q)]
    if slot.init is not None and slot.init.tag == "seq" and slot.init.args[0]:
        rs.append(NE if all(x.tag == "lit" for x in slot.init.args[0]) else UNK)
    how = SCALARS[tname][1]
    stop = add(q, n)
    for bi, b in enumerate(M.backs):
        parts = [ps for k, ps in slot.added if k == bi]
        parts = parts[0] if parts else ()
        els = []
        for x in parts:
            if x.tag != "lit":
                cache[key] = UNK
                return UNK
            els += list(x.args[0])
        rows = d.scalar(b.facts, B, p0, stop, how)
        if rows is None:
            rs.append(UNK)
            continue
        nxt = head_subst(d.e, M, p0, bi)
        for f, spec, nx in rows:
            if spec is None:
                rs.append(UNK if f.imp else NE)
                continue
            if len(els) != 1:
                rs.append(UNK if f.imp else NE)
                continue
            if spec[0] in ("u", "flt"):
                spec = spec[:2]
            rs.append(d.match(b, f, els[0], spec))
            rs.append(cmp_int(f, nxt, nx))
    # The loop is left before the end only when no element can be read there.
    cache[key] = both(rs)
    d.res.compared[("C08", "packed element loop of %s" % tname)] += len(rs) if cache[key] == EQ else 0
    return cache[key]


def bad_element(d, L, st, B, q, n, tname):
    """Does the path say that the bytes at the element cursor are not an element?"""
    stop = add(q, n)
    got = UNK
    for M in inner_loops(d):
        cur = element_cursor(M)
        if cur is None or cur[0] is not B:
            continue
        p0 = cur[1]
        if M is L or not any(x in M.phis for c in st.facts.conds() for x in walk(c)):
            continue
        rows = d.scalar(st.facts, B, p0, stop, SCALARS[tname][1])
        if rows is None:
            continue
        if all(spec is None for _, spec, _ in rows) and rows:
            # And something is left to read.
            if st.facts.test(ge0(addc(sub(stop, p0), -1))) is True:
                return EQ
        elif rows and all(spec is not None for _, spec, _ in rows):
            got = NE
    return got


# ---------------------------------------------------------------- the end of the data

def compare_ends(d, Ls, outs):
    """What decoding returns: nothing left, or the rest as garbage."""
    e, res = d.e, d.res
    for s, m in outs:
        for L in Ls:
            slot = next(x for x in L.slots if elem_adt(e, x) == "FieldValue")
            if m.tag == "agg" and adt_last(e, m.args[0]) == "MessageValue" and any(y is slot.base for y in walk(m)):
                break
        else:
            # Nothing was read.
            continue
        cur = cursor(L)
        if cur is None:
            continue
        B, p0 = cur
        end = I(mk("slen", B))
        fs = d.field(s, m, "fields")
        res.add(cmp_seq(e, s.facts, fs, slot.head), ("C10",), L,
                "the field values are the ones read, in order", s.facts)
        g = d.field(s, m, "garbage")
        for f, left in ((s.facts.assume(eq0(sub(end, p0))), False), (s.facts.assume(ge0(addc(sub(end, p0), -1))), True)):
            if f is None:
                continue
            s2 = State(s.mem, f, s.ev)
            if not left:
                n = d.variant(s2, g)
                r = UNK if n is None else (EQ if n == "None" else d.match(s2, f, g, ("var", "Some", (("seq", e.mkseq([])),))))
                res.add(r, ("C09",), L, "nothing is left over when the data is used up", f)
                continue
            vs = d.varint(f, B, p0)
            if vs is None:
                res.add(UNK, ("C09",), L, "what is left at the end is kept", f)
                continue
            for f2, v, n in vs:
                if v is None:
                    r = d.match(s2, f2, g, ("var", "Some", (("seq", d.win(B, p0, sub(end, p0))),)))
                    res.add(r, ("C09", "C10"), L, "bytes that are not a tag are kept as garbage", f2)
                else:
                    # Left although a record follows.
                    res.add(UNK if f2.imp else NE, ("C10", "C09"), L, "reading goes on while there are records", f2)
