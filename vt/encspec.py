"""What encoding must write for every value, compared with what the code writes."""
from collections import Counter
from . import terms as tm
from .terms import T, mk, num, I, add, sub, addc, ge0, eq0, not_, bits, scale, cval, is_int, walk, ZERO
from .interp import State, Fork
from .compare import EQ, NE, UNK, cmp_int, cmp_seq, both, norm_parts, cmp_part, cmp_low, named
from .decspec import Dec, head_subst, phis_in, variants, inner_int, st_events, wires
from .axioms import adt_last

# Value variant -> (wire type, payload)
PAY = {
    "Double": (1, "le", 64), "Float": (5, "le", 32),
    "Int32": (0, "uv64"), "Int64": (0, "uv64"), "UInt32": (0, "uv64"), "UInt64": (0, "uv64"),
    "SInt32": (0, "zz"), "SInt64": (0, "zz"),
    "Fixed32": (5, "le", 32), "Fixed64": (1, "le", 64), "SFixed32": (5, "le", 32), "SFixed64": (1, "le", 64),
    "Bool": (0, "bool"),
}


def source(e, L, adt=None):
    """(base, index) of the sequence whose elements one iteration handles."""
    cnt = Counter()
    n0 = len(L.head.facts.conds())
    for s in L.slots:
        for _, ps in s.added:
            for x in walk(tuple_term(ps)):
                if x.tag == "el" and phis_in(x.args[1], L):
                    cnt[(x.args[0], x.args[1])] += 1
    for b in L.backs:
        for c in b.facts.conds()[n0:]:
            for x in walk(c):
                if x.tag == "el" and phis_in(x.args[1], L):
                    cnt[(x.args[0], x.args[1])] += 1
    best = [(k, n) for k, n in cnt.most_common() if adt is None or adt_last(e, k[0].args[1]) == adt]
    return best[0][0] if best else None


def tuple_term(ps):
    return mk("tmp", tuple(ps))


def scalar_payload(d, st, v, how):
    """[(facts, parts)] of one scalar value."""
    f = st.facts
    if how[0] == "le":
        x = v.args[0] if v.tag == "flt" else v
        if not is_int(x):
            return None
        return [(f, [mk("lit", tuple(bits(x, 8 * i, 8, f.env) for i in range(how[1] // 8)))])]
    if how[0] == "uv64":
        if not is_int(v):
            return None
        x = f.norm(v)
        return [(f, [mk("uv", x if f.rng(x)[0] >= 0 else bits(x, 0, 64, f.env))])]
    if how[0] == "zz":
        if not is_int(v):
            return None
        out = []
        g = f.assume(ge0(v))
        if g is not None:
            out.append((g, [mk("uv", scale(v, 2))]))
        g = f.assume(ge0(addc(scale(v, -1), -1)))
        if g is not None:
            out.append((g, [mk("uv", addc(scale(v, -2), -1))]))
        return out
    if how[0] == "bool":
        out = []
        for c, n in ((v, 1), (not_(v), 0)):
            g = f.assume(c)
            if g is not None:
                out.append((g, [mk("lit", (num(n),))]))
        return out


def compare_fields(e, res, outs):
    """Every outcome of encoding a message."""
    d = Dec(e, res)
    done = set()
    loops = [L for L in e.loops + e.first_loops if L.unrolled is None]
    where = None
    for s, v in outs:
        if v.tag != "seq":
            continue
        this = deref_self(e, s)
        parts = list(v.args[0])
        try:
            fields = d.field(s, this, "fields")
            garbage = d.field(s, this, "garbage")
        except (ValueError, StopIteration, KeyError):
            continue
        L = slot = None
        at = None
        for j, part in enumerate(parts):
            if part.tag == "win":
                for M in loops:
                    for x in M.slots:
                        if x.kind == "seq" and x.base is part.args[0]:
                            L, slot, at = M, x, j
            if L is not None:
                break
        fbase = fields.args[0][0].args[0] if fields.tag == "seq" and fields.args[0] and fields.args[0][0].tag == "win" else None
        flen = e.seq_len(fields)

        class W:
            fn, site = "MessageValue::encode", "src/decode.rs"
        where = L or W
        if L is None:
            # Nothing was written for the fields.
            f = s.facts.assume(ge0(addc(flen, -1)))
            rest = parts
            if f is not None:
                clear = not f.imp and fbase is not None and all(
                    p.tag in ("lit", "cst") or p.tag == "win" and named(p.args[0]) and p.args[0] is not fbase for p in parts) and \
                    not any(x.tag == "el" for p in parts for x in walk(p))
                res.add(NE if clear else UNK, ("C09",), where, "every field value is written", f)
                continue
        else:
            r = cmp_seq(e, s.facts, mk("seq", (parts[at],)), slot.head)
            res.add(r, ("C09", "C06"), L, "what is written for the fields is returned unchanged", s.facts)
            if at:
                res.add(cmp_seq(e, s.facts, mk("seq", tuple(parts[:at])), e.mkseq([])), ("C09",), L, "nothing is written before the fields", s.facts)
            rest = parts[at + 1:]
            src = source(e, L, "FieldValue")
            if src is None or fbase is None or src[0] is not fbase:
                res.add(UNK, ("C06", "C07", "C08", "C09"), L, "every field value is written", s.facts)
                continue
            if L.imprecise:
                res.add(UNK, ("C06", "C07", "C08", "C09"), L, "every field value is written", s.facts)
                continue
            idx = src[1]
            f = s.facts.assume(ge0(addc(sub(flen, idx), -1)))
            res.add(EQ if f is None else (UNK if f.imp else NE), ("C09", "C06"), L, "every field value is written", s.facts)
            if L not in done:
                done.add(L)
                check_loop(d, L, slot, src, fields)
        # The garbage comes last.
        for s2, n in variants(d, s, garbage):
            want = e.mkseq([]) if n == "None" else d.payload(s2, garbage)
            res.add(cmp_seq(e, s2.facts, e.mkseq(rest), want), ("C09",), where, "trailing garbage is written after the fields", s2.facts)
    return done


def deref_self(e, s):
    for r, v in s.mem.items():
        if r[0] == "S" and r[1].tag == "arg" and adt_last(e, r[2]) == "MessageValue":
            return v
    return e.fresh(mk("deref", mk("arg", 0)), next(i for i, t in enumerate(e.P.types) if t["k"] == "adt" and t["adt"].endswith("::MessageValue")))


def check_loop(d, L, slot, src, fields):
    e, res = d.e, d.res
    base, idx = src
    res.add(cmp_int(L.entry.facts, head_subst(e, L, idx, None), ZERO), ("C09",), L, "the first field value is written first", L.entry.facts)
    if slot.init is not None:
        res.add(cmp_seq(e, L.entry.facts, slot.init, e.mkseq([])), ("C09", "C06"), L, "nothing is written before the first field", L.entry.facts)
    for bi, b in enumerate(L.backs):
        f = b.facts
        res.add(cmp_int(f, head_subst(e, L, idx, bi), addc(idx, 1)), ("C09",), L, "field values are written in order", f)
        parts = [ps for k, ps in slot.added if k == bi]
        parts = list(parts[0]) if parts else []
        got = e.mkseq(parts)
        fv = e.elem(base, idx)
        try:
            number = d.field(b, fv, "number")
            value = d.field(b, fv, "value")
        except (ValueError, StopIteration, KeyError):
            continue
        for s1, vn in variants(d, b, value):
            check_value(d, L, s1, got, number, value, vn)


def tagged(number, w, f):
    return [mk("uv", addc(scale(bits(number, 0, 61, f.env), 8), w) if not is_int(w) else add(scale(bits(number, 0, 61, f.env), 8), w))]


def put(d, L, f, got, number, w, payload, props, what):
    """Compares got with tag ++ payload; tag and payload are judged apart when they can be told apart."""
    e = d.e
    tag = tagged(number, w, f)
    want = e.mkseq(tag + payload)
    r = cmp_seq(e, f, got, want)
    d.res.add(r, props + ("C06",) if r == EQ else (), L, what, f, "%s: %s" % (what, str(got)[:200])) if r == EQ else None
    if r == EQ:
        return
    gp, tp = norm_parts(e, f, got), norm_parts(e, f, e.mkseq(tag))
    if not gp:
        d.res.add(r, props + ("C06",), L, what + " is written", f)
        return
    if gp[0][0] == tp[0][0] and len(tp) == 1:
        rt = cmp_part(e, f, gp[0], tp[0])
        if rt == NE:
            d.res.add(NE, props + ("C06",), L, "tag of " + what, f)
            return
        if rt == EQ:
            d.res.add(r, props, L, "payload of " + what, f)
            return
    elif len(tp) == 1 and {gp[0][0], tp[0][0]} == {"byte", "uv"} and cmp_low(f, gp[0], tp[0]) == NE:
        d.res.add(NE, props + ("C06",), L, "tag of " + what, f)
        return
    d.res.add(r, props + ("C06",), L, what, f)


def check_value(d, L, st, got, number, value, vn):
    e, res = d.e, d.res
    f = st.facts
    v = d.field(st, value, "0", vn)
    if vn in PAY:
        rows = scalar_payload(d, st, v, PAY[vn][1:])
        for g, ps in rows or []:
            put(d, L, g, got, number, PAY[vn][0], ps, ("C07",), "%s value" % vn)
    elif vn in ("String", "Bytes"):
        put(d, L, f, got, number, 2, [mk("uv", e.seq_len(v))] + list(v.args[0]), ("C07",), "%s value" % vn)
    elif vn == "Enum":
        x = d.field(st, v, "value")
        for g, ps in scalar_payload(d, st, x, ("uv64",)) or []:
            put(d, L, g, got, number, 0, ps, ("C07",), "Enum value")
    elif vn == "Incomplete":
        bs = d.field(st, value, "1", vn)
        for k in range(8):
            g = f.assume(eq0(addc(v, -k)))
            if g is not None:
                put(d, L, g, got, number, k, list(bs.args[0]), ("C09",), "Incomplete value")
    elif vn == "Unknown":
        for s2, un in variants(d, st, v):
            x = d.field(s2, v, "0", un)
            g = s2.facts
            what = "Unknown value (%s)" % un
            if un == "Varint":
                put(d, L, g, got, number, 0, [mk("uv", x)], ("C09",), what)
            elif un == "Fixed64" or un == "Fixed32":
                n = int(un[5:])
                put(d, L, g, got, number, 1 if n == 64 else 5, scalar_payload(d, s2, x, ("le", n))[0][1], ("C09",), what)
            elif un == "VariableLength":
                put(d, L, g, got, number, 2, [mk("uv", e.seq_len(x))] + list(x.args[0]), ("C09",), what)
            elif un == "Invalid":
                bs = d.field(s2, v, "1", un)
                for k in range(8):
                    g2 = g.assume(eq0(addc(x, -k)))
                    if g2 is not None:
                        put(d, L, g2, got, number, k, list(bs.args[0]), ("C09",), what)
    elif vn == "Message":
        delimited(d, L, st, got, number, "Message value", ("C06", "C07"), lambda s, body: message_body(d, s, v, body))
    elif vn == "Packed":
        for s2, pn in variants(d, st, v):
            vec = d.field(s2, v, "0", pn)
            delimited(d, L, s2, got, number, "packed %s field" % pn, ("C08",),
                      lambda s, body, vec=vec, pn=pn: packed_body(d, L, s, vec, pn, body))


def delimited(d, L, st, got, number, what, props, fn):
    """A length-delimited record whose payload is judged by fn."""
    e, f = d.e, st.facts
    parts = list(got.args[0])
    if not parts:
        d.res.add(UNK if f.imp else NE, props + ("C06",), L, what + " is written", f)
        return
    # tag, length, payload.
    tag = tagged(number, 2, f)
    np = [norm_parts(e, f, e.mkseq([p])) for p in parts]
    tp = norm_parts(e, f, e.mkseq(tag))
    if len(np[0]) != 1 or np[0][0][0] != tp[0][0]:
        d.res.add(UNK, props, L, what, f)
        return
    r = cmp_part(e, f, np[0][0], tp[0])
    d.res.add(r, ("C06",) + tuple(p for p in props if p != "C06"), L, "tag of " + what, f)
    if r != EQ:
        return
    rest = e.mkseq(parts[1:])
    rp = list(rest.args[0])
    if not rp:
        d.res.add(UNK if f.imp else NE, props, L, what + " has a length", f)
        return
    first = norm_parts(e, f, e.mkseq(rp[:1]))
    if rp[0].tag in ("lit", "cst") and len(first) > 1:
        d.res.add(UNK, props, L, "length of " + what, f)
        return
    body = e.mkseq(rp[1:])
    if first and first[0][0] in ("byte", "uv"):
        d.res.add(cmp_int(f, first[0][1], e.seq_len(body)), props + ("C06",), L, "length of " + what, f)
    elif first and first[0][0] == "win":
        d.res.add(UNK if f.imp else NE, props, L, what + " has a length", f)
        return
    else:
        d.res.add(UNK, props, L, "length of " + what, f)
    d.res.add(fn(st, body), props, L, "payload of " + what, f)


def message_body(d, st, box, body):
    """Is body the encoding of the boxed message?"""
    e = d.e
    for ev in reversed(st_events(st)):
        if ev[0] in ("rec", "ret") and ev[2] and ev[2][0].tag in ("ptr",):
            r = ev[4] if ev[0] == "ret" else None
            same = ev[2][0].args[0] == box.args[0] if box.tag == "box" else False
            if not same:
                continue
            if ev[0] == "ret":
                return EQ if r is body else UNK
            for x in body.args[0]:
                if any(y is ev[3] for y in walk(x)):
                    return EQ
    return UNK


def packed_body(d, L, st, vec, pn, body):
    e = d.e
    ps = list(body.args[0])
    if not ps:
        return cmp_int(st.facts, e.seq_len(vec), ZERO)
    if len(ps) == 1 and ps[0].tag == "win":
        for M in e.loops + e.first_loops:
            if M.unrolled is not None or M.imprecise:
                continue
            for slot in M.slots:
                if slot.kind == "seq" and slot.base is ps[0].args[0]:
                    r = [cmp_seq(e, st.facts, body, slot.head), packed_loop(d, M, slot, vec, pn)]
                    src = source(e, M)
                    if src is None:
                        return UNK
                    f = st.facts.assume(ge0(addc(sub(e.seq_len(vec), src[1]), -1)))
                    r.append(EQ if f is None else (UNK if f.imp else NE))
                    return both(r)
    return UNK


def packed_loop(d, M, slot, vec, pn):
    cache = d.__dict__.setdefault("packed_cache", {})
    key = (M, slot.key, pn)
    if key in cache:
        return cache[key]
    e = d.e
    src = source(e, M)
    if src is None or vec.tag != "seq" or len(vec.args[0]) != 1 or vec.args[0][0].tag != "win" or src[0] is not vec.args[0][0].args[0]:
        cache[key] = UNK
        return UNK
    base, idx = src
    rs = [cmp_int(M.entry.facts, head_subst(e, M, idx, None), ZERO)]
    if slot.init is not None:
        rs.append(cmp_seq(e, M.entry.facts, slot.init, e.mkseq([])))
    for bi, b in enumerate(M.backs):
        rs.append(cmp_int(b.facts, head_subst(e, M, idx, bi), addc(idx, 1)))
        parts = [ps for k, ps in slot.added if k == bi]
        got = e.mkseq(list(parts[0]) if parts else [])
        v = e.elem(base, idx)
        for f, want in scalar_payload(d, b, v, PAY[pn][1:]) or [(None, None)]:
            rs.append(UNK if f is None else cmp_seq(e, f, got, e.mkseq(want)))
    cache[key] = both(rs)
    if cache[key] == EQ:
        d.res.compared[("C08", "packed element writer of %s" % pn)] += len(rs)
    return cache[key]
