"""What the standard library, bytes and pest do, for the abstract interpreter."""
import re
from . import terms as tm
from .terms import (T, mk, cval, num, add, sub, scale, addc, I, is_int, ge0, eq0, not_, same, TRUE, FALSE, ZERO, ONE,
                    wrap, bits, INF)
from .interp import Fork, State, LoopInfo

MODELS = {}


def model(*keys):
    def deco(f):
        for k in keys:
            MODELS[k] = f
        return f
    return deco


# ---------------------------------------------------------------- names of callees

def split_top(s, sep):
    out, d, cur, i = [], 0, "", 0
    while i < len(s):
        if s.startswith(sep, i) and d == 0:
            out.append(cur)
            cur = ""
            i += len(sep)
            continue
        ch = s[i]
        if ch in "<([":
            d += 1
        elif ch in ")]" or (ch == ">" and s[i - 1] != "-"):
            d -= 1
        cur += ch
        i += 1
    out.append(cur)
    return out


def head_name(t):
    """Short form of a type: no lifetimes, paths or generic arguments."""
    t = t.strip()
    t = re.sub(r"&'\w+ ", "&", t)
    m = re.match(r"^(&mut |&)", t)
    if m:
        return m.group(1) + head_name(t[m.end():])
    if t.startswith("["):
        return "[T; N]" if ";" in t else "[T]"
    if t.startswith("("):
        return "(...)"
    t = re.sub(r"<.*$", "", t)
    t = t.rstrip(":")
    return t.split("::")[-1]


def defkey(d):
    parts = split_top(d, "::")
    name = parts[-1]
    if name.startswith("{closure"):
        return d
    if len(parts) == 1:
        return d
    q = parts[-2]
    if q.startswith("<") and len(parts) == 2:
        inner = q[1:-1]
        a = split_top(inner, " as ")
        if len(a) == 2:
            return head_name(a[0]) + "|" + head_name(a[1]) + "::" + name
        return head_name(inner) + "." + name
    if q.startswith("<impl "):
        inner = q[6:-1]
        a = split_top(inner, " for ")
        if len(a) == 2:
            return head_name(a[1]) + "|" + head_name(a[0]) + "::" + name
        return head_name(inner) + "." + name
    if q.startswith("<"):
        q = parts[-3]
    return q + "." + name


INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}
_found = {}


def find_model(key):
    r = _found.get(key, 0)
    if r == 0:
        r = MODELS.get(key)
        if r is None and "|" in key:
            r = MODELS.get("*|" + key.split("|", 1)[1])
            if r is None:
                head, m = key.split("::") if key.count("::") == 1 else (None, None)
                if head is not None:
                    r = MODELS.get(head.split("|")[1] + "." + m)
        elif r is None and "." in key:
            h, m = key.split(".", 1)
            if h in INTS:
                r = MODELS.get("int." + m)
            elif h in ("f32", "f64"):
                r = MODELS.get("float." + m)
        _found[key] = r
    return r


class Ctx:
    __slots__ = ("e", "fr", "inst", "st", "rt", "argtys", "key")

    def __init__(self, e, fr, inst, st, rt, argtys, key):
        self.e, self.fr, self.inst, self.st, self.rt, self.argtys, self.key = e, fr, inst, st, rt, argtys, key

    def one(self, v):
        return [(self.st, v)]

    def argty(self, i):
        if self.argtys is not None and i < len(self.argtys):
            return self.argtys[i]
        b = self.e.P.body(self.inst)
        if b is not None and i + 1 < len(b.locals):
            return b.locals[i + 1]
        return None

    def read(self, p):
        return deref(self.e, self.st, p)

    def violation(self, kind, detail, st=None):
        self.e.note(self.fr, kind)
        self.e.violation(self.fr, st or self.st, kind, detail)

    def require(self, cond, kind, detail):
        s = self.e.require(self.fr, self.st, cond, kind, detail)
        if s is None:
            return False
        self.st = s
        return True

    def gargs(self):
        return self.e.P.insts[self.inst]["args"]


def deref(e, st, p):
    if p.tag == "ptr":
        return e.read(st, p.args[0], p.args[1])
    if p.tag == "sptr":
        return e.content(st, p)
    if p.tag == "box":
        return e.read(st, p.args[0], ())
    return p


def forked(e, st, fn):
    """All results of fn over the case splits it needs."""
    work, out = [st], []
    while work:
        s = work.pop()
        mark = (len(e.obligs), len(e.loops), len(e.recs), len(e.allocs), len(e.merges))
        try:
            out += fn(s.fork())
        except Fork as f:
            e.rollback(mark)
            for c in (f.cond, not_(f.cond)):
                s2 = s.assume(c)
                if s2 is not None:
                    work.append(s2.fork())
    return out


def variants(e, st, v):
    """[(state, variant index)] of an enum value."""
    return forked(e, st, lambda s: [(s, e.need_variant(s, v))])


def slc(e, st, v):
    """(root, path, start, len) of a reference to a slice or sequence."""
    if v.tag == "sptr":
        return v.args
    if v.tag == "ptr":
        c = e.read(st, v.args[0], v.args[1])
        if c.tag in ("ptr", "sptr", "box"):
            return slc(e, st, c)
        return v.args[0], v.args[1], ZERO, e.seq_len(c)
    if v.tag == "box":
        c = e.read(st, v.args[0], ())
        return v.args[0], (), ZERO, e.seq_len(c)
    r = ("S", v, e.P.find_ty("[u8]"))
    return r, (), ZERO, e.seq_len(e.load_root(st, r))


def enum_of(e, t, variant, *fields):
    ad = e.P.adts[e.ty(t)["adt"]]
    for i, v in enumerate(ad["variants"]):
        if v["name"] == variant:
            return mk("agg", t, i, tuple(fields))
    raise KeyError(variant)


def val_of(v):
    return v.args[0] if v.tag == "ovf" else v


# ---------------------------------------------------------------- panics

@model("panicking.panic_fmt", "panicking.panic", "rt.begin_panic", "panicking.unreachable_display", "panicking.assert_failed",
       "panicking.panic_display", "panicking.panic_str_2015", "panicking.panic_explicit", "option.unwrap_failed",
       "option.expect_failed", "result.unwrap_failed", "panicking.panic_nounwind", "panicking.panic_bounds_check",
       "process.abort", "process.exit", "panicking.assert_matches_failed", "panicking.panic_str_literal", "rt.panic_fmt",
       "panicking.assert_failed_inner", "panicking.panic_cannot_unwind", "slice_index.slice_index_fail")
def m_panic(c, *args):
    c.violation("panic", c.key)
    return []


def unwrap_like(c, v, good, msg):
    e = c.e
    if v.tag not in ("agg", "sym"):
        c.violation("panic", msg, mark_imp(c.st))
        return [(c.st, e.unk(c.rt, "unwrap"))]
    out = []
    for s, var in variants(e, c.st, v):
        if var == good:
            e.note(c.fr, "unwrap")
            out.append((s, e.payload(s, v, good)))
        else:
            c.violation("unwrap", msg, s)
    return out


def mark_imp(st):
    f = st.facts.copy()
    f.imp = True
    return State(st.mem, f, st.ev)


@model("Option.unwrap", "Option.expect")
def m_opt_unwrap(c, v, *a):
    return unwrap_like(c, v, 1, c.key)


@model("Result.unwrap", "Result.expect")
def m_res_unwrap(c, v, *a):
    return unwrap_like(c, v, 0, c.key)


@model("Result.unwrap_err", "Result.expect_err")
def m_res_unwrap_err(c, v, *a):
    return unwrap_like(c, v, 1, c.key)


@model("hint.unreachable_unchecked")
def m_unreachable_unchecked(c, *v):
    c.violation("unsafe", c.key)
    return []


@model("Option.unwrap_unchecked", "Result.unwrap_unchecked")
def m_unwrap_unchecked(c, v):
    good = 1 if "Option" in c.key else 0
    if not is_enum(v):
        c.violation("unsafe", c.key, mark_imp(c.st))
        return [(c.st, c.e.unk(c.rt, "unwrap"))]
    out = []
    for s, var in variants(c.e, c.st, v):
        if var == good:
            c.e.note(c.fr, "unsafe")
            out.append((s, c.e.payload(s, v, good)))
        else:
            c.violation("unsafe", c.key, s)
    return out


@model("str.from_utf8_unchecked", "String.from_utf8_unchecked", "str.from_utf8_unchecked_mut")
def m_utf8_unchecked(c, p):
    c.violation("unsafe", c.key)
    return [(c.st, c.e.unk(c.rt, "text"))]


# ---------------------------------------------------------------- Option and Result

def is_enum(v):
    return v.tag in ("agg", "sym")


def opt_map(c, v, some, none):
    if not is_enum(v):
        return [(c.st, c.e.unk(c.rt, "option"))]
    out = []
    for s, var in variants(c.e, c.st, v):
        if var == 1:
            out += some(s, c.e.payload(s, v, 1))
        else:
            out += none(s)
    return out


def res_map(c, v, ok, err):
    if not is_enum(v):
        return [(c.st, c.e.unk(c.rt, "result"))]
    out = []
    for s, var in variants(c.e, c.st, v):
        out += (ok if var == 0 else err)(s, c.e.payload(s, v, var))
    return out


def call(c, st, f, *args, rt=None):
    return c.e.call_fn(c.fr, st, f, list(args), rt)


@model("Option.map")
def m_opt_map(c, v, f):
    e = c.e
    return opt_map(c, v, lambda s, x: [(s2, e.some(c.rt, r)) for s2, r in call(c, s, f, x)], lambda s: [(s, e.none(c.rt))])


@model("Option.and_then")
def m_opt_and_then(c, v, f):
    return opt_map(c, v, lambda s, x: call(c, s, f, x), lambda s: [(s, c.e.none(c.rt))])


@model("Option.filter")
def m_opt_filter(c, v, p):
    e = c.e

    def some(s, x):
        r = ("H", e.uid())
        s.mem[r] = x
        out = []
        for s2, b in call(c, s, p, mk("ptr", r, ())):
            for s3, t in forked(e, s2, lambda q: [(q, e.decide(q, b))]):
                out.append((s3, e.some(c.rt, x) if t else e.none(c.rt)))
        return out
    return opt_map(c, v, some, lambda s: [(s, e.none(c.rt))])


@model("Option.or_else")
def m_opt_or_else(c, v, f):
    return opt_map(c, v, lambda s, x: [(s, c.e.some(c.rt, x))], lambda s: call(c, s, f))


@model("Option.or")
def m_opt_or(c, v, w):
    return opt_map(c, v, lambda s, x: [(s, c.e.some(c.rt, x))], lambda s: [(s, w)])


@model("Option.and")
def m_opt_and(c, v, w):
    return opt_map(c, v, lambda s, x: [(s, w)], lambda s: [(s, c.e.none(c.rt))])


@model("Option.unwrap_or")
def m_opt_unwrap_or(c, v, d):
    return opt_map(c, v, lambda s, x: [(s, x)], lambda s: [(s, d)])


@model("Option.unwrap_or_else")
def m_opt_unwrap_or_else(c, v, f):
    return opt_map(c, v, lambda s, x: [(s, x)], lambda s: call(c, s, f))


@model("Option.unwrap_or_default")
def m_opt_unwrap_or_default(c, v):
    return opt_map(c, v, lambda s, x: [(s, x)], lambda s: [(s, default(c, c.rt))])


@model("Option.map_or")
def m_opt_map_or(c, v, d, f):
    return opt_map(c, v, lambda s, x: call(c, s, f, x), lambda s: [(s, d)])


@model("Option.map_or_else")
def m_opt_map_or_else(c, v, d, f):
    return opt_map(c, v, lambda s, x: call(c, s, f, x), lambda s: call(c, s, d))


@model("Option.ok_or")
def m_ok_or(c, v, err):
    return opt_map(c, v, lambda s, x: [(s, mk("agg", c.rt, 0, (x,)))], lambda s: [(s, mk("agg", c.rt, 1, (err,)))])


@model("Option.ok_or_else")
def m_ok_or_else(c, v, f):
    return opt_map(c, v, lambda s, x: [(s, mk("agg", c.rt, 0, (x,)))],
                   lambda s: [(s2, mk("agg", c.rt, 1, (r,))) for s2, r in call(c, s, f)])


def is_var(c, p, want):
    v = c.read(p)
    if not is_enum(v):
        return c.one(mk("bsym", mk("unk", c.e.uid(), "variant test")))
    d = c.e.discr(c.st, v)
    return c.one(eq0(addc(d, -want)) if cval(d) is None else (TRUE if cval(d) == want else FALSE))


@model("Option.is_some")
def m_is_some(c, p):
    return is_var(c, p, 1)


@model("Option.is_none")
def m_is_none(c, p):
    return is_var(c, p, 0)


@model("Result.is_ok")
def m_is_ok(c, p):
    return is_var(c, p, 0)


@model("Result.is_err")
def m_is_err(c, p):
    return is_var(c, p, 1)


@model("Option.as_ref", "Option.as_mut", "Option.as_deref", "Option.as_deref_mut")
def m_as_ref(c, p):
    e = c.e
    v = c.read(p)
    if not is_enum(v) or p.tag != "ptr":
        return c.one(e.unk(c.rt, "as_ref"))
    out = []
    t = e.val_ty(v)
    inner = e.ty(t)["vf"][1][0]
    for s, var in variants(e, c.st, v):
        if var == 1:
            path = p.args[1] + (("f", 1, 0, inner),)
            q = mk("ptr", p.args[0], path)
            if "deref" in c.key:
                x = e.read(s, p.args[0], path)
                if x.tag in ("seq",):
                    q = mk("sptr", p.args[0], path, ZERO, e.seq_len(x))
                elif x.tag == "box":
                    q = mk("ptr", x.args[0], ())
                else:
                    q = x
            out.append((s, e.some(c.rt, q)))
        else:
            out.append((s, e.none(c.rt)))
    return out


@model("Option.take", "mem.take", "Option.replace", "mem.replace", "Option.insert", "mem.swap")
def m_take(c, p, *new):
    e = c.e
    if p.tag not in ("ptr", "box"):
        return NotImplemented
    v = c.read(p)
    if c.key == "Option.take":
        t = c.rt
        n = e.none(t)
    elif c.key == "mem.take":
        n = default(c, c.rt)
        if n is None:
            # Default of a local type.
            d = find_default(e, c.rt)
            if d is None:
                n = e.unk(c.rt, "default")
            else:
                out = []
                for s, nv in e.call(c.fr, d, [], c.st, c.rt):
                    e.write(s, p.args[0], p.args[1] if p.tag == "ptr" else (), nv)
                    out.append((s, v))
                return out
    elif c.key == "mem.replace":
        n = new[0]
    elif c.key == "Option.replace":
        n = e.some(c.rt, new[0])
    else:
        return NotImplemented
    e.write(c.st, p.args[0], p.args[1] if p.tag == "ptr" else (), n)
    return c.one(v)


def find_default(e, t):
    cache = e.__dict__.setdefault("_defaults", {})
    if t not in cache:
        cache[t] = None
        for i, x in enumerate(e.P.insts):
            if x["local"] and x["name"].endswith("as std::default::Default>::default") and x["ret"] == t:
                cache[t] = i
    return cache[t]


def default(c, t):
    e = c.e
    ty = e.ty(t)
    k = ty["k"]
    if k == "bool":
        return FALSE
    if k in ("int", "uint", "char"):
        return ZERO
    if k == "float":
        return mk("flt", ZERO, ty["bits"])
    if e.seq_elem(t) is not None and k == "adt":
        return e.mkseq([])
    if k == "adt":
        if ty["adt"] in e.MAP_ADTS:
            return mk("map", mk("empty",), ())
        if ty["adt"] == "std::option::Option":
            return e.none(t)
        if ty["adt"] == "std::path::PathBuf":
            return mk("sym", mk("emptypath",), t)
    if k == "tuple":
        fs = [default(c, x) for x in ty["elems"]]
        if all(f is not None for f in fs):
            return mk("agg", t, 0, tuple(fs))
    return None


@model("*|Default::default")
def m_default(c):
    v = default(c, c.rt)
    return NotImplemented if v is None else c.one(v)


@model("Result.map")
def m_res_map(c, v, f):
    return res_map(c, v, lambda s, x: [(s2, mk("agg", c.rt, 0, (r,))) for s2, r in call(c, s, f, x)],
                   lambda s, x: [(s, mk("agg", c.rt, 1, (x,)))])


@model("Result.map_err")
def m_res_map_err(c, v, f):
    return res_map(c, v, lambda s, x: [(s, mk("agg", c.rt, 0, (x,)))],
                   lambda s, x: [(s2, mk("agg", c.rt, 1, (r,))) for s2, r in call(c, s, f, x)])


@model("ResultExt.context", "Result|ResultExt::context")
def m_snafu_context(c, v, ctx):
    e = c.e
    return res_map(c, v, lambda s, x: [(s, mk("agg", c.rt, 0, (x,)))],
                   lambda s, x: [(s, mk("agg", c.rt, 1, (e.fresh(mk("snafu", ctx, x), e.ty(c.rt)["args"][1]),)))])


@model("Result.and_then")
def m_res_and_then(c, v, f):
    return res_map(c, v, lambda s, x: call(c, s, f, x), lambda s, x: [(s, mk("agg", c.rt, 1, (x,)))])


@model("Result.or_else")
def m_res_or_else(c, v, f):
    return res_map(c, v, lambda s, x: [(s, mk("agg", c.rt, 0, (x,)))], lambda s, x: call(c, s, f, x))


@model("Result.unwrap_or")
def m_res_unwrap_or(c, v, d):
    return res_map(c, v, lambda s, x: [(s, x)], lambda s, x: [(s, d)])


@model("Result.unwrap_or_else")
def m_res_unwrap_or_else(c, v, f):
    return res_map(c, v, lambda s, x: [(s, x)], lambda s, x: call(c, s, f, x))


@model("Result.unwrap_or_default")
def m_res_unwrap_or_default(c, v):
    return res_map(c, v, lambda s, x: [(s, x)], lambda s, x: [(s, default(c, c.rt))])


@model("Result.ok")
def m_res_ok(c, v):
    return res_map(c, v, lambda s, x: [(s, c.e.some(c.rt, x))], lambda s, x: [(s, c.e.none(c.rt))])


@model("Result.err")
def m_res_err(c, v):
    return res_map(c, v, lambda s, x: [(s, c.e.none(c.rt))], lambda s, x: [(s, c.e.some(c.rt, x))])


@model("Option|Try::branch")
def m_opt_branch(c, v):
    e = c.e
    at = e.ty(c.rt)["args"]
    return opt_map(c, v, lambda s, x: [(s, mk("agg", c.rt, 0, (x,)))],
                   lambda s: [(s, mk("agg", c.rt, 1, (mk("agg", at[0], 0, ()),)))])


@model("Result|Try::branch")
def m_res_branch(c, v):
    e = c.e
    at = e.ty(c.rt)["args"]
    return res_map(c, v, lambda s, x: [(s, mk("agg", c.rt, 0, (x,)))],
                   lambda s, x: [(s, mk("agg", c.rt, 1, (mk("agg", at[0], 1, (x,)),)))])


@model("Option|FromResidual::from_residual")
def m_opt_residual(c, v):
    return c.one(c.e.none(c.rt))


@model("Result|FromResidual::from_residual")
def m_res_residual(c, v):
    e = c.e
    if v.tag != "agg" or not v.args[2]:
        x = e.payload(c.st, v, 1) if v.tag == "sym" else e.unk(e.ty(c.rt)["args"][1], "residual")
    else:
        x = v.args[2][0]
    rt = e.ty(c.rt)["args"][1]
    vt = e.ty(v.args[0])["args"][1] if v.tag == "agg" and v.args[0] >= 0 else rt
    if vt != rt:
        x = e.fresh(mk("from", x), rt)
    return c.one(mk("agg", c.rt, 1, (x,)))


@model("Option.cloned", "Option.copied")
def m_opt_cloned(c, v):
    return opt_map(c, v, lambda s, x: [(s, c.e.some(c.rt, deref(c.e, s, x)))], lambda s: [(s, c.e.none(c.rt))])


@model("Option.is_some_and")
def m_is_some_and(c, v, f):
    return opt_map(c, v, lambda s, x: call(c, s, f, x), lambda s: [(s, FALSE)])


@model("Option.is_none_or")
def m_is_none_or(c, v, f):
    return opt_map(c, v, lambda s, x: call(c, s, f, x), lambda s: [(s, TRUE)])


@model("Option.transpose")
def m_transpose(c, v):
    e = c.e

    def some(s, x):
        return [(s2, mk("agg", c.rt, k, (e.some(e.ty(c.rt)["args"][0], e.payload(s2, x, 0)),) if k == 0 else (e.payload(s2, x, 1),)))
                for s2, k in variants(e, s, x)]
    return opt_map(c, v, some, lambda s: [(s, mk("agg", c.rt, 0, (e.none(e.ty(c.rt)["args"][0]),)))])


@model("bool.then")
def m_bool_then(c, b, f):
    e = c.e
    out = []
    for s, t in forked(e, c.st, lambda q: [(q, e.decide(q, b))]):
        if t:
            out += [(s2, e.some(c.rt, r)) for s2, r in call(c, s, f)]
        else:
            out.append((s, e.none(c.rt)))
    return out


@model("bool.then_some")
def m_bool_then_some(c, b, x):
    e = c.e
    return [(s, e.some(c.rt, x) if t else e.none(c.rt)) for s, t in forked(e, c.st, lambda q: [(q, e.decide(q, b))])]


# ---------------------------------------------------------------- copies and conversions

@model("*|Clone::clone", "*|ToOwned::to_owned", "[T].to_vec", "str.to_string", "*|Borrow::borrow")
def m_clone(c, p):
    e = c.e
    if c.key.endswith("borrow"):
        return c.one(p)
    v = c.read(p)
    if v.tag == "box":
        r = ("H", e.uid())
        c.st.mem[r] = e.read(c.st, v.args[0], ())
        return c.one(mk("box", r))
    return c.one(v)


@model("Box.new")
def m_box_new(c, v):
    r = ("H", c.e.uid())
    c.st.mem[r] = v
    return c.one(mk("box", r))


@model("Box.new_uninit")
def m_box_uninit(c):
    r = ("H", c.e.uid())
    c.st.mem[r] = mk("uninit",)
    return c.one(mk("box", r))


@model("boxed.box_assume_init_into_vec_unsafe")
def m_box_vec(c, b):
    v = c.read(b)
    while v.tag == "agg" and len(v.args[2]) >= 1:
        fs = [x for x in v.args[2] if x.tag != "uninit"]
        v = fs[-1] if fs else v.args[2][-1]
    return c.one(v)


@model("slice.into_vec", "[T].into_vec")
def m_into_vec(c, b):
    return c.one(c.read(b))


@model("hint.must_use", "convert.identity", "hint.black_box")
def m_id(c, v):
    return c.one(v)


@model("mem.drop", "mem.forget", "drop_in_place")
def m_drop(c, v):
    return c.one(c.e.unit())


@model("*|Into::into", "*|From::from", "String.from", "*|FromStr::from_str")
def m_into(c, v):
    e = c.e
    t = e.ty(c.rt)
    if c.key.endswith("from_str"):
        return NotImplemented
    frm = c.argty(0)
    if frm == c.rt:
        return c.one(v)
    it = e.int_ty(c.rt)
    if it and is_int(v):
        return c.one(v)
    if it and v.tag in ("b", "bsym", "eq0", "ge", "not", "same", "and", "or"):
        return c.one(e.to_int(c.st, v))
    se = e.seq_elem(c.rt)
    if se is not None and t["k"] == "adt":
        if v.tag in ("sptr", "ptr", "box"):
            x = c.read(v)
            if x.tag == "seq":
                return c.one(x)
        if v.tag == "seq":
            return c.one(v)
    if t["k"] == "adt" and t["adt"] == "std::borrow::Cow":
        if v.tag in ("sptr", "ptr"):
            return c.one(mk("agg", c.rt, 0, (v,)))
        return c.one(mk("agg", c.rt, 1, (v,)))
    a = e.P.adts.get(t["adt"]) if t["k"] == "adt" else None
    if a and a["box"]:
        r = ("H", e.uid())
        c.st.mem[r] = v
        return c.one(mk("box", r))
    if t["k"] == "adt" and t["adt"] == "std::option::Option":
        return c.one(e.some(c.rt, v))
    return NotImplemented


@model("*|TryInto::try_into", "*|TryFrom::try_from")
def m_try_into(c, v):
    e = c.e
    ts = e.ty(c.rt)["args"]
    u = ts[0]
    it = e.int_ty(u)
    if it and is_int(v):
        lo, hi = tm.ity(*it)
        c1 = ge0(addc(v, -lo))
        c2 = ge0(addc(scale(v, -1), hi))
        out = []

        def f(s):
            ok = e.decide(s, c1) and e.decide(s, c2)
            if ok:
                return [(s, mk("agg", c.rt, 0, (v,)))]
            return [(s, mk("agg", c.rt, 1, (e.fresh(mk("tryerr", v), ts[1]),)))]
        return forked(e, c.st, f)
    ut = e.ty(u)
    ref = False
    if ut["k"] == "ref" and e.kind(ut["to"]) == "array":
        ref, ut = True, e.ty(ut["to"])
    if ut["k"] == "array" and v.tag in ("sptr", "ptr"):
        root, path, start, n = slc(e, c.st, v)

        def g(s):
            if e.decide(s, eq0(addc(n, -ut["len"]))):
                x = e.content(s, mk("sptr", root, path, start, num(ut["len"])))
                if ref:
                    r = ("K", x)
                    return [(s, mk("agg", c.rt, 0, (mk("ptr", r, ()),)))]
                return [(s, mk("agg", c.rt, 0, (x,)))]
            return [(s, mk("agg", c.rt, 1, (e.fresh(mk("tryerr", n), ts[1]),)))]
        return forked(e, c.st, g)
    return NotImplemented


# ---------------------------------------------------------------- slices, vectors, strings

@model("*|Deref::deref", "*|DerefMut::deref_mut", "*|AsRef::as_ref", "*|AsMut::as_mut", "*|Borrow::borrow",
       "Vec.as_slice", "Vec.as_mut_slice", "String.as_str", "String.as_bytes", "str.as_bytes", "str.as_str", "[T].as_slice",
       "[T; N].as_slice", "*|BorrowMut::borrow_mut", "String.as_mut_str", "[T; N].as_ref", "Bytes.as_ref")
def m_deref(c, p):
    e = c.e
    if p.tag in ("sptr",):
        return c.one(p)
    if p.tag != "ptr":
        return c.one(p) if p.tag == "box" else NotImplemented
    v = c.read(p)
    if v.tag in ("ptr", "sptr"):
        if e.kind(c.rt) == "ref" and e.kind(e.ty(c.rt)["to"]) in ("slice", "str") and v.tag == "ptr":
            return m_deref(c, v)
        return c.one(v)
    if v.tag == "box":
        return c.one(mk("ptr", v.args[0], ()))
    to = e.ty(c.rt)
    if to["k"] == "ref" and e.kind(to["to"]) in ("slice", "str"):
        if v.tag in ("agg", "sym") and e.val_ty(v) is not None and e.adt_name(e.val_ty(v)) == "std::borrow::Cow":
            out = []
            for s, k in variants(e, c.st, v):
                x = e.payload(s, v, k)
                if k == 0:
                    out.append((s, x))
                else:
                    t = e.ty(e.val_ty(v))["vf"][1][0]
                    out.append((s, mk("sptr", p.args[0], p.args[1] + (("f", 1, 0, t),), ZERO, e.seq_len(x))))
            return out
        return c.one(mk("sptr", p.args[0], p.args[1], ZERO, e.seq_len(v)))
    return c.one(p)


@model("Vec.len", "[T].len", "str.len", "String.len", "Bytes.len", "BytesMut.len", "VecDeque.len")
def m_len(c, p):
    return c.one(slc(c.e, c.st, p)[3])


@model("BTreeMap.len", "HashMap.len")
def m_map_len(c, p):
    m = c.read(p)
    return c.one(I(mk("rng", mk("maplen", m), 0, tm.ISIZE_MAX)))


@model("Vec.is_empty", "[T].is_empty", "str.is_empty", "String.is_empty", "Bytes.is_empty", "BytesMut.is_empty")
def m_is_empty(c, p):
    return c.one(eq0(c.st.facts.norm(slc(c.e, c.st, p)[3])))


def index_range(c, idx, n):
    """(start, end) of a range argument, as terms; None when it is no range."""
    e = c.e
    t = e.val_ty(idx)
    if t is None or e.kind(t) != "adt":
        return None
    a = e.adt_name(t).split("::")[-1]
    if a == "RangeFull":
        return ZERO, n
    if idx.tag == "sym":
        idx = e.expand(c.st, idx)
    f = [val_of(x) for x in idx.args[2]]
    if a == "Range":
        return f[0], f[1]
    if a == "RangeFrom":
        return f[0], n
    if a == "RangeTo":
        return ZERO, f[0]
    if a == "RangeToInclusive":
        return ZERO, addc(f[0], 1)
    if a == "RangeInclusive":
        return f[0], addc(f[1], 1)
    return None


@model("*|Index::index", "*|IndexMut::index_mut", "Bytes.slice")
def m_index(c, p, idx):
    e = c.e
    if p.tag == "ptr" and e.read(c.st, p.args[0], p.args[1]).tag == "map":
        return map_get(c, p, idx, panics=True)
    root, path, start, n = slc(e, c.st, p)
    idx = val_of(idx)
    if is_int(idx):
        axiom_index(e, c.st, root, path, idx, n)
        if not c.require(ge0(addc(sub(n, idx), -1)), "bounds", "index"):
            return []
        et = elem_ty(c, root, path)
        return c.one(mk("ptr", root, path + (("i", add(start, idx), et),)))
    r = index_range(c, idx, n)
    if r is None:
        return NotImplemented
    a, b = r
    if not c.require(ge0(sub(b, a)), "bounds", "slice start after end"):
        return []
    if not c.require(ge0(sub(n, b)), "bounds", "slice end out of range"):
        return []
    out = mk("sptr", root, path, add(start, a), sub(b, a))
    if "str" in c.key or "String" in c.key:
        if not char_boundary(c, root, path, start, a, n) or not char_boundary(c, root, path, start, b, n):
            c.violation("boundary", "slice inside a character", inside(c, root, path, start, n, (a, b)))
    if c.key == "Bytes.slice":
        return c.one(e.content(c.st, out))
    return c.one(out)


def char_boundary(c, root, path, start, at, n):
    e = c.e
    if c.st.facts.eq(at, ZERO) or c.st.facts.eq(at, n):
        return True
    a = cval(at)
    s = e.content(c.st, mk("sptr", root, path, start, n))
    if s.tag == "seq" and s.args[0] and s.args[0][0].tag in ("cst",) and a is not None and a <= len(s.args[0][0].args[0]):
        bs = s.args[0][0].args[0]
        return a == len(bs) or bs[a] & 0xC0 != 0x80
    if len(at.args[1]) == 1 and at.args[1][0][1] == 1 and at.args[0] in (0, 1):
        # where a pattern was found in this very text, or behind it if it is one byte long
        f = at.args[1][0][0]
        while f.tag in ("int", "rng"):
            f = f.args[0]
        if f.tag in ("find", "rfind") and f.args[0] is s and (at.args[0] == 0 or is_int(f.args[1]) and cval(f.args[1]) is not None and cval(f.args[1]) < 128):
            return True
    for x in c.st.facts.conds():
        # behind what the text is known to start with, before what it ends with
        r = x.args[0] if x.tag == "bsym" else None
        if r is None or r.tag not in ("strip_prefix", "strip_suffix", "rel"):
            continue
        op, a = (r.args[0], r.args[1:]) if r.tag == "rel" else ({"strip_prefix": "starts_with", "strip_suffix": "ends_with"}[r.tag], r.args)
        if op not in ("starts_with", "ends_with") or len(a) != 2 or a[0] is not s:
            continue
        w = (ONE if is_int(a[1]) and cval(a[1]) is not None and cval(a[1]) < 128 else e.seq_len(a[1]) if a[1].tag == "seq" else None)
        if w is not None and c.st.facts.eq(at, w if op == "starts_with" else sub(n, w)):
            return True
    for h in c.e.boundary_hooks:
        if h(c, s, at):
            return True
    return False


def inside(c, root, path, start, n, places):
    """The state in which a place of a text is not at the edge of a character: exact if nothing is known of the text but its length."""
    s = c.e.content(c.st, mk("sptr", root, path, start, n))
    if s.tag == "seq" and len(s.args[0]) == 1 and s.args[0][0].tag == "win":
        base, lo, m = s.args[0][0].args
        t = base.args[0]
        while t.tag in ("fld", "el", "base", "deref"):
            t = t.args[0]
        def plain(x):
            return not any(y.tag != "slen" and any(z is base for z in y.args) for y in tm.walk(x))
        if cval(lo) == 0 and t.tag == "arg" and all(plain(x) for x in c.st.facts.conds()):
            for p in places:
                if cval(p) is None or cval(p) < 1:
                    continue
                fa = c.st.facts.assume(ge0(addc(sub(m, p), -1)))
                if fa is not None:
                    return State(c.st.mem, fa, c.st.ev)
    return mark_imp(c.st)


def elem_ty(c, root, path):
    e = c.e
    if path and path[-1][0] == "f":
        return e.seq_elem(path[-1][3])
    if path and path[-1][0] == "i":
        return e.seq_elem(path[-1][2]) if len(path[-1]) > 2 and path[-1][2] is not None else None
    if root[0] == "S":
        return e.seq_elem(root[2])
    if root[0] == "L":
        return e.seq_elem(e.P.body(e.frames[root[1]]).locals[root[2]])
    v = e.read(c.st, root, path)
    if v.tag == "seq":
        for p in v.args[0]:
            if p.tag == "win":
                return p.args[0].args[1]
            if p.tag == "lit":
                x = p.args[0][0]
                return e.val_ty(x) if not is_int(x) else e.u8
    return e.u8


def axiom_index(e, st, root, path, idx, n):
    for ax in e.index_axioms:
        f = ax(e, st, root, path, idx, n)
        if f is not None:
            st.facts = f


@model("[T].get", "[T].get_mut", "Vec.get", "str.get")
def m_get(c, p, idx):
    e = c.e
    root, path, start, n = slc(e, c.st, p)
    idx = val_of(idx)
    if is_int(idx):
        axiom_index(e, c.st, root, path, idx, n)
        et = elem_ty(c, root, path)
        if e.decide(c.st, ge0(addc(sub(n, idx), -1))):
            return c.one(e.some(c.rt, mk("ptr", root, path + (("i", add(start, idx), et),))))
        return c.one(e.none(c.rt))
    r = index_range(c, idx, n)
    if r is None:
        return NotImplemented
    a, b = r
    if e.decide(c.st, ge0(sub(b, a))) and e.decide(c.st, ge0(sub(n, b))):
        return c.one(e.some(c.rt, mk("sptr", root, path, add(start, a), sub(b, a))))
    return c.one(e.none(c.rt))


@model("[T].get_unchecked", "[T].get_unchecked_mut", "str.get_unchecked")
def m_get_unchecked(c, p, idx):
    e = c.e
    root, path, start, n = slc(e, c.st, p)
    idx = val_of(idx)
    if is_int(idx):
        axiom_index(e, c.st, root, path, idx, n)
        if not c.require(ge0(addc(sub(n, idx), -1)), "unsafe", "get_unchecked"):
            return []
        return c.one(mk("ptr", root, path + (("i", add(start, idx), elem_ty(c, root, path)),)))
    r = index_range(c, idx, n)
    if r is None:
        c.violation("unsafe", "get_unchecked", mark_imp(c.st))
        return NotImplemented
    a, b = r
    if not c.require(ge0(sub(b, a)), "unsafe", "get_unchecked") or not c.require(ge0(sub(n, b)), "unsafe", "get_unchecked"):
        return []
    return c.one(mk("sptr", root, path, add(start, a), sub(b, a)))


@model("[T].split_at_unchecked", "[T].split_at_mut_unchecked")
def m_split_at_unchecked(c, p, at):
    root, path, start, n = slc(c.e, c.st, p)
    if not c.require(ge0(sub(n, at)), "unsafe", "split_at_unchecked"):
        return []
    return c.one(mk("agg", c.rt, 0, (mk("sptr", root, path, start, at), mk("sptr", root, path, add(start, at), sub(n, at)))))


@model("[T].first", "[T].last", "[T].last_mut", "[T].first_mut", "Vec.last", "Vec.first", "Vec.last_mut")
def m_first(c, p):
    e = c.e
    root, path, start, n = slc(e, c.st, p)
    if not e.decide(c.st, ge0(addc(n, -1))):
        return c.one(e.none(c.rt))
    i = start if "first" in c.key else addc(add(start, n), -1)
    return c.one(e.some(c.rt, mk("ptr", root, path + (("i", i, elem_ty(c, root, path)),))))


@model("[T].split_first", "[T].split_last")
def m_split_first(c, p):
    e = c.e
    root, path, start, n = slc(e, c.st, p)
    if not e.decide(c.st, ge0(addc(n, -1))):
        return c.one(e.none(c.rt))
    tt = e.ty(c.rt)["args"][0]
    et = elem_ty(c, root, path)
    if "first" in c.key:
        a, r = start, mk("sptr", root, path, addc(start, 1), addc(n, -1))
    else:
        a, r = addc(add(start, n), -1), mk("sptr", root, path, start, addc(n, -1))
    return c.one(e.some(c.rt, mk("agg", tt, 0, (mk("ptr", root, path + (("i", a, et),)), r))))


@model("[T].split_at", "str.split_at", "[T].split_at_mut")
def m_split_at(c, p, at):
    root, path, start, n = slc(c.e, c.st, p)
    if not c.require(ge0(sub(n, at)), "bounds", "split_at"):
        return []
    if "str" in c.key and not char_boundary(c, root, path, start, at, n):
        c.violation("boundary", "split inside a character", inside(c, root, path, start, n, (at,)))
    return c.one(mk("agg", c.rt, 0, (mk("sptr", root, path, start, at), mk("sptr", root, path, add(start, at), sub(n, at)))))


@model("[T].split_at_checked", "str.split_at_checked")
def m_split_at_checked(c, p, at):
    e = c.e
    root, path, start, n = slc(e, c.st, p)
    if not e.decide(c.st, ge0(sub(n, at))):
        return c.one(e.none(c.rt))
    return c.one(e.some(c.rt, mk("agg", e.ty(c.rt)["args"][0], 0,
                                 (mk("sptr", root, path, start, at), mk("sptr", root, path, add(start, at), sub(n, at))))))


@model("Vec.new", "String.new", "BytesMut.new", "Bytes.new", "VecDeque.new")
def m_seq_new(c):
    return c.one(c.e.mkseq([]))


@model("Vec.with_capacity", "String.with_capacity", "BytesMut.with_capacity")
def m_with_capacity(c, n):
    alloc(c, "reserve", n)
    return c.one(c.e.mkseq([]))


@model("Vec.reserve", "String.reserve", "BytesMut.reserve", "Vec.reserve_exact")
def m_reserve(c, p, n):
    alloc(c, "reserve", n)
    return c.one(c.e.unit())


@model("vec.from_elem")
def m_from_elem(c, v, n):
    e = c.e
    alloc(c, "fill", n)
    k = cval(n)
    if k is not None and k <= 4096:
        return c.one(e.mkseq([mk("lit", (v,) * k)]))
    b = e.base(mk("repeat", v), e.seq_elem(c.rt))
    return c.one(e.mkseq([mk("win", b, ZERO, n)]))


@model("Vec.resize", "BytesMut.resize")
def m_resize(c, p, n, v):
    alloc(c, "fill", n)
    e = c.e
    e.write(c.st, p.args[0], p.args[1], e.mkseq([mk("win", e.base(mk("unk", e.uid(), "resize"), e.u8), ZERO, n)]))
    return c.one(e.unit())


def alloc(c, kind, n):
    e = c.e
    fn, site = e.where(c.fr)
    e.allocs.append((fn, site, kind, n, c.st))


def get_seq(c, p):
    v = c.read(p)
    if v.tag != "seq":
        v = c.e.mkseq([mk("win", c.e.base(v, c.e.u8), ZERO, c.e.seq_len(v))])
    return v


@model("Vec.push", "VecDeque.push_back")
def m_push(c, p, v):
    e = c.e
    s = get_seq(c, p)
    if is_int(v) and cval(v) is not None and e.ty(elem_of(c, p))["s"] == "u8":
        part = mk("cst", bytes([cval(v) & 255]))
    else:
        part = mk("lit", (val_of(v),))
    e.write(c.st, p.args[0], p.args[1], e.mkseq(list(s.args[0]) + [part]))
    return c.one(e.unit())


def elem_of(c, p):
    t = c.argty(0)
    e = c.e
    if t is not None and e.kind(t) == "ref":
        x = e.seq_elem(e.ty(t)["to"])
        if x is not None:
            return x
    return e.u8


@model("BytesMut|BufMut::put_u8", "BufMut.put_u8", "BytesMut|BufMut::put_i8")
def m_put_u8(c, p, v):
    e = c.e
    s = get_seq(c, p)
    k = cval(v)
    part = mk("cst", bytes([k & 255])) if k is not None else mk("lit", (v,))
    e.write(c.st, p.args[0], p.args[1], e.mkseq(list(s.args[0]) + [part]))
    return c.one(e.unit())


@model("BytesMut|BufMut::put_slice", "BytesMut.extend_from_slice", "Vec.extend_from_slice", "BytesMut|BufMut::put",
       "BufMut.put_slice", "BufMut.put", "String.push_str", "BytesMut.unsplit")
def m_extend_slice(c, p, v):
    e = c.e
    s = get_seq(c, p)
    x = v if v.tag == "seq" else c.read(v)
    if x.tag in ("sptr", "ptr"):
        x = c.read(x)
    if x.tag != "seq":
        x = e.mkseq([mk("win", e.base(x, e.u8), ZERO, e.seq_len(x))])
    alloc(c, "copy", e.seq_len(x))
    e.write(c.st, p.args[0], p.args[1], e.mkseq(list(s.args[0]) + list(x.args[0])))
    return c.one(e.unit())


@model("String|AddAssign::add_assign")
def m_string_add_assign(c, p, v):
    return m_extend_slice(c, p, v)


@model("String|Add::add")
def m_string_add(c, a, v):
    if a.tag != "seq" or v.tag not in ("sptr", "ptr"):
        return NotImplemented
    x = c.read(v)
    if x.tag != "seq":
        return NotImplemented
    alloc(c, "copy", c.e.seq_len(x))
    return c.one(c.e.mkseq(list(a.args[0]) + list(x.args[0])))


def put_int(n, big):
    def f(c, p, v):
        e = c.e
        s = get_seq(c, p)
        if v.tag == "flt":
            v = v.args[0]
        x = e.to_le(c.st, v, n, big)
        e.write(c.st, p.args[0], p.args[1], e.mkseq(list(s.args[0]) + list(x.args[0])))
        return c.one(e.unit())
    return f


for _n, _t in ((16, "16"), (32, "32"), (64, "64"), (128, "128")):
    for _k in "ui":
        MODELS["BytesMut|BufMut::put_%s%s_le" % (_k, _t)] = put_int(_n, False)
        MODELS["BufMut.put_%s%s_le" % (_k, _t)] = put_int(_n, False)
        MODELS["BufMut.put_%s%s" % (_k, _t)] = put_int(_n, True)
        MODELS["BytesMut|BufMut::put_%s%s" % (_k, _t)] = put_int(_n, True)
for _n in (32, 64):
    MODELS["BufMut.put_f%d_le" % _n] = put_int(_n, False)
    MODELS["BytesMut|BufMut::put_f%d_le" % _n] = put_int(_n, False)
    MODELS["BufMut.put_f%d" % _n] = put_int(_n, True)


@model("Vec.append", "BytesMut.append")
def m_append(c, p, q):
    e = c.e
    s, x = get_seq(c, p), get_seq(c, q)
    e.write(c.st, p.args[0], p.args[1], e.mkseq(list(s.args[0]) + list(x.args[0])))
    e.write(c.st, q.args[0], q.args[1], e.mkseq([]))
    return c.one(e.unit())


@model("String.push")
def m_string_push(c, p, ch):
    e = c.e
    s = get_seq(c, p)
    k = cval(ch)
    part = mk("cst", chr(k).encode()) if k is not None else mk("win", e.base(mk("utf8", ch), e.u8), ZERO,
                                                               I(mk("rng", mk("utf8len", ch), 1, 4)))
    e.write(c.st, p.args[0], p.args[1], e.mkseq(list(s.args[0]) + [part]))
    return c.one(e.unit())


@model("Vec.pop")
def m_pop(c, p):
    e = c.e
    s = get_seq(c, p)
    n = e.seq_len(s)
    if not e.decide(c.st, ge0(addc(n, -1))):
        return c.one(e.none(c.rt))
    x = e.elem_at(c.st, s, addc(n, -1), elem_of(c, p))
    a, _ = e.split_seq(c.st, s, addc(n, -1))
    e.write(c.st, p.args[0], p.args[1], a)
    return c.one(e.some(c.rt, x))


@model("Vec.truncate", "BytesMut.truncate", "String.truncate")
def m_truncate(c, p, n):
    e = c.e
    s = get_seq(c, p)
    if e.decide(c.st, ge0(addc(sub(e.seq_len(s), n), -1))):
        a, _ = e.split_seq(c.st, s, n)
        e.write(c.st, p.args[0], p.args[1], a)
    return c.one(e.unit())


@model("Vec.clear", "BytesMut.clear", "String.clear")
def m_clear(c, p):
    c.e.write(c.st, p.args[0], p.args[1], c.e.mkseq([]))
    return c.one(c.e.unit())


@model("Vec.insert")
def m_vec_insert(c, p, i, v):
    e = c.e
    s = get_seq(c, p)
    if not c.require(ge0(sub(e.seq_len(s), i)), "bounds", "insert"):
        return []
    a, b = e.split_seq(c.st, s, i)
    e.write(c.st, p.args[0], p.args[1], e.mkseq(list(a.args[0]) + [mk("lit", (v,))] + list(b.args[0])))
    return c.one(e.unit())


@model("Vec.remove", "Vec.swap_remove")
def m_vec_remove(c, p, i):
    e = c.e
    s = get_seq(c, p)
    if not c.require(ge0(addc(sub(e.seq_len(s), i), -1)), "bounds", "remove"):
        return []
    if "swap" in c.key:
        return NotImplemented
    a, b = e.split_seq(c.st, s, i)
    x = e.elem_at(c.st, s, i, elem_of(c, p))
    _, r = e.split_seq(c.st, b, ONE)
    e.write(c.st, p.args[0], p.args[1], e.mkseq(list(a.args[0]) + list(r.args[0])))
    return c.one(x)


@model("[T].contains", "[T].starts_with", "[T].ends_with", "str.contains", "str.starts_with", "str.ends_with")
def m_contains(c, p, q):
    x = c.read(p)
    y = q if is_int(q) else c.read(q)
    op = c.key.split(".")[1]
    a = tm.seq_const(x) if x.tag == "seq" else None
    b = tm.seq_const(y) if y.tag == "seq" else None
    if b is None and is_int(y) and cval(y) is not None:
        b = chr(cval(y)).encode() if "str" in c.key else bytes([cval(y)]) if cval(y) < 256 else None
    if a is not None and b is not None:
        r = {"contains": lambda: b in a, "starts_with": lambda: a.startswith(b), "ends_with": lambda: a.endswith(b)}[op]()
        return c.one(TRUE if r else FALSE)
    r = mk("bsym", mk("rel", op, x, y))
    if op == "starts_with" and "str" in c.key and x.tag == "seq":
        known = headed(c.e, c.st, x, y)
        if known is not None:
            return c.one(TRUE if known else FALSE)
    if "str" in c.key:
        y = one_char(y)
        if is_int(y) and x.tag == "seq":
            r = mk("bsym", mk({"contains": "find", "starts_with": "strip_prefix", "ends_with": "strip_suffix"}[op], x, y))
    w = ONE if is_int(y) and x.tag == "seq" else c.e.seq_len(y) if y.tag == "seq" and x.tag == "seq" else None
    if w is not None and w is not ZERO:
        # what contains something is not shorter
        if not c.e.decide(c.st, r):
            return c.one(FALSE)
        fa = c.st.facts.assume(ge0(sub(c.e.seq_len(x), w)))
        if fa is None:
            return []
        c.st.facts = fa
        return c.one(TRUE)
    return c.one(r)


@model("Bytes.copy_from_slice", "Bytes.from_static", "[T].to_vec", "str.to_owned", "*|From::from_slice", "[T].into_boxed_slice",
       "Vec.into_boxed_slice", "str.into_bytes", "String.into_bytes", "BytesMut.freeze", "Bytes.to_vec", "String.into_boxed_str",
       "[T].to_owned")
def m_copy(c, p):
    x = p if p.tag == "seq" else c.read(p)
    if x.tag in ("sptr", "ptr"):
        x = c.read(x)
    if x.tag == "seq":
        alloc(c, "copy", c.e.seq_len(x))
    return c.one(x)


@model("[T].copy_from_slice", "[T].clone_from_slice")
def m_copy_from(c, p, v):
    e = c.e
    x = e.content(c.st, v)
    old = e.content(c.st, p)
    if x.tag != "seq" or old.tag != "seq" or p.tag != "sptr":
        e.havocs["copy_from_slice"] += 1
        e.havoc_target(c.st, p)
        return c.one(e.unit())
    if not c.require(eq0(sub(e.seq_len(old), e.seq_len(x))), "panic", "copy_from_slice with different lengths"):
        return []
    e.write_range(c.st, p, x)
    return c.one(e.unit())


@model("[T].fill")
def m_fill(c, p, v):
    e = c.e
    if p.tag != "sptr":
        e.havocs["fill"] += 1
        e.havoc_target(c.st, p)
        return c.one(e.unit())
    n = p.args[3]
    k = cval(n)
    new = e.mkseq([mk("lit", (v,) * k)]) if k is not None and k <= 4096 else \
        e.mkseq([mk("win", e.base(mk("repeat", v), e.u8), ZERO, n)])
    e.write_range(c.st, p, new)
    return c.one(e.unit())


@model("BytesMut.split", "BytesMut.split_to", "BytesMut.split_off", "Bytes.split_to", "Bytes.split_off", "Vec.split_off")
def m_bsplit(c, p, *at):
    e = c.e
    s = get_seq(c, p)
    if not at:
        e.write(c.st, p.args[0], p.args[1], e.mkseq([]))
        return c.one(s)
    if not c.require(ge0(sub(e.seq_len(s), at[0])), "bounds", "split"):
        return []
    a, b = e.split_seq(c.st, s, at[0])
    keep, ret = (b, a) if "split_to" in c.key else (a, b)
    e.write(c.st, p.args[0], p.args[1], keep)
    return c.one(ret)


@model("Buf.advance", "&[T]|Buf::advance", "Bytes|Buf::advance", "BytesMut|Buf::advance")
def m_advance(c, p, n):
    e = c.e
    v = e.read(c.st, p.args[0], p.args[1])
    if v.tag == "sptr":
        if not c.require(ge0(sub(v.args[3], n)), "bounds", "advance"):
            return []
        e.write(c.st, p.args[0], p.args[1], mk("sptr", v.args[0], v.args[1], add(v.args[2], n), sub(v.args[3], n)))
        return c.one(e.unit())
    return NotImplemented


@model("*|ToString::to_string", "*|Display::fmt_to")
def m_to_string(c, p):
    return c.one(display(c.e, c.st, p, c.argty(0)))


def display(e, st, p, t):
    """The text of a value formatted with Display."""
    v = deref(e, st, p)
    for _ in range(4):
        if v.tag in ("ptr", "sptr", "box"):
            v = deref(e, st, v)
    if v.tag == "agg" and e.val_ty(v) is not None and e.kind(e.val_ty(v)) == "adt" and e.adt_name(e.val_ty(v)) == "std::borrow::Cow":
        v = v.args[2][0]
        if v.tag in ("ptr", "sptr"):
            v = deref(e, st, v)
    if v.tag == "seq":
        return v
    if is_int(v) and cval(v) is not None:
        return e.cst(str(cval(v)).encode())
    b = e.base(mk("display", v), e.u8)
    return e.mkseq([mk("win", b, ZERO, I(mk("slen", b)))])


@model("Argument.new_display", "Argument.new_debug", "Argument.new_lower_hex", "Argument.new_upper_hex", "Argument.new_octal",
       "Argument.new_lower_exp")
def m_arg_new(c, p):
    e = c.e
    if "display" in c.key:
        return c.one(mk("fmtarg", display(e, c.st, p, None)))
    v = deref(e, c.st, p)
    for _ in range(4):
        if v.tag in ("ptr", "sptr", "box"):
            v = deref(e, c.st, v)
    b = e.base(mk(c.key.split("_", 1)[1], v), e.u8)
    return c.one(mk("fmtarg", e.mkseq([mk("win", b, ZERO, I(mk("slen", b)))])))


@model("Arguments.new")
def m_args_new(c, t, a):
    e = c.e
    tpl = tm.seq_const(c.read(t))
    args = c.read(a)
    return c.one(mk("fmtargs", fmt_text(e, c.st, tpl, args)))


def fmt_text(e, st, tpl, args):
    parts = []
    i = nxt = 0
    try:
        if tpl is None:
            raise IndexError
        while True:
            n = tpl[i]
            i += 1
            if n == 0:
                break
            if n < 0x80:
                parts.append(mk("cst", tpl[i:i + n]))
                i += n
            elif n == 0x80:
                ln = tpl[i] | tpl[i + 1] << 8
                parts.append(mk("cst", tpl[i + 2:i + 2 + ln]))
                i += 2 + ln
            else:
                opts = None
                if n & 1:
                    opts = tpl[i:i + 4]
                    i += 4
                if n & 2:
                    opts = (opts or b"") + tpl[i:i + 2]
                    i += 2
                if n & 4:
                    opts = (opts or b"") + tpl[i:i + 2]
                    i += 2
                if n & 8:
                    nxt = tpl[i] | tpl[i + 1] << 8
                    i += 2
                x = e.elem_at(st, args, num(nxt))
                nxt += 1
                if x.tag == "fmtarg" and opts is None:
                    parts += list(x.args[0].args[0])
                else:
                    b = e.base(mk("formatted", x, opts), e.u8)
                    parts.append(mk("win", b, ZERO, I(mk("slen", b))))
    except IndexError:
        b = e.base(mk("unk", e.uid(), "format"), e.u8)
        return e.mkseq([mk("win", b, ZERO, I(mk("slen", b)))])
    return e.mkseq(parts)


@model("Arguments.from_str", "Arguments.new_const", "Arguments.from_str_nonconst")
def m_args_str(c, p):
    v = c.read(p)
    return c.one(mk("fmtargs", v if v.tag == "seq" else c.e.mkseq([])))


@model("fmt.format", "string.format")
def m_format(c, a):
    if a.tag == "fmtargs":
        return c.one(a.args[0])
    return c.one(c.e.unk(c.rt, "format"))


@model("[T].join", "[T].concat")
def m_join(c, p, *sep):
    e = c.e
    v = c.read(p)
    sp = c.read(sep[0]) if sep else e.mkseq([])
    # A literal list is joined; anything else is named.
    parts = []
    if v.tag == "seq" and all(x.tag == "lit" for x in v.args[0]):
        first = True
        for part in v.args[0]:
            for x in part.args[0]:
                s = x if x.tag == "seq" else deref(e, c.st, x)
                if s.tag in ("ptr", "sptr"):
                    s = deref(e, c.st, s)
                if s.tag != "seq":
                    s = e.mkseq([mk("win", e.base(s, e.u8), ZERO, e.seq_len(s))])
                if not first:
                    parts += list(sp.args[0])
                parts += list(s.args[0])
                first = False
        return c.one(e.mkseq(parts))
    return c.one(e.mkseq([mk("win", e.base(mk("join", v, sp), e.u8), ZERO,
                             I(mk("slen", e.base(mk("join", v, sp), e.u8))))]))


@model("String.from_utf8_lossy")
def m_utf8_lossy(c, p):
    e = c.e
    v = c.read(p)
    b = e.base(mk("utf8lossy", v), e.u8)
    return c.one(mk("agg", c.rt, 1, (e.mkseq([mk("win", b, ZERO, I(mk("slen", b)))]),)))


@model("Cow.into_owned", "Cow.to_mut")
def m_into_owned(c, v):
    e = c.e
    out = []
    if not is_enum(v):
        return NotImplemented
    for s, k in variants(e, c.st, v):
        x = e.payload(s, v, k)
        out.append((s, deref(e, s, x) if k == 0 else x))
    return out


@model("String.from_utf8", "str.from_utf8", "converts.from_utf8")
def m_from_utf8(c, p):
    e = c.e
    v = p if p.tag == "seq" else c.read(p)
    at = e.ty(c.rt)["args"]
    ok = mk("bsym", mk("utf8ok", v))
    if e.decide(c.st, ok):
        return c.one(mk("agg", c.rt, 0, (p,)))
    return c.one(mk("agg", c.rt, 1, (e.fresh(mk("utf8err", v), at[1]),)))


def one_char(v):
    """A pattern that is a string of one character is that character."""
    k = tm.seq_const(v) if v.tag == "seq" else None
    return num(k[0]) if k is not None and len(k) == 1 and k[0] < 128 else v


def pattern(c, pat):
    return one_char(pat if is_int(pat) else (c.read(pat) if pat.tag in ("sptr", "ptr") else pat))


@model("str.rfind", "str.find", "str.split_once", "str.rsplit_once")
def m_rfind(c, p, pat):
    e = c.e
    root, path, start, n = slc(e, c.st, p)
    v = e.content(c.st, mk("sptr", root, path, start, n))
    pv = pattern(c, pat)
    op = c.key.split(".")[1]
    nm = mk("rfind" if op[0] == "r" else "find", v, pv)
    w = 1
    if "once" in op:
        if not is_int(pv) or cval(pv) is None or cval(pv) > 127:
            return NotImplemented
    if v.tag == "seq" and not v.args[0]:
        return c.one(e.none(c.rt)) if is_int(pv) else NotImplemented
    if e.decide(c.st, mk("bsym", mk("find", v, pv))):
        i = I(mk("int", nm, "uint", 64))
        s = c.st.assume(ge0(addc(sub(n, i), -w)))
        if s is None:
            return []
        s.event("found", nm)
        if "once" in op:
            a = mk("sptr", root, path, start, i)
            b = mk("sptr", root, path, addc(add(start, i), w), addc(sub(n, i), -w))
            return [(s, e.some(c.rt, mk("agg", e.ty(c.rt)["args"][0], 0, (a, b))))]
        return [(s, e.some(c.rt, i))]
    return c.one(e.none(c.rt))


def spelt(y):
    """A constant pattern as a string, or None."""
    if is_int(y):
        return chr(cval(y)) if cval(y) is not None and 0 <= cval(y) < 0x110000 else None
    b = tm.seq_const(y) if y.tag == "seq" else None
    try:
        return b.decode() if b is not None else None
    except UnicodeDecodeError:
        return None


def headed(e, st, x, y):
    """Does the text x start with y?  True / False where what is known of its first characters says so, else None."""
    w = spelt(y)
    if not w or not e.head_hooks:
        return None
    said = []
    for c in st.facts.conds():
        yes = c.tag == "bsym"
        r = c.args[0] if yes else c.args[0].args[0] if c.tag == "not" and c.args[0].tag == "bsym" else None
        if r is None or r.tag not in ("strip_prefix", "rel") or r.tag == "rel" and r.args[0] != "starts_with":
            continue
        a = r.args[1:] if r.tag == "rel" else r.args
        if len(a) == 2 and a[0] is x and spelt(a[1]):
            said.append((spelt(a[1]), yes))
    n = max([len(w)] + [len(p) for p, _ in said])
    for h in e.head_hooks:
        hs = h(st, x, n)
        if hs is None:
            continue
        hs = [s for s in hs if all(s.startswith(p) == yes for p, yes in said)]
        if all(s.startswith(w) for s in hs):
            return True
        if not any(s.startswith(w) for s in hs):
            return False
    return None


@model("str.strip_prefix", "str.strip_suffix")
def m_strip_prefix(c, p, pat):
    e = c.e
    root, path, start, n = slc(e, c.st, p)
    v = e.content(c.st, mk("sptr", root, path, start, n))
    pv = pattern(c, pat)
    nm = mk(c.key.split(".")[1], v, pv)
    w = ONE if is_int(pv) else (e.seq_len(pv) if pv.tag == "seq" else None)
    if w is None:
        return NotImplemented
    if is_int(pv) and (cval(pv) is None or cval(pv) > 127):
        return NotImplemented
    known = headed(e, c.st, v, pv) if "prefix" in c.key else None
    if e.decide(c.st, mk("bsym", nm)) if known is None else known:
        s = c.st.assume(ge0(sub(n, w)))
        if s is None:
            return []
        q = mk("sptr", root, path, add(start, w), sub(n, w)) if "prefix" in c.key else mk("sptr", root, path, start, sub(n, w))
        return [(s, e.some(c.rt, q))]
    return c.one(e.none(c.rt))


@model("str.split", "str.splitn", "str.rsplit", "str.chars", "str.char_indices", "str.bytes", "str.lines",
       "str.split_terminator", "str.split_whitespace", "str.rsplitn")
def m_split(c, p, *pat):
    e = c.e
    v = c.read(p)
    pv = tuple(x if is_int(x) else (c.read(x) if x.tag in ("sptr", "ptr") else x) for x in pat)
    if c.key == "str.bytes":
        root, path, start, n = slc(e, c.st, p)
        return c.one(mk("it", "slice", "own", (root, path), start, add(start, n), e.u8))
    et = e.P.find_ty("&str") if "char" not in c.key else e.P.find_ty("char")
    if et is None or c.key == "str.char_indices":
        return NotImplemented
    b = e.base(mk("strsplit", c.key, v, pv), et)
    r = ("K", e.mkseq([mk("win", b, ZERO, I(mk("slen", b)))]))
    return c.one(mk("it", "slice", "own", (r, ()), ZERO, I(mk("slen", b)), et))


@model("str.trim", "str.trim_start", "str.trim_end", "str.trim_left", "str.trim_right", "str.trim_matches", "str.trim_start_matches",
       "str.trim_end_matches", "str.trim_left_matches", "str.trim_right_matches")
def m_trim(c, p, *pat):
    """A part of the text; how much is cut off is a function of the text and the pattern."""
    e = c.e
    root, path, start, n = slc(e, c.st, p)
    v = c.read(p)
    pv = tuple(x if is_int(x) else (c.read(x) if x.tag in ("sptr", "ptr") else x) for x in pat)
    cut = []
    for side, other in (("start", "right"), ("end", "left")):
        if side == "start" and ("_end" in c.key or other in c.key) or side == "end" and ("_start" in c.key or other in c.key):
            cut.append(ZERO)
        else:
            cut.append(I(mk("rng", mk("trim", c.key, side, v, pv), 0, tm.ISIZE_MAX)))
    fa = c.st.facts.assume(ge0(sub(n, add(*cut))))
    if fa is None:
        return []
    c.st.facts = fa
    return c.one(mk("sptr", root, path, add(start, cut[0]), sub(n, add(*cut))))


@model("str.to_lowercase", "str.to_uppercase", "str.replace")
def m_str_fn(c, p, *a):
    e = c.e
    v = c.read(p)
    av = tuple(x if is_int(x) else c.read(x) for x in a)
    b = e.base(mk("strfn", c.key, v, av), e.u8)
    s = e.mkseq([mk("win", b, ZERO, I(mk("slen", b)))])
    if e.kind(c.rt) == "ref":
        return c.one(mk("sptr", ("K", s), (), ZERO, e.seq_len(s)))
    return c.one(s)


def parse_result(c, nm, ok_ty):
    e = c.e
    at = e.ty(c.rt)["args"]
    v = e.fresh(nm, at[0])
    for h in e.parse_hooks:
        r = h(c, nm)
        if r is True:
            return c.one(mk("agg", c.rt, 0, (v,)))
    if e.decide(c.st, mk("bsym", mk("parses", nm))):
        return c.one(mk("agg", c.rt, 0, (v,)))
    return c.one(mk("agg", c.rt, 1, (e.fresh(mk("parseerr", nm), at[1]),)))


@model("str.parse", "*|FromStr::from_str")
def m_parse(c, p):
    e = c.e
    at = e.ty(c.rt)["args"]
    t = e.ty(at[0])
    if t["k"] not in ("int", "uint", "float"):
        return NotImplemented
    return parse_result(c, mk("parse", t["s"], 10, c.read(p)), at[0])


@model("int.from_str_radix")
def m_from_str_radix(c, p, radix):
    e = c.e
    at = e.ty(c.rt)["args"]
    r = cval(radix)
    if r is None or not 2 <= r <= 36:
        if r is not None:
            c.violation("panic", "from_str_radix")
            return []
        return NotImplemented
    return parse_result(c, mk("parse", e.ty(at[0])["s"], r, c.read(p)), at[0])


# ---------------------------------------------------------------- comparisons

def deep(e, st, v, n=6):
    while v.tag in ("ptr", "sptr", "box") and n:
        v = deref(e, st, v)
        n -= 1
    return v


def local_eq(c, t):
    """The crate's own PartialEq instance for type t."""
    e = c.e
    cache = e.__dict__.setdefault("_eqs", {})
    if t not in cache:
        cache[t] = None
        s = e.ty(t)["s"]
        for i, x in enumerate(e.P.insts):
            if x["local"] and x["def"].endswith("as std::cmp::PartialEq>::eq"):
                b = e.P.body(i)
                if b is not None:
                    u = e.ty(b.locals[1])
                    if u["k"] == "ref" and u["to"] == t:
                        cache[t] = i
    return cache[t]


def val_eq(c, x, y, t):
    """[(state, boolean)] of x == y for values of type t (None when unknown)."""
    e = c.e
    st = c.st
    if is_int(x) and is_int(y):
        return [(st, eq0(st.facts.norm(sub(x, y))))]
    if x.tag == "seq" and y.tag == "seq":
        return [(st, seq_eq(e, st, x, y))]
    if t is None:
        t = e.val_ty(x) if e.val_ty(x) is not None else e.val_ty(y)
    if t is not None:
        ty = e.ty(t)
        if ty["k"] == "ref":
            return val_eq(c, deep(e, st, x), deep(e, st, y), ty["to"] if e.kind(ty["to"]) != "ref" else None)
        if ty["k"] == "bool":
            return [(st, e.bool_eq(st, x, y))]
        if ty["k"] == "float":
            return [(st, mk("feq", x, y))]
        if ty["k"] == "adt" and ty["adt"] == "std::option::Option" and is_enum(x) and is_enum(y):
            out = []
            for s, a in variants(e, st, x):
                for s2, b in variants(e, s, y):
                    if a != b:
                        out.append((s2, FALSE))
                    elif a == 0:
                        out.append((s2, TRUE))
                    else:
                        c2 = Ctx(e, c.fr, c.inst, s2, c.rt, None, c.key)
                        out += val_eq(c2, e.payload(s2, x, 1), e.payload(s2, y, 1), ty["vf"][1][0])
            return out
        q = local_eq(c, t)
        if q is not None:
            rx, ry = ("H", e.uid()), ("H", e.uid())
            st.mem[rx], st.mem[ry] = x, y
            return e.call(c.fr, q, [mk("ptr", rx, ()), mk("ptr", ry, ())], st, c.rt)
        if ty["k"] == "tuple" and x.tag == "agg" and y.tag == "agg":
            res = [(st, TRUE)]
            for i, et in enumerate(ty["elems"]):
                new = []
                for s, b in res:
                    if b is FALSE:
                        new.append((s, b))
                        continue
                    c2 = Ctx(e, c.fr, c.inst, s, c.rt, None, c.key)
                    for s2, b2 in val_eq(c2, x.args[2][i], y.args[2][i], et):
                        new.append((s2, b2 if b is TRUE else FALSE if b2 is FALSE else (b if b2 is TRUE else mk("and", b, b2))))
                res = new
            return res
    return [(st, same(x, y))]


def seq_eq(e, st, x, y):
    if x is y:
        return TRUE
    nx, ny = e.seq_len(x), e.seq_len(y)
    if st.facts.test(eq0(sub(nx, ny))) is False:
        return FALSE
    r = strip_common(x, y)
    if r is not None:
        return r
    return same(x, y)


def strip_common(x, y):
    """Decides equality of two concatenations when their constant ends differ or their symbolic parts match."""
    a, b = list(x.args[0]), list(y.args[0])
    while a and b and a[0] is b[0]:
        a.pop(0)
        b.pop(0)
    while a and b and a[-1] is b[-1]:
        a.pop()
        b.pop()
    if not a and not b:
        return TRUE
    if a and b and a[0].tag == b[0].tag == "cst":
        n = min(len(a[0].args[0]), len(b[0].args[0]))
        if a[0].args[0][:n] != b[0].args[0][:n]:
            return FALSE
    if a and b and a[-1].tag == b[-1].tag == "cst":
        n = min(len(a[-1].args[0]), len(b[-1].args[0]))
        if a[-1].args[0][len(a[-1].args[0]) - n:] != b[-1].args[0][len(b[-1].args[0]) - n:]:
            return FALSE
    return None


@model("*|PartialEq::eq", "PartialEq.eq", "PartialEq.ne", "*|PartialEq::ne")
def m_eq(c, p, q):
    e = c.e
    x, y = deep(e, c.st, p), deep(e, c.st, q)
    t = c.argty(0)
    while t is not None and e.kind(t) in ("ref", "ptr"):
        t = e.ty(t)["to"]
    if t is not None and e.kind(t) == "param":
        t = None
    if t is not None and e.seq_elem(t) is not None and x.tag == "seq" and y.tag == "seq":
        out = [(c.st, seq_eq(e, c.st, x, y))]
    else:
        out = val_eq(c, x, y, t)
    if c.key.endswith("ne"):
        out = [(s, not_(b)) for s, b in out]
    return out


@model("Ord.max", "Ord.min", "cmp.min", "cmp.max", "*|Ord::max", "*|Ord::min")
def m_minmax(c, x, y):
    if not (is_int(x) and is_int(y)):
        return NotImplemented
    ge = c.e.decide(c.st, ge0(sub(x, y)))
    return c.one((x if ge else y) if "max" in c.key else (y if ge else x))


@model("*|Ord::cmp", "*|PartialOrd::partial_cmp", "PartialOrd.lt")
def m_cmp(c, p, q):
    e = c.e
    x, y = deep(e, c.st, p), deep(e, c.st, q)
    if is_int(x) and is_int(y) and c.key.endswith("cmp") and not c.key.endswith("partial_cmp"):
        d = sub(x, y)
        k = 1 if e.decide(c.st, eq0(d)) else (2 if e.decide(c.st, ge0(d)) else 0)
        return c.one(mk("agg", c.rt, k, ()))
    return c.one(e.fresh(mk("cmp", x, y), c.rt))


def cmp_ref(op):
    def f(c, p, q):
        e = c.e
        x, y = deep(e, c.st, p), deep(e, c.st, q)
        if is_int(x) and is_int(y):
            return c.one(e.compare(c.st, op, x, y, e.P.find_ty("usize")))
        return c.one(mk("bsym", mk("cmp", op, x, y)))
    return f


for _m, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    MODELS["*|PartialOrd::" + _m] = cmp_ref(_o)
    MODELS["PartialOrd." + _m] = cmp_ref(_o)


# ---------------------------------------------------------------- integers

def ikind(c, i=0):
    """(kind, bits) of the integer type the method belongs to."""
    t = c.key.split(".")[0].split("|")[0].lstrip("&")
    if t in INTS:
        n = 64 if t.endswith("size") else int(t[1:])
        return ("int" if t[0] == "i" else "uint"), n
    return None


@model("int.from_le_bytes", "int.from_be_bytes", "int.from_ne_bytes")
def m_from_le(c, a):
    k, n = ikind(c)
    return c.one(c.e.from_le(c.st, a, k, n, "be" in c.key))


@model("int.to_le_bytes", "int.to_be_bytes", "int.to_ne_bytes")
def m_to_le(c, v):
    k, n = ikind(c)
    return c.one(c.e.to_le(c.st, v, n, "be" in c.key))


@model("float.from_le_bytes", "float.from_be_bytes", "float.from_ne_bytes")
def m_ffrom_le(c, a):
    n = int(c.key[1:3])
    return c.one(mk("flt", c.e.from_le(c.st, a, "uint", n, "be" in c.key), n))


@model("float.to_le_bytes", "float.to_be_bytes", "float.to_ne_bytes")
def m_fto_le(c, v):
    n = int(c.key[1:3])
    if v.tag != "flt":
        return NotImplemented
    return c.one(c.e.to_le(c.st, v.args[0], n, "be" in c.key))


@model("float.to_bits")
def m_to_bits(c, v):
    return c.one(v.args[0]) if v.tag == "flt" else NotImplemented


@model("float.from_bits")
def m_from_bits(c, v):
    return c.one(mk("flt", v, int(c.key[1:3])))


def wrapping(op):
    def f(c, x, y):
        k, n = ikind(c)
        e = c.e
        return c.one(wrap(e.raw_op(c.st, op, val_of(x), val_of(y), k, n, None), k, n, c.st.facts.env))
    return f


def checked(op, mode):
    def f(c, x, y):
        k, n = ikind(c)
        e = c.e
        x, y = val_of(x), val_of(y)
        if op in ("Shl", "Shr"):
            inr = e.decide(c.st, ge0(y)) and e.decide(c.st, ge0(addc(scale(y, -1), n - 1)))
            if not inr:
                return c.one(e.none(c.rt)) if mode == "checked" else NotImplemented
            r = wrap(e.raw_op(c.st, op, x, y, k, n, None), k, n, c.st.facts.env)
            return c.one(e.some(c.rt, r)) if mode == "checked" else c.one(r)
        if op in ("Div", "Rem"):
            if e.decide(c.st, eq0(y)):
                return c.one(e.none(c.rt)) if mode == "checked" else NotImplemented
        r = e.raw_op(c.st, op, x, y, k, n, None)
        lo, hi = tm.ity(k, n)
        below = not e.decide(c.st, ge0(addc(r, -lo)))
        above = False if below else not e.decide(c.st, ge0(addc(scale(r, -1), hi)))
        if mode == "checked":
            return c.one(e.none(c.rt) if below or above else e.some(c.rt, r))
        if mode == "saturating":
            return c.one(num(lo) if below else num(hi) if above else r)
        if mode == "overflowing":
            return c.one(mk("agg", c.rt, 0, (wrap(r, k, n, c.st.facts.env), TRUE if below or above else FALSE)))
    return f


for _op in ("Add", "Sub", "Mul", "Shl", "Shr", "Div", "Rem"):
    MODELS["int.wrapping_" + _op.lower()] = wrapping(_op)
    MODELS["int.unchecked_" + _op.lower()] = wrapping(_op)
    for _m in ("checked", "saturating", "overflowing"):
        MODELS["int.%s_%s" % (_m, _op.lower())] = checked(_op, _m)


@model("int.wrapping_neg")
def m_wneg(c, x):
    k, n = ikind(c)
    return c.one(wrap(scale(x, -1), k, n, c.st.facts.env))


@model("int.pow")
def m_pow(c, x, y):
    a, b = cval(x), cval(y)
    if a is None or b is None:
        return NotImplemented
    return c.one(num(a ** b))


@model("int.min_value", "int.max_value")
def m_minval(c):
    lo, hi = tm.ity(*ikind(c))
    return c.one(num(lo if "min" in c.key else hi))


@model("int.is_positive", "int.is_negative")
def m_ispos(c, x):
    return c.one(ge0(addc(x, -1)) if "pos" in c.key else not_(ge0(x)))


@model("int.unsigned_abs", "int.abs", "int.wrapping_abs")
def m_abs(c, x):
    return c.one(x if c.e.decide(c.st, ge0(x)) else scale(x, -1))


def ref_op(op):
    def f(c, p, q):
        e = c.e
        x, y = val_of(deep(e, c.st, p)), val_of(deep(e, c.st, q))
        kn = ikind(c)
        if kn is None or not is_int(x) or not is_int(y):
            return NotImplemented
        k, n = kn
        if op in ("Shl", "Shr"):
            if not c.require(ge0(y), "overflow", "shift") or not c.require(ge0(addc(scale(y, -1), n - 1)), "overflow", "shift"):
                return []
            return c.one(wrap(e.raw_op(c.st, op, x, y, k, n, None), k, n, c.st.facts.env))
        if op in ("Add", "Sub", "Mul"):
            r = e.raw_op(c.st, op, x, y, k, n, None)
            lo, hi = tm.ity(k, n)
            if not c.require(ge0(addc(r, -lo)), "overflow", op) or not c.require(ge0(addc(scale(r, -1), hi)), "overflow", op):
                return []
            return c.one(r)
        if op in ("Div", "Rem"):
            if not c.require(not_(eq0(y)), "divzero", op):
                return []
        return c.one(wrap(e.raw_op(c.st, op, x, y, k, n, None), k, n, c.st.facts.env))
    return f


for _op in ("Shl", "Shr", "Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor"):
    MODELS["*|%s::%s" % (_op, _op.lower())] = ref_op(_op)
    MODELS["*|%s::%s" % (_op, {"BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor"}.get(_op, _op.lower()))] = ref_op(_op)


# ---------------------------------------------------------------- maps

def map_of(c, p):
    v = c.read(p)
    if v.tag in ("ptr", "box"):
        return map_of(c, v)
    return v


def key_val(e, st, k):
    """The key's value: references are looked through."""
    return deep(e, st, k)


def key_eq(e, st, a, b):
    if is_int(a) and is_int(b):
        return eq0(sub(a, b))
    if a.tag == "seq" and b.tag == "seq":
        return seq_eq(e, st, a, b)
    return same(a, b)


def map_has(e, st, m, k):
    """Is key k in the map?  Raises Fork when the answer depends on key equality."""
    for op in reversed(m.args[1]):
        if op.tag == "ins":
            if e.decide(st, key_eq(e, st, op.args[0], k)):
                return TRUE
        elif op.tag == "del":
            if e.decide(st, key_eq(e, st, op.args[0], k)):
                return FALSE
    if m.args[0].tag == "empty":
        return FALSE
    s = e.phimaps.get(m.args[0])
    if s is not None and s.samekeys and s.init is not None and s.init.tag == "map":
        return map_has(e, st, s.init, k)
    return mk("mhas", m.args[0], k)


def map_val(e, st, m, k, vt):
    for op in reversed(m.args[1]):
        if e.decide(st, key_eq(e, st, op.args[0], k)):
            return op.args[1]
    return e.fresh(mk("mval", m.args[0], k), vt)


def map_ref_value(c, p, k, vt):
    """A reference to the value of key k in the map behind p."""
    while p.tag == "ptr":
        v = c.e.read(c.st, p.args[0], p.args[1])
        if v.tag != "ptr":
            break
        p = v
    return mk("ptr", p.args[0], p.args[1] + (("k", k, vt),))


def map_kv(e, m, t=None):
    if m.args[0].tag == "mbase":
        return m.args[0].args[1], m.args[0].args[2]
    return None, None


def map_types_of(c, p):
    """Key and value types of the map behind a reference argument."""
    e = c.e
    t = c.argty(0)
    while t is not None and e.kind(t) in ("ref", "ptr"):
        t = e.ty(t)["to"]
    if t is not None and e.kind(t) == "adt" and e.adt_name(t) in e.MAP_ADTS:
        return e.ty(t)["args"][0], e.ty(t)["args"][1]
    return map_kv(e, map_of(c, p))


@model("BTreeMap.new", "HashMap.new", "HashMap.with_capacity")
def m_map_new(c, *a):
    return c.one(mk("map", mk("empty",), ()))


def map_get(c, p, k, panics=False, pair=False):
    e = c.e
    m = map_of(c, p)
    if m.tag != "map":
        return [(c.st, e.unk(c.rt, "map"))]
    kt, vt = map_types_of(c, p)
    k = key_val(e, c.st, k)
    has = map_has(e, c.st, m, k)
    if panics:
        if not c.require(has, "bounds", "map index"):
            return []
        return c.one(map_ref_value(c, p, k, vt))
    if not e.decide(c.st, has):
        return c.one(e.none(c.rt))
    return c.one(e.some(c.rt, map_ref_value(c, p, k, vt)))


@model("BTreeMap.get", "HashMap.get", "BTreeMap.get_mut", "HashMap.get_mut")
def m_map_get(c, p, k):
    return map_get(c, p, k)


@model("BTreeMap.contains_key", "HashMap.contains_key", "BTreeSet.contains", "HashSet.contains")
def m_map_contains(c, p, k):
    m = map_of(c, p)
    if m.tag != "map":
        return c.one(mk("bsym", mk("unk", c.e.uid(), "map")))
    return c.one(map_has(c.e, c.st, m, key_val(c.e, c.st, k)))


@model("BTreeMap.insert", "HashMap.insert")
def m_map_insert(c, p, k, v):
    e = c.e
    m = map_of(c, p)
    if m.tag != "map":
        return c.one(e.unk(c.rt, "map"))
    kt, vt = map_types_of(c, p)
    k = key_val(e, c.st, k)
    has = map_has(e, c.st, m, k)
    h = e.decide(c.st, has)
    old = map_val(e, c.st, m, k, vt) if h else None
    c.st.event("mapins", m, k, v, h)
    e.write(c.st, p.args[0], p.args[1], mk("map", m.args[0], m.args[1] + (mk("ins", k, v),)))
    return c.one(e.some(c.rt, old) if h else e.none(c.rt))


@model("BTreeMap.remove", "HashMap.remove")
def m_map_remove(c, p, k):
    e = c.e
    m = map_of(c, p)
    if m.tag != "map":
        return c.one(e.unk(c.rt, "map"))
    kt, vt = map_types_of(c, p)
    k = key_val(e, c.st, k)
    h = e.decide(c.st, map_has(e, c.st, m, k))
    if not h:
        return c.one(e.none(c.rt))
    old = map_val(e, c.st, m, k, vt)
    e.write(c.st, p.args[0], p.args[1], mk("map", m.args[0], m.args[1] + (mk("del", k),)))
    return c.one(e.some(c.rt, old))


@model("BTreeMap.entry", "HashMap.entry")
def m_map_entry(c, p, k):
    e = c.e
    m = map_of(c, p)
    if m.tag != "map":
        return c.one(e.unk(c.rt, "map entry"))
    kt, vt = map_types_of(c, p)
    kv = key_val(e, c.st, k)
    h = e.decide(c.st, map_has(e, c.st, m, kv))
    ent = mk("entry", p, kv, vt if vt is not None else -1)
    return c.one(enum_of(e, c.rt, "Occupied" if h else "Vacant", ent))


def ent_of(c, v):
    while v.tag == "ptr":
        v = c.e.read(c.st, v.args[0], v.args[1])
    return v if v.tag == "entry" else None


@model("VacantEntry.insert")
def m_vacant_insert(c, ent, v):
    e = c.e
    x = ent_of(c, ent)
    if x is None:
        return c.one(e.unk(c.rt, "entry"))
    p, k, vt = x.args
    m = map_of(c, p)
    c.st.event("mapins", m, k, v, False)
    e.write(c.st, p.args[0], p.args[1], mk("map", m.args[0], m.args[1] + (mk("ins", k, v),)))
    return c.one(map_ref_value(c, p, k, vt))


@model("OccupiedEntry.get", "OccupiedEntry.get_mut", "OccupiedEntry.into_mut")
def m_occ_get(c, ent):
    x = ent_of(c, ent)
    if x is None:
        return c.one(c.e.unk(c.rt, "entry"))
    p, k, vt = x.args
    return c.one(map_ref_value(c, p, k, vt))


@model("OccupiedEntry.insert")
def m_occ_insert(c, ent, v):
    e = c.e
    x = ent_of(c, ent)
    if x is None:
        return c.one(e.unk(c.rt, "entry"))
    p, k, vt = x.args
    m = map_of(c, p)
    old = map_val(e, c.st, m, k, vt)
    c.st.event("mapins", m, k, v, True)
    e.write(c.st, p.args[0], p.args[1], mk("map", m.args[0], m.args[1] + (mk("ins", k, v),)))
    return c.one(old)


@model("VacantEntry.key", "OccupiedEntry.key", "Entry.key")
def m_ent_key(c, ent):
    x = ent_of(c, ent)
    return c.one(mk("ptr", ("K", x.args[1]), ())) if x is not None else c.one(c.e.unk(c.rt, "entry"))


@model("Entry.or_insert", "Entry.or_insert_with", "Entry.or_default")
def m_or_insert(c, ent, *v):
    e = c.e
    if not is_enum(ent) or ent.tag != "agg":
        return NotImplemented
    x = ent_of(c, ent.args[2][0])
    if x is None:
        return NotImplemented
    p, k, vt = x.args
    name = e.P.variant_name(ent.args[0], ent.args[1])
    if name == "Occupied":
        return c.one(map_ref_value(c, p, k, vt))
    if c.key == "Entry.or_insert_with":
        outs = call(c, c.st, v[0])
    elif v:
        outs = [(c.st, v[0])]
    else:
        outs = [(c.st, default(c, vt))]
    res = []
    for s, nv in outs:
        m = deref(e, s, p)
        s.event("mapins", m, k, nv, False)
        e.write(s, p.args[0], p.args[1], mk("map", m.args[0], m.args[1] + (mk("ins", k, nv),)))
        res.append((s, mk("ptr", p.args[0], p.args[1] + (("k", k, vt),))))
    return res


# ---------------------------------------------------------------- iterators

def new_root(e, st, v):
    r = ("H", e.uid())
    st.mem[r] = v
    return r


@model("[T].iter", "[T].iter_mut", "Vec.iter", "[T; N].iter", "Vec.iter_mut")
def m_iter(c, p):
    e = c.e
    root, path, start, n = slc(e, c.st, p)
    return c.one(mk("it", "slice", "mut" if "mut" in c.key else "ref", (root, path), start, add(start, n), elem_ty(c, root, path)))


@model("BTreeMap.iter", "BTreeMap.values", "BTreeMap.keys", "HashMap.iter", "HashMap.values", "HashMap.keys", "BTreeMap.iter_mut",
       "HashMap.iter_mut", "BTreeMap.values_mut", "HashMap.values_mut", "BTreeMap.into_values", "BTreeMap.into_keys")
def m_map_iter(c, p):
    return map_iter(c, p, c.key.split(".")[1])


@model("BTreeMap.range", "BTreeMap.range_mut")
def m_map_range(c, p, r):
    m = map_of(c, p)
    return NotImplemented if m.tag != "map" else c.one(mk("it", "maprange", c.key.split(".")[1], m, r))


def map_iter(c, p, what):
    e = c.e
    m = map_of(c, p)
    if m.tag != "map":
        return NotImplemented
    kt, vt = map_types_of(c, p)
    if kt is None:
        return NotImplemented
    r = mk("mapkeys", m)
    n = I(mk("rng", mk("maplen", m), 0, tm.ISIZE_MAX))
    pp = p
    while pp.tag == "ptr":
        v = e.read(c.st, pp.args[0], pp.args[1])
        if v.tag != "ptr":
            break
        pp = v
    place = (pp.args[0], pp.args[1]) if pp.tag == "ptr" else (new_root(e, c.st, m), ())
    return c.one(mk("it", "map", what, place, m, ZERO, n, kt, vt))


def to_iter(c, v, t=None):
    """An iterator value for an IntoIterator argument, or None."""
    e = c.e
    if v.tag == "it":
        return v
    if v.tag == "seq":
        et = None
        if t is not None:
            et = e.seq_elem(t)
        if et is None:
            for p in v.args[0]:
                if p.tag == "win":
                    et = p.args[0].args[1]
        r = new_root(e, c.st, v)
        return mk("it", "slice", "own", (r, ()), ZERO, e.seq_len(v), et if et is not None else e.u8)
    if v.tag in ("ptr", "sptr"):
        x = deref(e, c.st, v)
        if x.tag == "it":
            return mk("it", "byref", v)
        if x.tag == "map":
            r = map_iter(c, v, "iter")
            return None if r is NotImplemented else r[0][1]
        if x.tag == "seq":
            root, path, start, n = slc(e, c.st, v)
            mode = "ref"
            if t is not None and e.kind(t) == "ref" and e.ty(t)["mut"]:
                mode = "mut"
            return mk("it", "slice", mode, (root, path), start, add(start, n), elem_ty(c, root, path))
        if x.tag == "agg" or x.tag == "sym":
            return mk("it", "byref", v)
    if v.tag == "map":
        r = new_root(e, c.st, v)
        p = mk("ptr", r, ())
        if t is not None and e.kind(t) == "adt":
            kt, vt = e.ty(t)["args"][0], e.ty(t)["args"][1]
            return mk("it", "map", "into_iter", (r, ()), v, ZERO, I(mk("rng", mk("maplen", v), 0, tm.ISIZE_MAX)), kt, vt)
    if v.tag in ("agg", "sym"):
        tt = e.val_ty(v)
        if tt is not None and e.kind(tt) == "adt":
            nm = e.adt_name(tt).split("::")[-1]
            if nm in ("Range", "RangeInclusive", "RangeFrom"):
                return mk("it", "range", nm, v, False)
            if nm == "Option":
                return mk("it", "option", v, e.ty(tt)["args"][0])
    return None


@model("*|IntoIterator::into_iter", "IntoIterator.into_iter", "Iterator.by_ref", "Option.iter", "Option.into_iter")
def m_into_iter(c, v):
    if c.key == "Iterator.by_ref":
        return c.one(v)
    r = to_iter(c, v, c.argty(0))
    return c.one(r) if r is not None else NotImplemented


def adapter(kind):
    def f(c, v, *fs):
        e = c.e
        it = to_iter(c, v, c.argty(0))
        if it is None:
            return NotImplemented
        extra = []
        for x in fs:
            if x.tag == "agg" and x.args[0] >= 0 and e.kind(x.args[0]) == "closure":
                extra.append(mk("ptr", new_root(e, c.st, x), ()))
            else:
                extra.append(x)
        return c.one(mk("it", kind, it, *extra))
    return f


for _m, _k in (("map", "fmap"), ("filter", "filter"), ("filter_map", "filter_map"), ("take_while", "take_while"),
               ("map_while", "map_while"), ("inspect", "inspect"), ("rev", "rev"), ("cloned", "cloned"), ("copied", "cloned"),
               ("fuse", "fuse"), ("skip_while", "skip_while")):
    MODELS["Iterator." + _m] = adapter(_k)
    MODELS["*|Iterator::" + _m] = adapter(_k)


@model("Iterator.enumerate")
def m_enumerate(c, v):
    it = to_iter(c, v, c.argty(0))
    return NotImplemented if it is None else c.one(mk("it", "enum", it, ZERO))


@model("Iterator.take", "Iterator.skip")
def m_it_take(c, v, n):
    it = to_iter(c, v, c.argty(0))
    if it is None:
        return NotImplemented
    if c.key.endswith("skip"):
        if it.args[0] == "slice":
            _, mode, place, i, end, et = it.args
            if c.e.decide(c.st, ge0(sub(sub(end, i), n))):
                return c.one(mk("it", "slice", mode, place, add(i, n), end, et))
            return c.one(mk("it", "slice", mode, place, end, end, et))
        return c.one(mk("it", "skip", it, n))
    return c.one(mk("it", "take", it, n))


@model("Iterator.flat_map")
def m_flat_map(c, v, f):
    it = to_iter(c, v, c.argty(0))
    if it is None:
        return NotImplemented
    if f.tag == "agg":
        f = mk("ptr", new_root(c.e, c.st, f), ())
    return c.one(mk("it", "flat", it, f, mk("nothing",)))


@model("Iterator.flatten")
def m_flatten(c, v):
    it = to_iter(c, v, c.argty(0))
    return NotImplemented if it is None else c.one(mk("it", "flat", it, mk("nothing",), mk("nothing",)))


@model("Iterator.chain", "Iterator.zip")
def m_chain(c, v, w):
    a = to_iter(c, v, c.argty(0))
    b = to_iter(c, w, c.argty(1))
    if a is None or b is None:
        return NotImplemented
    return c.one(mk("it", "chain" if c.key.endswith("chain") else "zip", a, b))


@model("Iterator.peekable")
def m_peekable(c, v):
    it = to_iter(c, v, c.argty(0))
    return NotImplemented if it is None else c.one(mk("it", "peek", it, mk("nothing",)))


@model("iter.once", "sources.once")
def m_once(c, v):
    return c.one(mk("it", "once", v, FALSE))


@model("iter.empty")
def m_iter_empty(c):
    return c.one(mk("it", "once", mk("nothing",), TRUE))


@model("[T].chunks_exact", "[T].chunks")
def m_chunks(c, p, n):
    e = c.e
    root, path, start, ln = slc(e, c.st, p)
    if not c.require(not_(eq0(n)), "panic", "chunks(0)"):
        return []
    return c.one(mk("it", "chunks", (root, path), start, add(start, ln), n, mk("b", c.key.endswith("exact"))))


@model("[T].windows")
def m_windows(c, p, n):
    return NotImplemented


def pull(c, st, it, bulk=False):
    """One step of an iterator: [(state, iterator, event)].

    Events: ("item", v), ("skip",), ("end",), ("seq", s) for a whole run of items when bulk is set.
    """
    return forked(c.e, st, lambda s: pull1(Ctx(c.e, c.fr, c.inst, s, c.rt, None, c.key), s, it, bulk))


def pull1(c, st, it, bulk):
    e = c.e
    k = it.args[0]
    a = it.args
    if k == "slice":
        _, mode, (root, path), i, end, et = a
        if not e.decide(st, ge0(addc(sub(end, i), -1))):
            return [(st, it, ("end",))]
        if mode == "own":
            v = e.elem_at(st, e.read(st, root, path), i, et)
        else:
            v = mk("ptr", root, path + (("i", i, et),))
        return [(st, mk("it", k, mode, (root, path), addc(i, 1), end, et), ("item", v))]
    if k == "map":
        _, what, (root, path), m, i, n, kt, vt = a
        if not e.decide(st, ge0(addc(sub(n, i), -1))):
            return [(st, it, ("end",))]
        nit = mk("it", k, what, (root, path), m, addc(i, 1), n, kt, vt)
        kv = e.fresh(mk("mapkey", m, i), kt)
        keypath = mk("ptr", ("K", kv), ()) if kv.tag != "seq" else mk("ptr", ("K", kv), ())
        s2 = st
        h = map_has_static(m, kv)
        if h is not None:
            f = st.facts.assume(h)
            if f is not None:
                f = f.copy()
                f.log = st.facts.log
                s2 = State(st.mem, f, st.ev)
        vp = mk("ptr", root, path + (("k", kv, vt),))
        if what in ("iter", "iter_mut"):
            v = mk("agg", e.tuple_ty(), 0, (keypath, vp))
        elif what.startswith("into_iter"):
            v = mk("agg", e.tuple_ty(), 0, (kv, e.read(s2, root, path + (("k", kv, vt),))))
        elif what in ("keys",):
            v = keypath
        elif what in ("values", "values_mut"):
            v = vp
        elif what == "into_keys":
            v = kv
        else:
            v = e.read(s2, root, path + (("k", kv, vt),))
        return [(s2, nit, ("item", v))]
    if k == "range":
        _, nm, r, done = a
        if r.tag == "sym":
            r = e.expand(st, r)
        lo, hi = val_of(r.args[2][0]), (val_of(r.args[2][1]) if len(r.args[2]) > 1 else None)
        if nm == "Range":
            if not e.decide(st, ge0(addc(sub(hi, lo), -1))):
                return [(st, it, ("end",))]
            return [(st, mk("it", k, nm, mk("agg", r.args[0], 0, (addc(lo, 1), hi)), False), ("item", lo))]
        if nm == "RangeFrom":
            return [(st, mk("it", k, nm, mk("agg", r.args[0], 0, (addc(lo, 1),)), False), ("item", lo))]
        if not e.decide(st, ge0(sub(hi, lo))):
            return [(st, it, ("end",))]
        return [(st, mk("it", k, nm, mk("agg", r.args[0], 0, (addc(lo, 1),) + r.args[2][1:]), False), ("item", lo))]
    if k == "option":
        v = a[1]
        var = e.need_variant(st, v)
        if var == 0:
            return [(st, it, ("end",))]
        t = e.val_ty(v)
        return [(st, mk("it", k, e.none(t), a[2]), ("item", e.payload(st, v, 1)))]
    if k == "once":
        if a[2] is TRUE:
            return [(st, it, ("end",))]
        return [(st, mk("it", k, a[1], TRUE), ("item", a[1]))]
    if k == "byref":
        p = a[1]
        inner = deref(e, st, p)
        if inner.tag != "it":
            x = to_iter(c, inner)
            if x is None:
                raise Unsupported("iterator " + inner.tag)
            inner = x
        out = []
        for s, n, ev in pull(c, st, inner, bulk):
            v = n
            if n.args[0] == "range":
                v = n.args[2]
            e.write(s, p.args[0], p.args[1], v)
            out.append((s, it, ev))
        return out
    if k == "enum":
        out = []
        for s, n, ev in pull(c, st, a[1]):
            if ev[0] == "item":
                out.append((s, mk("it", k, n, addc(a[2], 1)), ("item", mk("agg", e.tuple_ty(), 0, (a[2], ev[1])))))
            else:
                out.append((s, mk("it", k, n, a[2]), ev))
        return out
    if k == "fmap":
        out = []
        for s, n, ev in pull(c, st, a[1]):
            n = mk("it", k, n, a[2])
            if ev[0] == "item":
                out += [(s2, n, ("item", v)) for s2, v in e.call_fn(c.fr, s, a[2], [ev[1]])]
            else:
                out.append((s, n, ev))
        return out
    if k in ("filter", "take_while", "inspect", "skip_while"):
        out = []
        for s, n, ev in pull(c, st, a[1]):
            n = mk("it", k, n, a[2])
            if ev[0] != "item":
                out.append((s, n, ev))
                continue
            r = new_root(e, s, ev[1])
            for s2, b in e.call_fn(c.fr, s, a[2], [mk("ptr", r, ())]):
                if k == "inspect":
                    out.append((s2, n, ev))
                    continue
                for s3, t in forked(e, s2, lambda q: [(q, e.decide(q, b))]):
                    if k == "filter":
                        out.append((s3, n, ev if t else ("skip",)))
                    elif k == "take_while":
                        out.append((s3, n if t else mk("it", "once", mk("nothing",), TRUE), ev if t else ("end",)))
                    else:
                        out.append((s3, n if t else n.args[1], ("skip",) if t else ev))
        return out
    if k in ("filter_map", "map_while"):
        out = []
        for s, n, ev in pull(c, st, a[1]):
            n = mk("it", k, n, a[2])
            if ev[0] != "item":
                out.append((s, n, ev))
                continue
            for s2, o in e.call_fn(c.fr, s, a[2], [ev[1]]):
                if not is_enum(o):
                    raise Unsupported("filter_map result")
                for s3, var in variants(e, s2, o):
                    if var == 1:
                        out.append((s3, n, ("item", e.payload(s3, o, 1))))
                    else:
                        out.append((s3, n, ("skip",) if k == "filter_map" else ("end",)))
        return out
    if k == "flat":
        _, inner, f, cur = a
        if cur.tag == "it":
            out = []
            for s, n, ev in pull(c, st, cur, bulk):
                if ev[0] == "end":
                    out.append((s, mk("it", k, inner, f, mk("nothing",)), ("skip",)))
                else:
                    out.append((s, mk("it", k, inner, f, n), ev))
            return out
        if cur.tag != "nothing":
            raise Unsupported("flat_map in an unknown position")
        out = []
        for s, n, ev in pull(c, st, inner):
            if ev[0] != "item":
                out.append((s, mk("it", k, n, f, cur), ev))
                continue
            rs = e.call_fn(c.fr, s, f, [ev[1]]) if f.tag != "nothing" else [(s, ev[1])]
            for s2, v in rs:
                if bulk and v.tag == "seq":
                    out.append((s2, mk("it", k, n, f, cur), ("seq", v)))
                    continue
                x = to_iter(Ctx(e, c.fr, c.inst, s2, c.rt, None, c.key), v)
                if x is None:
                    raise Unsupported("flat_map item " + v.tag)
                out.append((s2, mk("it", k, n, f, x), ("skip",)))
        return out
    if k == "take":
        if not e.decide(st, ge0(addc(a[2], -1))):
            return [(st, it, ("end",))]
        return [(s, mk("it", k, n, addc(a[2], -1) if ev[0] == "item" else a[2]), ev) for s, n, ev in pull(c, st, a[1])]
    if k == "skip":
        if not e.decide(st, ge0(addc(a[2], -1))):
            return [(s, mk("it", k, n, a[2]), ev) for s, n, ev in pull(c, st, a[1])]
        out = []
        for s, n, ev in pull(c, st, a[1]):
            if ev[0] == "item":
                out.append((s, mk("it", k, n, addc(a[2], -1)), ("skip",)))
            else:
                out.append((s, mk("it", k, n, a[2]), ev))
        return out
    if k == "chain":
        out = []
        for s, n, ev in pull(c, st, a[1], bulk):
            if ev[0] == "end":
                out.append((s, a[2], ("skip",)))
            else:
                out.append((s, mk("it", k, n, a[2]), ev))
        return out
    if k == "zip":
        out = []
        for s, n, ev in pull(c, st, a[1]):
            if ev[0] != "item":
                out.append((s, mk("it", k, n, a[2]), ev))
                continue
            for s2, n2, ev2 in pull(c, s, a[2]):
                if ev2[0] == "item":
                    out.append((s2, mk("it", k, n, n2), ("item", mk("agg", e.tuple_ty(), 0, (ev[1], ev2[1])))))
                elif ev2[0] == "end":
                    out.append((s2, mk("it", k, n, n2), ev2))
                else:
                    raise Unsupported("zip")
        return out
    if k == "cloned":
        return [(s, mk("it", k, n), ("item", deref(e, s, ev[1])) if ev[0] == "item" else ev) for s, n, ev in pull(c, st, a[1])]
    if k == "fuse":
        return [(s, mk("it", k, n), ev) for s, n, ev in pull(c, st, a[1], bulk)]
    if k == "rev":
        inner = a[1]
        extra = None
        if inner.args[0] == "enum":
            extra = inner.args[2]
            inner = inner.args[1]
        if inner.args[0] == "slice":
            _, mode, (root, path), i, end, et = inner.args
            if not e.decide(st, ge0(addc(sub(end, i), -1))):
                return [(st, it, ("end",))]
            j = addc(end, -1)
            v = e.elem_at(st, e.read(st, root, path), j, et) if mode == "own" else mk("ptr", root, path + (("i", j, et),))
            n = mk("it", "slice", mode, (root, path), i, j, et)
            if extra is not None:
                v = mk("agg", e.tuple_ty(), 0, (add(extra, sub(j, i)), v))
                n = mk("it", "enum", n, extra)
            return [(st, mk("it", k, n), ("item", v))]
        if inner.args[0] == "range" and inner.args[1] == "Range":
            r = inner.args[2]
            if r.tag == "sym":
                r = e.expand(st, r)
            lo, hi = val_of(r.args[2][0]), val_of(r.args[2][1])
            if not e.decide(st, ge0(addc(sub(hi, lo), -1))):
                return [(st, it, ("end",))]
            j = addc(hi, -1)
            return [(st, mk("it", k, mk("it", "range", "Range", mk("agg", r.args[0], 0, (lo, j)), False)), ("item", j))]
        raise Unsupported("rev of " + inner.args[0])
    if k == "chunks":
        _, (root, path), i, end, n, exact = a
        left = sub(end, i)
        if e.decide(st, ge0(sub(left, n))):
            return [(st, mk("it", k, (root, path), add(i, n), end, n, exact), ("item", mk("sptr", root, path, i, n)))]
        if exact is TRUE or not e.decide(st, ge0(addc(left, -1))):
            return [(st, it, ("end",))]
        return [(st, mk("it", k, (root, path), end, end, n, exact), ("item", mk("sptr", root, path, i, left)))]
    if k == "peek":
        if a[2].tag != "nothing":
            v = a[2]
            if v.args[0] == "none":
                return [(st, it, ("end",))]
            return [(st, mk("it", k, a[1], mk("nothing",)), ("item", v.args[1]))]
        return [(s, mk("it", k, n, a[2]), ev) for s, n, ev in pull(c, st, a[1])]
    raise Unsupported("iterator " + k)


class Unsupported(Exception):
    pass


def map_has_static(m, k):
    return mk("mhas", m.args[0], k) if m.args[0].tag == "mbase" else None


def syn_loop(c, kind, st, step):
    """A loop the library runs: step(state) -> (backs, exits)."""
    e = c.e
    fn, site = e.where(c.fr)
    info = LoopInfo(e.uid(), fn, site, c.fr.stack + ((c.fr.inst, c.fr.blk),))
    info.key = ("syn", kind, c.fr.inst, c.fr.blk, c.inst)
    info.kind = kind
    return e.s.solve_loop(e, info, step, st)


def drive(c, st, it, item, end, seq=None, kind="drain"):
    """Runs an iterator to its end.  item(state, value) -> [("back"|"exit tag", state, payload)].

    Returns [(state, payload)]: those of end(state) and of the exits.
    """
    e = c.e
    st = st.fork()
    r = new_root(e, st, it)

    def step(s):
        backs, exits = [], []
        for s2, n, ev in pull(c, s, s.mem[r], seq is not None):
            s2.mem[r] = n
            if ev[0] == "skip":
                backs.append(s2)
            elif ev[0] == "end":
                exits.append((mk("done",), s2))
            else:
                fn = item if ev[0] == "item" else seq
                for s3, tag in fn(s2, ev[1]):
                    if tag is None:
                        backs.append(s3)
                    else:
                        exits.append((tag, s3))
        return backs, exits
    out = []
    for tag, s in syn_loop(c, kind, st, step):
        s.mem.pop(r, None)
        if tag.tag == "done":
            out += end(s)
        else:
            out.append((s, tag.args[0]))
    return out


def guard(f):
    def g(c, *a):
        try:
            return f(c, *a)
        except Unsupported as u:
            c.e.havocs["unsupported " + str(u)] += 1
            return NotImplemented
    return g


def next_(c, st, it):
    """Pulls until an item or the end: [(state, iterator, value or None)]."""
    e = c.e
    first = pull(c, st, it)
    if not any(ev[0] == "skip" for _, _, ev in first):
        return [(s, n, ev[1] if ev[0] == "item" else None) for s, n, ev in first]
    st = st.fork()
    r = new_root(e, st, it)

    def step(s):
        backs, exits = [], []
        for s2, n, ev in pull(c, s, s.mem[r]):
            s2.mem[r] = n
            if ev[0] == "skip":
                backs.append(s2)
            elif ev[0] == "end":
                exits.append((mk("done",), s2))
            else:
                exits.append((mk("got", ev[1]), s2))
        return backs, exits
    out = []
    for tag, s in syn_loop(c, "next", st, step):
        n = s.mem.pop(r)
        out.append((s, n, tag.args[0] if tag.tag == "got" else None))
    return out


@model("*|Iterator::next", "Iterator.next", "*|DoubleEndedIterator::next_back")
@guard
def m_next(c, p):
    e = c.e
    if p.tag != "ptr":
        return NotImplemented
    v = c.read(p)
    it = v
    rev = c.key.endswith("next_back")
    if v.tag != "it":
        it = to_iter(c, v)
        if it is None or it.args[0] != "range":
            return NotImplemented
    if rev:
        it = mk("it", "rev", it)
    out = []
    for s, n, x in next_(c, c.st, it):
        if rev and n.args[0] == "rev":
            n = n.args[1]
        if v.tag != "it":
            n = n.args[2] if n.args[0] == "range" else n.args[1]
        e.write(s, p.args[0], p.args[1], n)
        out.append((s, e.none(c.rt) if x is None else e.some(c.rt, x)))
    return out


@model("Peekable.peek")
@guard
def m_peek(c, p):
    e = c.e
    it = c.read(p)
    if it.tag != "it" or it.args[0] != "peek":
        return NotImplemented
    if it.args[2].tag != "nothing":
        outs = [(c.st, it.args[1], it.args[2].args[1] if it.args[2].args[0] != "none" else None)]
    else:
        outs = next_(c, c.st, it.args[1])
    res = []
    for s, n, x in outs:
        pk = mk("peeked", "none") if x is None else mk("peeked", "some", x)
        e.write(s, p.args[0], p.args[1], mk("it", "peek", n, pk))
        res.append((s, e.none(c.rt) if x is None else e.some(c.rt, mk("ptr", new_root(e, s, x), ()))))
    return res


@model("Iterator.collect", "Iterator.try_collect", "*|FromIterator::from_iter", "FromIterator.from_iter")
@guard
def m_collect(c, v):
    e = c.e
    it = to_iter(c, v, c.argty(0))
    if it is None:
        return NotImplemented
    t = c.rt
    ty = e.ty(t)
    wrapk = None
    if ty["k"] == "adt" and ty["adt"] in ("std::result::Result", "std::option::Option"):
        wrapk = ty["adt"].split("::")[-1]
        inner = ty["args"][0]
    else:
        inner = t
    it_ty = e.ty(inner)
    se = e.seq_elem(inner)
    ismap = it_ty["k"] == "adt" and it_ty["adt"] in e.MAP_ADTS
    if se is None and not ismap:
        return NotImplemented
    acc = ("H", e.uid(), inner)
    c.st.mem[acc] = mk("map", mk("empty",), ()) if ismap else e.mkseq([])
    strings = it_ty["k"] == "adt" and it_ty["adt"] == "std::string::String"
    isbytes = e.ty(se)["s"] == "u8" if se is not None else False

    def put(s, x):
        if ismap:
            m = s.mem[acc]
            if x.tag != "agg":
                raise Unsupported("collect of " + x.tag)
            kk, vv = x.args[2]
            s.event("mapins", m, kk, vv, None)
            s.mem[acc] = mk("map", m.args[0], m.args[1] + (mk("ins", kk, vv),))
            return
        if strings:
            y = deep(e, s, x)
            if y.tag != "seq":
                raise Unsupported("collect into a string")
            s.mem[acc] = e.mkseq(list(s.mem[acc].args[0]) + list(y.args[0]))
            return
        if isbytes:
            x = deep(e, s, x)
            if is_int(x) and cval(x) is not None:
                s.mem[acc] = e.mkseq(list(s.mem[acc].args[0]) + [mk("cst", bytes([cval(x)]))])
                return
        s.mem[acc] = e.mkseq(list(s.mem[acc].args[0]) + [mk("lit", (val_of(x),))])

    def item(s, x):
        if wrapk is None:
            put(s, x)
            return [(s, None)]
        out = []
        if not is_enum(x):
            raise Unsupported("collect of " + x.tag)
        good = 0 if wrapk == "Result" else 1
        for s2, var in variants(e, s, x):
            if var == good:
                put(s2, e.payload(s2, x, good))
                out.append((s2, None))
            elif wrapk == "Result":
                out.append((s2, mk("out", mk("agg", t, 1, (e.payload(s2, x, 1),)))))
            else:
                out.append((s2, mk("out", e.none(t))))
        return out

    def seq(s, x):
        s.mem[acc] = e.mkseq(list(s.mem[acc].args[0]) + list(x.args[0]))
        return [(s, None)]

    def end(s):
        v = s.mem.pop(acc)
        if wrapk == "Result":
            v = mk("agg", t, 0, (v,))
        elif wrapk == "Option":
            v = e.some(t, v)
        return [(s, v)]
    outs = drive(c, c.st, it, item, end, seq if (wrapk is None and not ismap and (isbytes or True)) else None, "collect")
    for s, _ in outs:
        s.mem.pop(acc, None)
    return outs


@model("*|Extend::extend", "Extend.extend", "Vec.extend")
@guard
def m_extend(c, p, v):
    e = c.e
    it = to_iter(c, v, c.argty(1))
    if it is None:
        return NotImplemented
    cur = c.read(p)

    def put(s, x):
        old = e.read(s, p.args[0], p.args[1])
        if old.tag == "map":
            kk, vv = x.args[2]
            s.event("mapins", old, kk, vv, None)
            new = mk("map", old.args[0], old.args[1] + (mk("ins", kk, vv),))
        elif old.tag == "seq":
            x = val_of(x)
            if x.tag in ("ptr", "sptr") and e.ty(elem_of(c, p))["k"] != "ref":
                x = deep(e, s, x)
            part = mk("lit", (x,))
            if is_int(x) and cval(x) is not None and e.ty(elem_of(c, p))["s"] == "u8":
                part = mk("cst", bytes([cval(x)]))
            new = e.mkseq(list(old.args[0]) + ([part] if x.tag != "seq" or e.seq_elem(elem_of(c, p)) is not None else list(x.args[0])))
        else:
            raise Unsupported("extend of " + old.tag)
        e.write(s, p.args[0], p.args[1], new)
        return [(s, None)]

    def seq(s, x):
        old = e.read(s, p.args[0], p.args[1])
        e.write(s, p.args[0], p.args[1], e.mkseq(list(old.args[0]) + list(x.args[0])))
        return [(s, None)]
    if cur.tag == "seq" and it.args[0] == "slice" and it.args[1] in ("own", "ref") and \
            (it.args[1] == "own" or e.ty(elem_of(c, p))["s"] == "u8"):
        _, mode, (root, path), i, end, et = it.args
        x = e.sub_seq(c.st, e.read(c.st, root, path), i, sub(end, i))
        e.write(c.st, p.args[0], p.args[1], e.mkseq(list(cur.args[0]) + list(x.args[0])))
        return c.one(e.unit())
    return drive(c, c.st, it, put, lambda s: [(s, e.unit())], seq if cur.tag == "seq" else None, "extend")


@model("Iterator.for_each")
@guard
def m_for_each(c, v, f):
    e = c.e
    it = to_iter(c, v, c.argty(0))
    if it is None:
        return NotImplemented
    fp = mk("ptr", new_root(e, c.st, f), ()) if f.tag == "agg" else f
    return drive(c, c.st, it, lambda s, x: [(s2, None) for s2, _ in call(c, s, fp, x)], lambda s: [(s, e.unit())], None, "for_each")


@model("Iterator.try_for_each")
@guard
def m_try_for_each(c, v, f):
    e = c.e
    it = to_iter(c, v, c.argty(0))
    if it is None or e.adt_name(c.rt) not in ("std::result::Result", "std::option::Option"):
        return NotImplemented
    res = e.adt_name(c.rt) == "std::result::Result"
    fp = mk("ptr", new_root(e, c.st, f), ()) if f.tag == "agg" else f

    def item(s, x):
        out = []
        for s2, r in call(c, s, fp, x):
            for s3, var in variants(e, s2, r):
                if (var == 0) == res:
                    out.append((s3, None))
                else:
                    out.append((s3, mk("out", r)))
        return out
    return drive(c, c.st, it, item, lambda s: [(s, mk("agg", c.rt, 0 if res else 1, (e.unit(),)))], None, "try_for_each")


@model("Iterator.fold", "*|Iterator::fold")
@guard
def m_fold(c, v, init, f):
    e = c.e
    it = to_iter(c, v, c.argty(0))
    if it is None:
        return NotImplemented
    fp = mk("ptr", new_root(e, c.st, f), ()) if f.tag == "agg" else f
    acc = ("H", e.uid(), c.rt)
    c.st.mem[acc] = init

    def item(s, x):
        out = []
        for s2, r in call(c, s, fp, s.mem[acc], x):
            s2.mem[acc] = r
            out.append((s2, None))
        return out
    return drive(c, c.st, it, item, lambda s: [(s, s.mem.pop(acc))], None, "fold")


@model("Iterator.find", "*|Iterator::find", "Iterator.find_map", "Iterator.position", "Iterator.any", "Iterator.all", "*|Iterator::any",
       "*|Iterator::all", "*|Iterator::position", "*|Iterator::find_map")
@guard
def m_find(c, v, f):
    e = c.e
    what = re.split(r"[.:]", c.key)[-1]
    if v.tag == "ptr":
        x = c.read(v)
        it = mk("it", "byref", v) if x.tag in ("it", "agg", "sym") else to_iter(c, v, c.argty(0))
    else:
        it = to_iter(c, v, c.argty(0))
    if it is None:
        return NotImplemented
    fp = mk("ptr", new_root(e, c.st, f), ()) if f.tag == "agg" else f
    if what == "position":
        it = mk("it", "enum", it, ZERO)

    def item(s, x):
        out = []
        idx = None
        if what == "position":
            idx, x = x.args[2]
        arg = mk("ptr", new_root(e, s, x), ()) if what == "find" else x
        for s2, b in call(c, s, fp, arg):
            if what == "find_map":
                for s3, var in variants(e, s2, b):
                    out.append((s3, None if var == 0 else mk("out", b)))
                continue
            for s3, t in forked(e, s2, lambda q: [(q, e.decide(q, b))]):
                if what == "find":
                    out.append((s3, mk("out", e.some(c.rt, x)) if t else None))
                elif what == "position":
                    out.append((s3, mk("out", e.some(c.rt, idx)) if t else None))
                elif what == "any":
                    out.append((s3, mk("out", TRUE) if t else None))
                else:
                    out.append((s3, None if t else mk("out", FALSE)))
        return out
    dflt = {"any": FALSE, "all": TRUE}.get(what)
    if dflt is None:
        dflt = e.none(c.rt)
    return drive(c, c.st, it, item, lambda s: [(s, dflt)], None, what)


@model("Iterator.count", "*|Iterator::count", "Iterator.sum", "*|Iterator::sum", "Iterator.last", "*|Iterator::last")
@guard
def m_count(c, v):
    e = c.e
    what = re.split(r"[.:]", c.key)[-1]
    it = to_iter(c, v, c.argty(0))
    if it is None:
        return NotImplemented
    acc = ("H", e.uid(), c.rt)
    c.st.mem[acc] = e.none(c.rt) if what == "last" else ZERO

    def item(s, x):
        x = deep(e, s, x) if what == "sum" else x
        s.mem[acc] = e.some(c.rt, x) if what == "last" else add(s.mem[acc], ONE if what == "count" else x)
        return [(s, None)]
    return drive(c, c.st, it, item, lambda s: [(s, s.mem.pop(acc))], None, what)


@model("Iterator.nth", "*|Iterator::nth")
@guard
def m_nth(c, p, n):
    k = cval(n)
    if k is None or k > 8 or p.tag != "ptr":
        return NotImplemented
    e = c.e
    v = c.read(p)
    if v.tag != "it":
        return NotImplemented
    states = [(c.st, v, e.unit())]
    for _ in range(k + 1):
        new = []
        for s, it, x in states:
            if x is None:
                new.append((s, it, x))
            else:
                new += next_(c, s, it)
        states = new
    out = []
    for s, it, x in states:
        e.write(s, p.args[0], p.args[1], it)
        out.append((s, e.none(c.rt) if x is None else e.some(c.rt, x)))
    return out


@model("Iterator.size_hint", "ExactSizeIterator.len", "*|ExactSizeIterator::len")
def m_it_len(c, p):
    e = c.e
    it = c.read(p)
    if it.tag == "it" and it.args[0] == "slice" and c.key.endswith("len"):
        return c.one(sub(it.args[4], it.args[3]))
    return c.one(e.unk(c.rt, "size_hint"))


# ---------------------------------------------------------------- misc effects

@model("[T].sort", "[T].sort_by", "[T].sort_by_key", "[T].sort_unstable", "[T].sort_unstable_by_key", "[T].sort_unstable_by",
       "[T].reverse", "Vec.dedup", "Vec.retain")
def m_sort(c, p, *a):
    e = c.e
    if p.tag == "sptr":
        root, path = p.args[0], p.args[1]
    elif p.tag == "ptr":
        root, path = p.args
    else:
        return NotImplemented
    s = e.read(c.st, root, path)
    et = elem_ty(c, root, path)
    b = e.base(mk("permuted", c.key, s), et if et is not None else e.u8)
    n = e.seq_len(s) if c.key not in ("Vec.dedup", "Vec.retain") else I(mk("slen", b))
    e.write(c.st, root, path, e.mkseq([mk("win", b, ZERO, n)]))
    return c.one(e.unit())


@model("Formatter.write_str", "Formatter.write_fmt", "Formatter.debug_tuple_field1_finish")
def m_fmt(c, *a):
    return c.one(c.e.fresh(mk("fmtresult", c.e.uid()), c.rt))
