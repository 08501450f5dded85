"""Analysis of the functions that turn builders into a context: name resolution, multiplicity, references."""
import contextlib, os, time, traceback
from . import terms as tm
from .world import Unevaluable, World
from .terms import mk, num, add, sub, addc, I, is_int, cval, ge0, eq0, ZERO, ONE, walk, not_
from .interp import State, Engine
from . import axioms
from .modify import forked, expand, same, fld, vname, inner, refidx, only_variant, unclear, conds_text
from .pairs import tyname, result_of
from .solve import subst_term


def peel(P, t):
    while P.types[t]["k"] in ("ref", "ptr"):
        t = P.types[t]["to"]
    return t


def arg_names(P, inst):
    b = P.body(inst)
    return [tyname(P, peel(P, b.locals[k + 1])) for k in range(b.argc)]


def functions(P, own, result):
    """Functions that make a `result` out of an `own` (possibly wrapped in a Result)."""
    out = []
    for i, x in enumerate(P.insts):
        if not x or not x["local"] or P.body(i) is None or " as " in x["name"] or "{closure" in x["name"]:
            continue
        a = arg_names(P, i)
        if a and a[0] == own and tyname(P, result_of(P, P.body(i).locals[0])[0]) == result:
            out.append(i)
    return out


PER_FUNCTION = 120          # seconds


@contextlib.contextmanager
def guarded(rep, P, inst):
    """What goes wrong with one function leaves the others to be decided."""
    try:
        yield
    except Exception as ex:
        rep.undecide("%s: analysis incomplete: %s: %s" % (P.insts[inst]["name"], type(ex).__name__, str(ex)[:200]))
        if os.environ.get("VT_TRACE"):
            traceback.print_exc()


class Fn:
    """One analysed function: arguments by type, paths, loops."""

    def __init__(self, P, inst, deadline, hook=None):
        self.P, self.inst = P, inst
        self.name = P.insts[inst]["name"].replace("protofish::", "").replace("context::builder::", "")
        self.e = e = Engine(P)
        e.deadline = min(deadline, time.time() + PER_FUNCTION)
        axioms.install(e)
        e.second_try = True
        if hook is not None:
            e.call_hook = lambda fr, i, args, st, rt: hook(self, fr, i, args, st, rt)
        b = P.body(inst)
        self.args = [e.fresh(mk("arg", k), b.locals[k + 1]) for k in range(b.argc)]
        self.names = arg_names(P, inst)
        self.wrapped = result_of(P, b.locals[0])[1]
        self.outs = e.call_body(inst, self.args, State(), ())

    def arg(self, name):
        """The only argument of a type (what a reference argument refers to)."""
        ks = [k for k, n in enumerate(self.names) if n == name]
        if len(ks) != 1:
            return None
        v = self.args[ks[0]]
        while v.tag == "ptr":
            v = self.e.fresh(mk("deref", v.args[0][1]), v.args[0][2]) if v.args[0][0] == "S" else None
            if v is None:
                return None
        return v

    def results(self):
        """(state, variant 'Ok'/'Err'/None, value)."""
        for st, v in self.outs:
            if not self.wrapped:
                yield st, "Ok", v
                continue
            k = self.e.variant_of(st, v)
            yield st, {0: "Ok", 1: "Err"}.get(k), (self.e.payload(st, v, k) if k is not None else v)


class Verdicts:
    def __init__(self, rep, f, topic=None):
        self.rep, self.f, self.e, self.topic = rep, f, f.e, topic

    def ok(self, cond, st, what, detail=""):
        if self.topic is not None and not self.topic(what):
            return
        key = "%s: %s" % (self.f.name, what)
        if cond is True:
            self.rep.prove(key)
        elif cond is False and not st.facts.imp and not self.inexact(st):
            self.rep.violation("%s: does not hold: %s" % (self.f.name, what), "%s\nunder:\n%s" % (
                detail, "\n".join("  " + str(c)[:240] for c in list(st.facts.conds())[:16])))
        else:
            self.rep.undecide(key + (": " + detail[:300] if detail else ""))

    def inexact(self, st):
        if self.e.recs:                # what a recursive call answers is not known
            return True
        names = set()
        for L in self.e.loops:
            if L.imprecise:
                names |= {s.phi for s in L.slots if s.phi is not None}
        return bool(names) and any(x in names for c in st.facts.conds() for x in walk(c))

    def eq(self, st, a, b, what):
        if a is None or b is None or unclear(self.e, a) or unclear(self.e, b):
            return self.ok(None, st, what, "%s / %s" % (str(a)[:120], str(b)[:120]))
        self.ok(same(self.e, st, a, b), st, what, "%s\nshould be %s" % (str(a)[:400], str(b)[:400]))


# ------------------------------------------------------------------ the cache

class Cache:
    """What the tables of a filled BuildCache satisfy (established by the functions that fill it)."""

    def __init__(self, f):
        self.f, self.e = f, f.e
        self.v = f.arg("BuildCache")
        self.items = self.table("items")
        self.byidx = self.table("items_by_idx")
        self.types = self.table("types")
        self.services = self.table("services")

    def table(self, n):
        if self.v is None:
            return None
        t = fld(self.e, State(), self.v, n)
        if t is None:
            return None
        if t.tag == "map" and not t.args[1]:
            return t.args[0]
        if t.tag == "seq" and len(t.args[0]) == 1 and t.args[0][0].tag == "win":
            return t.args[0][0].args[0]
        return None

    def complete(self):
        return None not in (self.items, self.byidx, self.types, self.services)

    def entry(self, m, key):
        """(item type, index) stored under the key."""
        v = self.e.fresh(mk("mval", m, key), m.args[2])
        v = expand(self.e, State(), v)
        return v.args[2] if v.tag == "agg" and len(v.args[2]) == 2 else None

    def data(self, st, kind, idx):
        """The CacheData an entry leads to."""
        return self.e.elem(self.services if kind == "Service" else self.types, idx)

    def kind(self, st, v):
        return vname(self.e, st, v)

    def sound(self, st):
        """The states in st that respect the invariants of the cache, split by the kind of every entry looked at."""
        keys = []
        for c in st.facts.conds():
            if c.tag == "mhas" and c.args[0] in (self.items, self.byidx) and (c.args[0], c.args[1]) not in keys:
                keys.append((c.args[0], c.args[1]))
        out = [st]
        for m, k in keys:
            nxt = []
            for s in out:
                nxt += self.assume(s, m, k)
            out = nxt
        return [s for s0 in out for s in self.elements(s0)]

    def assume(self, st, m, k):
        en = self.entry(m, k)
        if en is None:
            return [st]
        ty, idx = en
        d = self.e.discr(st, ty)
        vs = self.e.P.adts[self.e.ty(self.e.val_ty(ty))["adt"]]["variants"]
        out = []
        for v in vs:
            fa = st.facts.assume(eq0(addc(d, -v["discr"])))
            if fa is None:
                continue
            table = self.services if v["name"] == "Service" else self.types
            fa = fa.assume(ge0(idx)) and fa.assume(ge0(addc(sub(I(mk("slen", table)), idx), -1)))
            if fa is None:
                continue
            el = self.e.elem(table, idx)
            it = fld(self.e, st, el, "item_type")
            if it is not None:
                fa = fa.assume(eq0(addc(self.e.discr(st, it), -v["discr"])))
                if fa is None:
                    continue
            fi = fld(self.e, st, el, "final_idx")
            if fi is not None:
                fa = fa.assume(eq0(sub(fi, idx)))
                if fa is None:
                    continue
            s = st.fork()
            s.facts = fa
            out.append(s)
        return out

    def elements(self, st):
        return [st]


# ------------------------------------------------------------------ C18: the scope walk

class Scopes:
    """Names looked up on the way from a scope S outward, for the name N."""

    def __init__(self, f, cache, N, S):
        self.f, self.e, self.c, self.N, self.S = f, f.e, cache, N, S
        self.nb = N.args[0][0].args[0] if N.tag == "seq" and len(N.args[0]) == 1 and N.args[0][0].tag == "win" else None
        self.sb = S.args[0][0].args[0] if S.tag == "seq" and len(S.args[0]) == 1 and S.args[0][0].tag == "win" else None

    def usable(self):
        return self.nb is not None and self.sb is not None

    def mine(self, key):
        return any(x is self.nb for x in walk(key))

    def scope(self, st, key):
        """The scope a key looks the name up in: (start, length), or None for another key."""
        ps, n = list(key.args[0]), list(self.N.args[0])
        if len(ps) < len(n) or ps[len(ps) - len(n):] != n:
            return None
        ps = ps[:len(ps) - len(n)]
        if not ps:
            return ZERO, ZERO
        if len(ps) == 2 and ps[0].tag == "win" and ps[0].args[0] is self.sb and ps[1].tag == "cst" and ps[1].args[0] == b".":
            return ps[0].args[1], ps[0].args[2]
        return None

    def lookups(self, st):
        """[(found, key)] on the path."""
        out = []
        for c in st.facts.conds():
            neg = c.tag == "not"
            a = c.args[0] if neg else c
            if a.tag == "mhas" and a.args[0] is self.c.items and a.args[1].tag == "seq" and self.mine(a.args[1]):
                out.append((not neg, a.args[1]))
        return out

    def equal(self, st, a, b):
        """Same scope? An empty one has no position."""
        if a is None or b is None or "past" in (a, b):
            return a == b
        n = st.facts.test(eq0(sub(a[1], b[1])))
        if n is not True:
            return n
        if st.facts.test(eq0(a[1])) is True:
            return True
        return st.facts.test(eq0(sub(a[0], b[0])))

    def text(self, a):
        return self.e.mkseq([mk("win", self.sb, a[0], a[1])])

    def outer(self, st, a):
        """The next scope outward, 'past' after the root, None when the path does not say."""
        z = st.facts.test(eq0(a[1]))
        if z is True:
            return "past"
        t = self.text(a)
        dot = st.facts.test(mk("bsym", mk("find", t, num(46))))
        if dot is True:
            return a[0], I(mk("int", mk("rfind", t, num(46)), "uint", 64))
        if dot is False:
            return ZERO, ZERO
        return None

    def advance(self, st, fr, looked):
        """Moves a scope outward over the scopes that were looked at without a match."""
        for _ in range(12):
            if fr is None or fr == "past":
                return fr
            if not any(not hit and self.equal(st, self.scope(st, k), fr) is True for hit, k in looked if self.scope(st, k) is not None):
                return fr
            fr = self.outer(st, fr)
        return None

    def absolute(self, st):
        return st.facts.test(mk("bsym", mk("strip_prefix", self.N, num(46))))

    def other_tests(self, st):
        """Does the path look into the name in a way not understood here?"""
        for c in st.facts.conds():
            a = c.args[0] if c.tag == "not" else c
            if a.tag == "mhas":
                continue
            if a.tag == "bsym" and a.args[0].tag == "strip_prefix" and a.args[0].args[0] is self.N:
                continue
            for x in walk(a):
                if x is self.nb and not only_length(a, self.nb):
                    return not mentions_entry(a, self.c.items)
        return False


def only_length(a, b):
    """Is every mention of the text its length?"""
    def go(x):
        if x is b:
            return False
        if x.tag == "slen" and x.args[0] is b:
            return True
        return all(go(y) for y in sub_terms(x))
    return go(a)


def sub_terms(x):
    for y in x.args:
        if isinstance(y, tm.T):
            yield y
        elif isinstance(y, tuple):
            for z in flat(y):
                yield z


def flat(t):
    for z in t:
        if isinstance(z, tm.T):
            yield z
        elif isinstance(z, tuple):
            yield from flat(z)


def mentions_entry(a, m):
    """Is the name only mentioned as a key of the table?"""
    def go(x):
        if x.tag in ("mval", "mhas") and x.args[0] is m:
            return True
        if x.tag == "base" or x.tag == "win":
            return None
        rs = [go(y) for y in sub_terms(x)]
        return None if None in rs else True
    return go(a) is True


def conditions(st, table):
    """The facts of a path, without what is assumed of the entries of the table."""
    return [c for c in st.facts.conds() if (c.args[0] if c.tag == "not" else c).tag == "mhas" or not mentions_entry(c.args[0] if c.tag == "not" else c, table)]


def phis_of(e, v):
    out = set()
    for x in walk(v):
        if x.tag == "phi":
            out.add(x)
    return out


class Walk:
    """Judges every path of a function that resolves the name N in the scope S."""

    def __init__(self, V, cache, N, S, what):
        self.V, self.f, self.e, self.c, self.what = V, V.f, V.e, cache, what
        self.s = Scopes(V.f, cache, N, S)
        self.heads = {}                # loop -> head scope
        self.bad = set()

    def phis(self, L):
        return {p for s in L.slots if s.phi is not None for p in phis_of(self.e, s.phi)}

    def loop_of(self, st):
        """The loop that searched the name on this path."""
        ps = {p for c in st.facts.conds() for p in phis_of(self.e, c)}
        for L in reversed(self.e.loops):
            if (id(L) in self.heads or id(L) in self.bad) and self.phis(L) & ps:
                return L
        return None

    def loops(self):
        s = self.s
        for L in self.e.loops:
            ph = self.phis(L)
            cands, uses = [], False
            backs = [(b, sb) for b0, sb in zip(L.backs, L.substs) for b in self.c.sound(b0)]
            for b, _ in backs:
                for _, k in s.lookups(b):
                    if ph & phis_of(self.e, k):
                        uses = True
                        sc = s.scope(b, k)
                        if sc is not None and sc not in cands and not any(x.tag in ("rfind", "find") for y in sc for x in walk(y)):
                            cands.append(sc)
            if not uses:
                continue
            done = None
            for h in cands:
                r = self.inductive(L, h, backs)
                if r is True:
                    self.heads[id(L)] = h
                    done = True
                    break
                if done is None or r[0] is False:
                    done = r
            if done is True:
                self.V.ok(True, L.head or backs[0][0], self.what + ": every step of the search goes to the next scope outward, after a look into the present one")
            else:
                self.bad.add(id(L))
                ok, st, why = done if done else (None, backs[0][0], "the scope of a step is not recognised")
                self.V.ok(ok, st, self.what + ": every step of the search goes to the next scope outward, after a look into the present one", why)

    def inductive(self, L, h, backs):
        """True or (verdict, state, reason)."""
        s = self.s
        init = {x.phi: x.init for x in L.slots if x.phi is not None and x.init is not None}
        h0 = tuple(subst_term(self.e, y, init) for y in h)
        ent = L.entry if L.entry is not None else backs[0][0]
        pre = [(hit, k) for hit, k in s.lookups(ent) if not phis_of(self.e, k)]
        fr = s.advance(ent, (ZERO, self.e.seq_len(s.S)), pre)
        eq = s.equal(ent, h0, fr) if fr is not None else None
        if eq is not True:
            return (eq, ent, "the search starts in the scope %s and not in %s" % (h0, fr))
        for b, sb in backs:
            looked = s.lookups(b)
            fr = s.advance(b, h, looked)
            if fr is None or fr == "past":
                return (None if fr is None else False, b, "the search goes on after the root")
            new = tuple(subst_term(self.e, y, sb) for y in h)
            eq = s.equal(b, new, fr)
            if eq is None and self.differ(b, h, new, fr):
                eq = False
            if eq is not True:
                return (eq, b, "goes on with the scope %s where %s is next" % (str(new)[:300], str(fr)[:300]))
        return True

    def differ(self, st, h, new, fr):
        """Is there a scope for which the path leads to another one than the next?"""
        s = self.s
        free = [x for x in h if len(x.args[1]) == 1 and x.args[1][0][1] == 1 and not x.args[0]]
        if len(free) != len([x for x in h if cval(x) is None]):
            return False
        for S in (b"a.b.c.d", b"a.b.c", b"aa.b"):
            cuts = [n for n in range(len(S) + 1) if n in (0, len(S)) or S[n:n + 1] == b"."]
            for n in cuts:
                ints = {}
                for x, y in zip(h, (0, n)):
                    if x in free:
                        ints[x.args[1][0][0]] = y
                w = World({s.sb: S, s.nb: b"x"}, ints)
                try:
                    if w.allows(conditions(st, s.c.items)) and w.text(s.text(new)) != w.text(s.text(fr)):
                        return True
                except Unevaluable:
                    continue
        return False

    def path(self, st):
        """What the path must answer: ('entry', key), ('none', None) or (None, reason)."""
        s = self.s
        looked = s.lookups(st)
        ab = s.absolute(st)
        if ab is True:
            key = self.e.mkseq([mk("win", s.nb, ONE, addc(self.e.seq_len(s.N), -1))])
            return self.decided(st, looked, key)
        L = self.loop_of(st)
        if L is not None:
            if id(L) not in self.heads:
                return None, "search not understood"
            fr = self.heads[id(L)]
            # past the loop: no lookups without its variables count
        else:
            fr = (ZERO, self.e.seq_len(s.S))
        fr = s.advance(st, fr, looked)
        if fr is None:
            return None, "next scope not decided"
        if fr == "past":
            return "none", None
        if st.facts.test(eq0(fr[1])) is True:
            key = s.N
        else:
            key = self.e.mkseq([mk("win", s.sb, fr[0], fr[1]), mk("cst", b".")] + list(s.N.args[0]))
        return self.decided(st, looked, key)

    def decided(self, st, looked, key):
        for hit, k in looked:
            if k is key or same(self.e, st, k, key):
                return ("entry", k) if hit else ("none", None)
        return "unasked", key


def resolution(V, cache, st, N, S, result, what, walk_):
    """result: ('ref', kind name, index term), ('err', None, None); checks it against the walk."""
    for ab in (True, False):
        atom = mk("bsym", mk("strip_prefix", N, num(46)))
        t = st.facts.test(atom)
        if t is not None and t is not ab:
            continue
        s0 = st
        if t is None:
            if walk_.s.other_tests(st):
                V.ok(None, st, what + ": the name is looked up in the scopes it can be seen from", "absolute names not recognised")
                return
            fa = st.facts.assume(atom if ab else not_(atom))
            if fa is None:
                continue
            s0 = st.fork()
            s0.facts = fa
        for s in cache.sound(s0):
            one(V, cache, s, result, what, walk_)


def one(V, cache, st, result, what, walk_):
    e = V.e
    kind, key = walk_.path(st)
    w = what + ": the answer is the entry of the first scope outward that has the name, of the root for an absolute name"
    if kind is None:
        return V.ok(None, st, w, key)
    if kind == "unasked":
        return V.ok(False, st, w, "%s without a look at %s" % (
            "fails" if result[0] == "err" else "answers", str(key)[:300]))
    if kind == "none":
        return V.ok(result[0] == "err", st, w, "the name is nowhere to be found, but the result is %s" % (str(result)[:300],))
    ty, idx = cache.entry(cache.items, key)
    tk = vname(e, st, ty)
    if result[0] == "err":
        # only the wrong kind of item is an error
        ok = None if tk is None else tk not in result[1]
        return V.ok(ok, st, what + ": an item of a kind that is not allowed is an error, and only that", "entry %s kind %s" % (str(key)[:200], tk))
    _, rk, ri = result
    want = fld(e, st, cache.data(st, tk, idx), "final_idx") if tk else None
    eq = None if want is None or ri is None else st.facts.test(eq0(sub(ri, want))) is True or st.facts.test(eq0(sub(ri, idx))) is True
    V.ok(eq, st, w, "answers with %s where %s was found" % (str(ri)[:300], str(want)[:300]))
    V.ok(None if tk is None or rk is None else tk == rk, st, what + ": the reference has the kind of the item found", "%s for an item of kind %s" % (rk, tk))


def resolving(rep, P, deadline, topic=None):
    """C18 (and the kinds for C15): field types and rpc types."""
    n = 0
    for own, result in (("FieldBuilder", "MessageField"), ("RpcBuilder", "Rpc")):
        fs = functions(P, own, result)
        if not fs:
            rep.undecide("no function builds a %s" % result)
        for i in fs:
            with guarded(rep, P, i):
                f = Fn(P, i, deadline)
                V = Verdicts(rep, f, topic)
                rep.count("functions", 1)
                rep.count("paths", len(f.outs))
                rep.count("loops", len(f.e.loops))
                rep.sample("%s: %d paths, %d loops" % (f.name, len(f.outs), len(f.e.loops)))
                cache = Cache(f)
                data = f.arg("CacheData")
                S = fld(f.e, State(), data, "full_name") if data is not None else None
                b = f.arg(own)
                if not cache.complete() or S is None or b is None:
                    rep.undecide("%s: arguments not recognised" % f.name)
                    continue
                (field if own == "FieldBuilder" else rpc)(V, cache, b, S)


def field(V, cache, b, S):
    e, f = V.e, V.f
    ft = fld(e, State(), b, "field_type")
    un = [k for k, x in enumerate(e.P.adts[e.ty(e.val_ty(ft))["adt"]]["variants"]) if x["name"] == "Unknown"] if ft is not None else []
    if not un:
        return V.rep.undecide("%s: field type not recognised" % f.name)
    N = expand_to(e, ft, un[0])
    w = Walk(V, cache, N, S, "type of a field")
    if not w.s.usable():
        return V.rep.undecide("%s: name or scope not recognised" % f.name)
    w.loops()
    for st, var, v in f.results():
        k = only_variant(e, st, ft)
        if k is None:
            V.ok(None, st, "the type of the field")
            continue
        if k != un[0]:
            V.ok(var == "Ok" and same(e, st, fld(e, st, v, "field_type"), e.expand(st, ft, k).args[2][0]) if var else None, st,
                 "a built-in type is taken over as it is", str(v)[:300])
            continue
        if var == "Err":
            resolution(V, cache, st, N, S, ("err", ("Message", "Enum")), "type of a field", w)
        elif var == "Ok":
            t = fld(e, st, v, "field_type")
            kn = vname(e, st, t) if t is not None else None
            if kn not in ("Message", "Enum"):
                V.ok(None if kn is None else False, st, "type of a field: a named type is a message or an enum", str(t)[:200])
                continue
            resolution(V, cache, st, N, S, ("ref", kn, refidx(e, st, inner(e, st, t))), "type of a field", w)
        else:
            V.ok(None, st, "the result")


def expand_to(e, v, k):
    x = e.expand(State(), v, k)
    return x.args[2][0]


def at_fault(V, cache, st, N, w):
    """Does the path establish that the name is missing or names something that is not a message?"""
    if w.s.absolute(st) is None:
        return False
    kind, key = w.path(st)
    if kind is None:
        return None
    if kind == "none":
        return True
    if kind == "unasked":
        return False
    tk = vname(V.e, st, cache.entry(cache.items, key)[0])
    return None if tk is None else tk != "Message"


def rpc(V, cache, b, S):
    e, f = V.e, V.f
    walks = []
    for n in ("input", "output"):
        a = fld(e, State(), b, n)
        N = fld(e, State(), a, "message") if a is not None else None
        if N is None:
            V.rep.undecide("%s: %s not recognised" % (f.name, n))
            continue
        what = "%s type of an rpc" % n
        w = Walk(V, cache, N, S, what)
        if not w.s.usable():
            V.rep.undecide("%s: name or scope not recognised" % f.name)
            continue
        w.loops()
        for st, var, v in f.results():
            if var == "Ok":
                r = fld(e, st, v, n, "message")
                resolution(V, cache, st, N, S, ("ref", "Message", refidx(e, st, r) if r is not None else None), what, w)
                V.eq(st, fld(e, st, v, n, "stream"), fld(e, st, a, "stream"), what + ": stream is what the source says")
            elif var is None:
                V.ok(None, st, "the result")
        walks.append((N, w))
    for st, var, v in f.results():
        if var != "Err" or len(walks) != 2:
            continue
        for s0 in cache.sound(st):
            fs = [at_fault(V, cache, s0, N, w) for N, w in walks]
            V.ok(True if True in fs else None if None in fs else False, s0,
                 "an rpc is only refused where one of its types is not a message", str(v)[:300])


# ------------------------------------------------------------------ C17: multiplicity

LENGTH_DELIMITED = {"String", "Bytes", "Message"}


def multiplicity(rep, P, deadline, topic=None):
    for i in functions(P, "FieldBuilder", "MessageField"):
        with guarded(rep, P, i):
            f = Fn(P, i, deadline)
            V = Verdicts(rep, f, topic)
            rep.count("functions", 1)
            rep.count("paths", len(f.outs))
            b = f.arg("FieldBuilder")
            ob = fld(f.e, State(), b, "options") if b is not None else None
            if ob is None or ob.tag != "seq" or len(ob.args[0]) != 1 or ob.args[0][0].tag != "win":
                rep.undecide("%s: arguments not recognised" % f.name)
                continue
            judge_multiplicity(V, b, ob.args[0][0].args[0])
            samples(rep, P, i, f, deadline, topic)
    rep.count("multiplicity functions", 1)


def label(V, st, b, v):
    """(label, kind of type, multiplicity given); None where the path does not say."""
    e = V.e
    ft = fld(e, st, b, "field_type")
    fk = vname(e, st, ft) if ft is not None else None
    tk = fk
    if fk == "Builtin":
        tk = vname(e, st, inner(e, st, ft))
    m = fld(e, st, v, "multiplicity")
    return vname(e, st, fld(e, st, b, "multiplicity")), tk, vname(e, st, m) if m is not None else None, m


def label_cases(V, st, b, v):
    """Splits a path whose label or type is not decided."""
    e = V.e

    def go(s):
        l = fld(e, s, b, "multiplicity")
        e.need_variant(s, l)
        m = fld(e, s, v, "multiplicity")
        if m is not None and m.tag == "sym":
            e.need_variant(s, m)
        ft = fld(e, s, b, "field_type")
        k = e.need_variant(s, ft)
        if k is not None and vname(e, s, l) == "Repeated" and vname(e, s, ft) == "Builtin":
            e.need_variant(s, inner(e, s, ft))
        return label(V, s, b, v)
    return forked(e, st, go)


def judge_multiplicity(V, b, base):
    e, f = V.e, V.f
    for st0, var, v in f.results():
        if var != "Ok":
            continue
        for st, (lab, ty, got, m) in label_cases(V, st0, b, v):
            if None in (lab, got) or lab == "Repeated" and ty is None:
                V.ok(None, st, "the multiplicity of a field", "%s %s %s" % (lab, ty, str(m)[:100]))
            elif lab != "Repeated":
                V.ok(got == lab, st, "a field that is not repeated keeps its label", "%s becomes %s" % (lab, got))
            elif ty in LENGTH_DELIMITED or ty == "Unknown":
                V.ok(got == "Repeated", st, "fields of strings, bytes and named types are never packed", got)
            else:
                want = packed(V, st, base)
                V.ok(None if want is None else got == want or None, st,
                     "a repeated scalar field is packed unless the packed option says otherwise", "%s %s" % (got, want))


def packed(V, st, base):
    """What the options say: 'RepeatedPacked' or 'Repeated', by the first option called packed."""
    e = V.e
    word = e.cst(b"packed")
    for c in st.facts.conds():
        if c.tag == "same" and any(a is word for a in c.args):
            for a in c.args:
                k = owner(a, base)
                if k is not None:
                    x = e.elem(base, k)
                    val = fld(e, st, x, "value")
                    if not same(e, st, fld(e, st, x, "name"), a):
                        continue
                    n = vname(e, st, val)
                    if n is None and st.facts.test(eq0(addc(e.discr(st, val), -bool_discr(e, val)))) is False:
                        return "Repeated"
                    if n is None:
                        return None
                    if n != "Bool":
                        return "Repeated"
                    t = st.facts.test(tm.mk("bsym", inner(e, st, val).args[0])) if inner(e, st, val).tag == "bsym" else truth(e, st, inner(e, st, val))
                    return None if t is None else "RepeatedPacked" if t else "Repeated"
    return "RepeatedPacked" if searched(V, st, base, word) else None


def truth(e, st, v):
    if is_int(v):
        return None if cval(v) is None else bool(cval(v))
    return st.facts.test(v)


def bool_discr(e, val):
    return [x["discr"] for x in e.P.adts[e.ty(e.val_ty(val))["adt"]]["variants"] if x["name"] == "Bool"][0]


def owner(a, base):
    """The index of the element of base the text a belongs to."""
    for x in walk(a):
        if x.tag == "el" and x.args[0] is base:
            return x.args[1]
    return None


def searched(V, st, base, word):
    """Did a loop find every element to have another name?"""
    e = V.e
    n = I(mk("slen", base))
    if st.facts.test(eq0(n)) is True:
        return True
    ps = {p for c in st.facts.conds() for p in phis_of(e, c)}
    for L in V.e.loops:
        for s in L.slots:
            if s.kind != "int" or s.phi is None or s.init is None or not phis_of(e, s.phi) & ps:
                continue
            i = I(s.phi)
            if st.facts.test(ge0(sub(i, n))) is not True or cval(s.init) != 0:
                continue
            good = bool(L.backs)
            for b, sb in zip(L.backs, L.substs):
                new = subst_term(e, i, sb)
                nm = fld(e, b, e.elem(base, i), "name")
                if b.facts.test(eq0(addc(sub(new, i), -1))) is not True or nm is None or \
                        b.facts.test(tm.same(word, nm)) is not False:
                    good = False
            if good:
                return True
    return False


NAMES = (b"unpacked", b"packed_", b"(packed)", b"packe", b"Packed", b"deprecated", b"foo.packed", b"packed.foo", b"p")


def samples(rep, P, inst, f0, deadline, topic):
    """The function on given option lists: a wrong answer there is a violation however the search is written."""
    lists = [[]]
    for val in ("true", "false", "other"):
        lists.append([(b"packed", val)])
        lists.append([(b"deprecated", "true"), (b"packed", val)])
        lists.append([(b"packed", val), (b"deprecated", "false")])
    for n in NAMES:
        lists.append([(n, "false")])
        lists.append([(n, "true"), (b"packed", "false")])
    for opts in lists:
        named = [v for n, v in opts if n == b"packed"]
        want = "RepeatedPacked" if not named or named[0] == "true" else "Repeated"
        f = Sample(P, inst, deadline, opts)
        if f.failed:
            rep.undecide("%s: options not recognised" % f.name)
            return
        V = Verdicts(rep, f, topic)
        for st0, var, v in f.results():
            if var != "Ok":
                continue
            for st, (lab, ty, got, m) in label_cases(V, st0, f.b, v):
                if lab != "Repeated" or ty is None or ty in LENGTH_DELIMITED or ty == "Unknown" or ty == "Enum":
                    continue
                vague = any(x.tag in ("rel", "unk", "find", "rfind", "strip_prefix", "strip_suffix", "strfn") for c in st.facts.conds() for x in walk(c))
                V.ok(None if got is None or vague and got != want else got == want, st,
                     "a repeated scalar field with the options %s is %s" % (
                         ", ".join("%s = %s" % (n.decode(), v) for n, v in opts) or "none", "packed" if want == "RepeatedPacked" else "not packed"),
                     "it is %s" % got)


class Sample(Fn):
    """A function that takes a FieldBuilder, on one with the given options."""

    def __init__(self, P, inst, deadline, opts):
        self.P, self.inst, self.failed = P, inst, True
        self.name = P.insts[inst]["name"].replace("protofish::", "").replace("context::builder::", "")
        self.e = e = Engine(P)
        e.deadline = deadline
        axioms.install(e)
        e.second_try = True
        b = P.body(inst)
        self.args = [e.fresh(mk("arg", k), b.locals[k + 1]) for k in range(b.argc)]
        self.names = arg_names(P, inst)
        self.wrapped = result_of(P, b.locals[0])[1]
        self.outs = []
        k = self.names.index("FieldBuilder")
        a = self.args[k]
        if a.tag == "ptr":
            return
        a = expand(e, State(), a)
        vs = e.P.adts[e.ty(a.args[0])["adt"]]["variants"][0]["fields"]
        j = vs.index("options")
        base = a.args[2][j].args[0][0].args[0]
        els = [self.option(base, i, n, v) for i, (n, v) in enumerate(opts)]
        if None in els:
            return
        fs = list(a.args[2])
        fs[j] = e.mkseq([mk("lit", tuple(els))] if els else [])
        self.args[k] = self.b = mk("agg", a.args[0], a.args[1], tuple(fs))
        self.failed = False
        self.outs = e.call_body(inst, self.args, State(), ())

    def option(self, base, i, name, val):
        e = self.e
        o = expand(e, State(), e.elem(base, num(i)))
        vs = e.P.adts[e.ty(o.args[0])["adt"]]["variants"][0]["fields"]
        fs = list(o.args[2])
        fs[vs.index("name")] = e.cst(name)
        c = fs[vs.index("value")]
        if c.tag != "sym":
            return None
        kinds = [x["name"] for x in e.P.adts[e.ty(c.args[1])["adt"]]["variants"]]
        if "Bool" not in kinds:
            return None
        k = kinds.index("Bool")
        if val == "other":
            k = next(j for j, n in enumerate(kinds) if n != "Bool")
        x = e.expand(State(), c, k)
        if val != "other":
            x = mk("agg", x.args[0], x.args[1], (tm.TRUE if val == "true" else tm.FALSE,))
        fs[vs.index("value")] = x
        return mk("agg", o.args[0], o.args[1], tuple(fs))


# ------------------------------------------------------------------ C16: what the builders hold is in the context

def whole(p):
    """Is a window all of its base?"""
    n = p.args[2]
    if cval(p.args[1]) != 0 or not is_int(n) or n.args[0] or len(n.args[1]) != 1 or n.args[1][0][1] != 1:
        return False
    a = n.args[1][0][0]
    while a.tag in ("int", "rng"):
        a = a.args[0]
    return a.tag == "slen" and a.args[0] is p.args[0]


class Lists:
    """Compares lists and maps made by loops with what they are to be made of."""

    def __init__(self, V):
        self.V, self.e = V, V.e
        self.bases = {}
        for L in V.e.loops:
            for s in L.slots:
                if s.base is not None:
                    self.bases[s.base] = (L, s)
                if s.kind == "map" and s.phi is not None:
                    self.bases[s.phi] = (L, s)

    def loop(self, x):
        return self.bases.get(x)

    def counters(self, L):
        """[(slot, value)] of the integers that grow by one with every iteration."""
        out = []
        for s in L.slots:
            if s.kind != "int" or s.phi is None or s.init is None:
                continue
            i = I(s.phi)
            if L.backs and all(b.facts.test(eq0(addc(sub(subst_term(self.e, i, sb), i), -1))) is True for b, sb in zip(L.backs, L.substs)):
                out.append((s, i))
        return out

    def over(self, st, L, n):
        """(counter value, verdict, reason): a counter that runs through 0..n when st is reached after the loop."""
        cs = self.counters(L)
        for s, i in cs:
            if cval(s.init) == 0 and st.facts.test(ge0(sub(i, n))) is True:
                return i, True, ""
        for s, i in cs:
            if st.facts.test(ge0(sub(i, n))) is True and cval(s.init):
                return i, False, "the first %d are left out" % cval(s.init)
        for s, i in cs:
            if cval(s.init) == 0 and st.facts.test(ge0(addc(sub(n, i), -1))) is True and phis_of(self.e, n) == set():
                return i, False, "the last ones are left out"
        for s, i in cs:
            c = self.constant(st, L, i)
            if cval(s.init) == 0 and c is not None and phis_of(self.e, n) == set() and not st.facts.imp and not L.imprecise \
                    and st.facts.assume(eq0(addc(n, -c - 1))) is not None:
                return i, False, "the loop ends after %d elements" % c
        return None, None, "the loop over the list is not recognised"

    def constant(self, st, L, i):
        """The number a counter is known to have reached."""
        cs = {cval(s.init) for s in L.slots if s.kind == "int" and s.init is not None}
        for x in st.facts.conds():
            for y in walk(x):
                if y.tag == "lin":
                    cs |= {y.args[0], -y.args[0], y.args[0] + 1, -y.args[0] + 1}
        return next((c for c in sorted(x for x in cs if x) if c > 0 and st.facts.test(eq0(addc(i, -c))) is True), None)

    def seq(self, st, got, want, check, what, pre=""):
        """Is got the list of one element for each of want (a list of the builder), in order?  check(state, element, source
        element, position) -> (True/False/None, reason)."""
        V, e = self.V, self.e
        if got is None or want is None or got.tag != "seq" or want.tag != "seq":
            return V.ok(None, st, what, "not a list")
        ps, off = list(got.args[0]), ZERO
        for q in want.args[0]:
            if q.tag == "lit":
                for x in q.args[0]:
                    y = None
                    while ps:
                        if ps[0].tag == "lit":
                            y = ps[0].args[0][0]
                            rest = ps[0].args[0][1:]
                            ps[0:1] = [mk("lit", rest)] if rest else []
                            break
                        if ps[0].tag == "win" and st.facts.test(eq0(ps[0].args[2])) is True:
                            ps.pop(0)
                            continue
                        return V.ok(None, st, what, "element not recognised: %s" % str(ps[0])[:200])
                    if y is None:
                        return V.ok(False, st, what, "an element is missing: %s" % str(got)[:300])
                    self.say(st, check(st, y, x, off), what)
                    off = addc(off, 1)
                continue
            if q.tag != "win":
                return V.ok(None, st, what, "source not recognised")
            if not ps:
                return V.ok(st.facts.test(eq0(q.args[2])) is True, st, what, "nothing is made of the elements: %s" % str(got)[:300])
            p = ps.pop(0)
            if not self.window(st, p, q, off, check, what):
                return
            off = add(off, q.args[2])
        for p in ps:
            if p.tag == "win" and st.facts.test(eq0(p.args[2])) is True:
                continue
            return V.ok(None if p.tag == "win" else False, st, what, "there are further elements: %s" % str(p)[:200])
        V.ok(True, st, what)

    def say(self, st, r, what):
        ok, why = r if isinstance(r, tuple) else (r, "")
        if ok is not True:
            self.V.ok(ok, st, what, why)
        return ok is True

    def window(self, st, p, q, off, check, what):
        """One part of the list for one whole part of the source."""
        V, e = self.V, self.e
        if p.tag != "win":
            return V.ok(None, st, what, "part not recognised: %s" % str(p)[:200])
        if p.args[0] is q.args[0] and same(e, st, p.args[1], q.args[1]) and same(e, st, p.args[2], q.args[2]):
            k = I(mk("any", q.args[0]))
            return self.say(st, check(st, e.elem(q.args[0], add(k, q.args[1])), e.elem(q.args[0], add(k, q.args[1])), add(off, k)), what)
        ls = self.loop(p.args[0])
        if ls is None or not whole(p):
            V.ok(None, st, what, "part not recognised: %s" % str(p)[:200])
            return False
        L, slot = ls
        if slot.init is None:
            V.ok(None, st, what, "list not recognised")
            return False
        i, ok, why = self.over(st, L, q.args[2])
        if ok is not True:
            if ok is None and (self.backwards(L, slot, q) or self.turned(st, L, slot, q)):
                ok, why = False, "the order is reversed"
            V.ok(ok, st, what, why)
            return False
        if cval(q.args[1]) != 0:
            V.ok(None, st, what, "source not recognised")
            return False
        items = dict(slot.added)
        good = True
        for k, b in enumerate(L.backs):
            for b1 in self.states(b):
                x = items.get(k)
                if x is None:
                    V.ok(None, b1, what, "what an iteration adds is not known")
                    good = False
                    continue
                good &= self.say(b1, self.single(b1, x, check, e.elem(q.args[0], i), add(off, i)), what)
        return good

    def plain(self, st, s):
        """The list with every part that a loop copied element by element replaced by what it is a copy of."""
        if s is None or s.tag != "seq":
            return s
        e, out = self.e, []
        for p in s.args[0]:
            src = self.copy_of(st, p) if p.tag == "win" and whole(p) else None
            out.append(p if src is None else src)
        return e.mkseq(out) if out != list(s.args[0]) else s

    def copy_of(self, st, p):
        e, ls = self.e, self.loop(p.args[0])
        if ls is None or ls[1].kind != "seq" or ls[1].init is None or ls[1].init.args[0] or not ls[1].added or ls[0].imprecise:
            return None
        L, slot = ls
        src = None
        for k, items in slot.added:
            if not items or len(items) != 1 or items[0].tag != "lit" or len(items[0].args[0]) != 1:
                return None
            x = items[0].args[0][0]
            if x.tag == "sptr" and x.args[0][0] == "S" and not x.args[1]:
                x = e.fresh(x.args[0][1], x.args[0][2]) if x.args[0][1].tag == "el" else x
            if x.tag != "sym" or x.args[0].tag != "el" or src not in (None, x.args[0].args[0]):
                return None
            src = x.args[0].args[0]
            if x.args[0].args[1] not in [i for _, i in self.counters(L)]:
                return None
        n = I(mk("slen", src))
        i, ok, _ = self.over(st, L, n)
        return mk("win", src, ZERO, n) if ok is True else None

    def backwards(self, L, slot, q):
        """Does every iteration add something made of the element before a counter that runs down?"""
        downs = []
        for s in L.slots:
            if s.kind == "int" and s.phi is not None and s.init is not None and L.backs and len(L.substs) == len(L.backs):
                i = I(s.phi)
                if s.init is q.args[2] and all(b.facts.test(eq0(addc(sub(subst_term(self.e, i, sb), i), 1))) is True for b, sb in zip(L.backs, L.substs)):
                    downs.append(addc(i, -1))
        els = [mk("el", q.args[0], i) for i in downs]
        return bool(els) and bool(slot.added) and all(items and any(x in els for y in items for x in deep_walk(self.e, y)) for _, items in slot.added)

    def turned(self, st, L, slot, q):
        """Is the list a reversed copy of a list made in the order of q?"""
        for _, items in slot.added:
            for y in items or ():
                for x in deep_walk(self.e, y):
                    ls = self.loop(x.args[0]) if x.tag == "el" else None
                    if ls is None or ls[0] is L or ls[1].init is None or ls[1].init.args[0]:
                        continue
                    if self.over(st, ls[0], q.args[2])[1] is True and any(
                            self.backwards(L, slot, mk("win", x.args[0], ZERO, s.init)) for s in L.slots
                            if s.kind == "int" and s.init is not None and any(y.tag == "slen" and y.args[0] is x.args[0] for y in walk(s.init))):
                        return True
        return False

    def states(self, b):
        return [b]

    def single(self, b, items, check, src, pos):
        if getattr(check, "whole", False):
            return check(b, self.e.mkseq(list(items)), src, pos)
        if len(items) == 1 and items[0].tag == "lit" and len(items[0].args[0]) == 1:
            return check(b, items[0].args[0][0], src, pos)
        if not items:
            return False, "nothing is made of an element"
        if all(x.tag == "lit" for x in items):
            return False, "several are made of one element"
        return None, "what an iteration adds is not recognised: %s" % str(items)[:200]

    def map(self, st, got, want, key, val, what):
        """Is got the map with one entry key(x), val(x) for every element x of the list want?  (Later ones win.)"""
        V, e = self.V, self.e
        if got is None or got.tag != "map" or want is None or want.tag not in ("seq", "map"):
            return V.ok(None, st, what, "not a map")
        ops = list(got.args[1])
        slot = None
        if got.args[0].tag == "mbase":
            ls = self.loop(got.args[0].args[0]) or self.loop(got.args[0])
            slot = e.phimaps.get(got.args[0])
            if slot is None and ls is not None:
                slot = ls[1]
            if slot is None:
                return V.ok(None, st, what, "map not recognised")
            L = next(L for L in e.loops if slot in L.slots)
            if slot.init is None or slot.init.tag != "map" or slot.init.args[0].tag != "empty" or slot.init.args[1]:
                return V.ok(None, st, what, "the map is not empty at first")
            i, ok, why = self.over(st, L, e.seq_len(want) if want.tag == "seq" else maplen(want))
            if ok is not True:
                return V.ok(ok, st, what, why)
            added = dict(slot.added)
            for k, b in enumerate(L.backs):
                x, pos = self.at(b, want, i)
                if x is None:
                    x = self.made_here(L, k, want)
                if x is None:
                    V.ok(None, b, what, "the element is not recognised")
                    continue
                os = added.get(k)
                if os is None:
                    V.ok(None, b, what, "what an iteration does to the map is not known")
                    continue
                j = i
                if want.tag == "seq" and len(want.args[0]) == 1 and want.args[0][0].tag == "win" and os and len(os) == 1 and os[0].tag == "ins":
                    # from the last to the first: the same where no key is there twice
                    q = want.args[0][0]
                    for y in deep_walk(e, os[0].args[0]):
                        if y.tag == "el" and y.args[0] is q.args[0] and b.facts.test(eq0(addc(sub(add(i, sub(y.args[1], q.args[1])), q.args[2]), 1))) is True:
                            j, x = sub(y.args[1], q.args[1]), e.elem(q.args[0], y.args[1])
                for b1, (m, n) in forked(e, b, lambda t: (key(t, x, j), val(t, x, j))):
                    self.entry(b1, os, m, n, what)
            if ops:
                return V.ok(None, st, what, "the map is changed afterwards")
            return
        if got.args[0].tag != "empty" or want.tag == "map":
            return V.ok(None, st, what, "map not recognised")
        pos = 0
        for q in want.args[0]:
            if q.tag != "lit":
                return V.ok(False if q.tag == "win" and not ops and st.facts.test(eq0(q.args[2])) is False else None, st, what, "source not recognised")
            for x in q.args[0]:
                if pos >= len(ops):
                    return V.ok(False, st, what, "an entry is missing")
                self.entry(st, (ops[pos],), key(st, x, num(pos)), val(st, x, num(pos)), what)
                pos += 1
        V.ok(pos == len(ops), st, what, "there are further entries: %s" % str(ops[pos:])[:300])

    def made_here(self, L, k, want):
        """The element an iteration adds to the list, if the same loop makes the list."""
        if want.tag != "seq" or len(want.args[0]) != 1 or want.args[0][0].tag != "win" or not whole(want.args[0][0]):
            return None
        ls = self.loop(want.args[0][0].args[0])
        if ls is None or ls[0] is not L or ls[1].init is None or ls[1].init.args[0]:
            return None
        if any(items is None or len(items) != 1 or items[0].tag != "lit" or len(items[0].args[0]) != 1 for _, items in ls[1].added):
            return None
        return dict(ls[1].added)[k][0].args[0][0]

    def entry(self, st, ops, k, v, what):
        V, e = self.V, self.e
        if not ops:
            return V.ok(False, st, what, "nothing is entered for an element")
        if len(ops) != 1 or ops[0].tag != "ins":
            return V.ok(None, st, what, "entry not recognised: %s" % str(ops)[:300])
        o = ops[0]
        if k is None or v is None or unclear(e, o):
            return V.ok(None, st, what, "entry not recognised")
        vs = v if isinstance(v, tuple) else (v,)
        ks = k if isinstance(k, tuple) else (k,)
        v, k = vs[0], ks[0]
        V.ok(any(same(e, st, o.args[0], w) for w in ks) and any(same(e, st, o.args[1], w) for w in vs), st, what, "entered: %s -> %s\nshould be: %s -> %s" % (
            str(o.args[0])[:250], str(o.args[1])[:250], str(k)[:250], str(v)[:250]))

    def at(self, b, want, i):
        """The element at position i of a list in parts, of a map in the order of its keys."""
        e, off = self.e, ZERO
        if want.tag == "map":
            if want.args[0].tag != "mbase" or want.args[1]:
                return None, None
            _, kt, vt = want.args[0].args
            k = e.fresh(mk("mapkey", want, i), kt)
            return (k, e.fresh(mk("mval", want.args[0], k), vt)), i
        for q in want.args[0]:
            n = len(q.args[0]) if q.tag == "lit" else q.args[2]
            n = num(n) if isinstance(n, int) else n
            if b.facts.test(ge0(sub(i, off))) is True and b.facts.test(ge0(addc(sub(add(off, n), i), -1))) is True:
                if q.tag == "win":
                    return e.elem(q.args[0], add(q.args[1], sub(i, off))), sub(i, off)
                k = cval(b.facts.norm(sub(i, off)))
                return (q.args[0][k], sub(i, off)) if k is not None else (None, None)
            off = add(off, n)
        return None, None


def made_of(x):
    """The call an element was made by: (function, arguments)."""
    n = x.args[0] if x.tag == "sym" else None
    while getattr(n, "tag", None) == "fld":
        n = n.args[0]
    return (n.args[0], n.args[1:]) if getattr(n, "tag", None) == "made" else None


class Parts:
    """The functions that build the parts of an item, replaced by a symbol for their result where a whole is analysed."""

    def __init__(self, P, *pairs):
        self.P = P
        self.of = {}
        self.results = []
        for own, result in pairs:
            for i in functions(P, own, result):
                self.of[i] = (own, result)

    def __call__(self, f, fr, inst, args, st, rt):
        if inst not in self.of:
            return None
        x = f.e.fresh(mk("made", inst, *args), self.P.body(inst).locals[0])
        if x not in self.results:
            self.results.append(x)
        return [(st, x)]

    def made(self, V, st, x, src, own, result, **given):
        """Is x the result of building src, with the item's own data?"""
        m = made_of(x)
        if m is None:
            return None, "not made by a known function: %s" % str(x)[:200]
        if self.of.get(m[0]) != (own, result):
            return False, "made by another function"
        f = V.f
        for n, a in zip(arg_names(self.P, m[0]), m[1]):
            if n == own:
                a = f.e.read(st, a.args[0], a.args[1]) if a.tag == "ptr" else a
                if not same(f.e, st, a, src):
                    return False, "made of another part: %s and not %s" % (str(a)[:250], str(src)[:250])
            elif n in ("CacheData", "BuildCache"):
                k = [j for j, o in enumerate(f.names) if o == n]
                if len(k) != 1 or a is not f.args[k[0]]:
                    return None if len(k) != 1 else False, "made with other data than the item's: %s" % str(a)[:200]
            elif n in given:
                r = given[n](st, a)
                if r is not True:
                    return r, "%s: %s" % (n, str(a)[:200])
            else:
                return None, "argument not understood"
        return True, ""


def copied(V, st, b, v, *names):
    for n in names:
        V.eq(st, fld(V.e, st, v, n), fld(V.e, st, b, n), "the %s is the one declared" % n)


def option_is(e, want):
    """Checks an Option<reference>: want is None or the index."""
    def go(st, a):
        k = vname(e, st, a)
        if k is None:
            return None
        if want is None or k == "None":
            return k == "None" and want is None
        i = refidx(e, st, inner(e, st, a))
        return None if i is None else st.facts.test(eq0(sub(i, want))) is True
    return go


def declared(rep, P, deadline, topic=None):
    for own, result, parts, judge in ((
            "FieldBuilder", "MessageField", (), j_field), ("RpcBuilder", "Rpc", (), j_rpc), ("EnumBuilder", "EnumInfo", (), j_enum),
            ("ServiceBuilder", "Service", (("RpcBuilder", "Rpc"),), j_service), (
            "MessageBuilder", "MessageInfo", (("FieldBuilder", "MessageField"),), j_message)):
        fs = functions(P, own, result)
        if not fs:
            rep.undecide("no function builds a %s" % result)
        for i in fs:
            with guarded(rep, P, i):
                hook = Parts(P, *parts)
                f = Fn(P, i, deadline, hook if parts else None)
                V = Verdicts(rep, f, topic)
                rep.count("functions", 1)
                rep.count("paths", len(f.outs))
                rep.count("loops", len(f.e.loops))
                b = f.arg(own)
                if b is None:
                    rep.undecide("%s: arguments not recognised" % f.name)
                    continue
                for st, var, v in f.results():
                    if var == "Ok":
                        judge(V, st, b, v, hook)
                    elif var is None:
                        V.ok(None, st, "the result")
                    elif own not in ("FieldBuilder", "RpcBuilder"):         # these are the subject of the name resolution
                        V.ok(any(st.facts.test(eq0(f.e.discr(st, x))) is False for x in hook.results), st, "an item is only refused where one of its parts is")


def j_field(V, st, b, v, hook):
    copied(V, st, b, v, "name", "number", "options")
    ks = [k for k, n in enumerate(V.f.names) if n == "Option"]
    V.eq(st, fld(V.e, st, v, "oneof"), V.f.args[ks[0]] if len(ks) == 1 else None, "the oneof is the one given")


def j_rpc(V, st, b, v, hook):
    copied(V, st, b, v, "name", "options")
    for n in ("input", "output"):
        V.eq(st, fld(V.e, st, v, n, "stream"), fld(V.e, st, b, n, "stream"), "the %s is a stream where declared" % n)


def own_data(V, st, v):
    """Name, position and parent of an item against its entry in the cache."""
    e = V.e
    d = V.f.arg("CacheData")
    V.eq(st, fld(e, st, v, "full_name"), fld(e, st, d, "full_name") if d is not None else None, "the full name is the one registered")
    r = fld(e, st, v, "self_ref")
    V.eq(st, refidx(e, st, r) if r is not None else None, fld(e, st, d, "final_idx") if d is not None else None, "the reference is the position registered")
    cache = Cache(V.f)
    path = fld(e, st, d, "idx_path") if d is not None else None
    if not cache.complete() or path is None or path.tag != "seq":
        return V.ok(None, st, "the parent")
    n = e.seq_len(path)
    par = fld(e, st, v, "parent")
    for s in cache.sound(st):
        p = expand(e, s, par)
        k = vname(e, s, p)
        pi = refidx(e, s, inner(e, s, p)) if k in ("Package", "Message") else refidx(e, s, p)
        if k not in ("Package", "Message"):
            k = "Package" if last_adt(e, p) == "PackageRef" else None
        first = e.elem_at(s, path, ZERO) if s.facts.test(ge0(addc(n, -1))) is True else None
        if k is None or pi is None or first is None:
            V.ok(None, s, "the parent", str(par)[:200])
        elif k == "Package":
            top = s.facts.test(eq0(addc(n, -2)))
            V.ok(None if top is None else top and s.facts.test(eq0(sub(pi, first))) is True, s,
                 "the parent of a top-level item is the package it is declared in", str(pi)[:200])
        else:
            key = e.mkseq([mk("win", path.args[0][0].args[0], ZERO, addc(n, -1))])
            ent = cache.entry(cache.byidx, key)
            top = s.facts.test(ge0(addc(n, -3)))
            want = fld(e, s, cache.data(s, "Message", ent[1]), "final_idx")
            V.ok(None if top is None else top and (s.facts.test(eq0(sub(pi, want))) is True or s.facts.test(eq0(sub(pi, ent[1]))) is True), s,
                 "the parent of an inner item is the message it is declared in", str(pi)[:200])


def last_adt(e, v):
    t = e.val_ty(v)
    return e.ty(t)["adt"].split("::")[-1] if t is not None and e.kind(t) == "adt" else None


def j_enum(V, st, b, v, hook):
    e, l = V.e, Lists(V)
    copied(V, st, b, v, "name")
    own_data(V, st, v)
    src = fld(e, st, b, "fields")
    l.map(st, fld(e, st, v, "fields_by_value"), src, lambda s, x, i: fld(e, s, x, "value"), lambda s, x, i: x, "every value declared is listed under its number")
    l.map(st, fld(e, st, v, "fields_by_name"), src, lambda s, x, i: fld(e, s, x, "name"), lambda s, x, i: fld(e, s, x, "value"),
          "every value declared is listed under its name")


def j_service(V, st, b, v, hook):
    e, l = V.e, Lists(V)
    copied(V, st, b, v, "name", "options")
    own_data(V, st, v)
    rpcs = fld(e, st, v, "rpcs")
    l.seq(st, rpcs, fld(e, st, b, "rpcs"), lambda s, x, y, i: hook.made(V, s, x, y, "RpcBuilder", "Rpc"), "every rpc declared is listed, in order")
    l.map(st, fld(e, st, v, "rpcs_by_name"), rpcs, lambda s, x, i: fld(e, s, x, "name"), lambda s, x, i: i, "every rpc is listed under its name")


def maplen(m):
    return I(mk("rng", mk("maplen", m), 0, tm.ISIZE_MAX))


def length(e, p):
    """Length of the list a loop made."""
    return I(mk("int", mk("slen", p), "uint", 63))


def collected(V, l, m):
    """The list a map was filled from, in parts, with the position each part begins at."""
    e = V.e
    slot = e.phimaps.get(m.args[0]) if m.args[0].tag == "mbase" else None
    if slot is None or m.args[1]:
        return None
    L = next((L for L in e.loops if slot in L.slots), None)
    cs = l.counters(L) if L is not None else []
    parts = {}
    for k, ops in slot.added:
        if not ops or len(ops) != 1 or ops[0].tag != "ins" or len(cs) != 1:
            return None
        x = ops[0].args[1]
        n = x.args[0] if x.tag == "sym" else None
        if getattr(n, "tag", None) != "el":
            return None
        off = sub(cs[0][1], n.args[1])
        parts[n.args[0]] = off
    out, off = [], ZERO
    while parts:
        nx = [b for b, o in parts.items() if o is off or L.backs and L.backs[0].facts.test(eq0(sub(o, off))) is True]
        if len(nx) != 1:
            return None
        out.append(mk("win", nx[0], ZERO, length(e, nx[0])))
        off = add(off, length(e, nx[0]))
        del parts[nx[0]]
    return out


def j_message(V, st, b, v, hook):
    e, l = V.e, Lists(V)
    copied(V, st, b, v, "name")
    own_data(V, st, v)
    message_fields(V, l, st, b, v, hook)
    l.map(st, fld(e, st, v, "fields_by_name"), fld(e, st, v, "fields"), lambda s, x, i: fld(e, s, x[1], "name"), lambda s, x, i: numbers(e, s, x),
          "every field is listed under its name")
    message_oneofs(V, l, st, b, v, hook)
    message_inner(V, l, st, b, v)


def numbers(e, st, entry):
    """The number of a field of the finished table: its key, and (as decided for the table itself) the field's number."""
    n = fld(e, st, entry[1], "number")
    return (entry[0],) if n is None else (entry[0], n)


def message_fields(V, l, st, b, v, hook):
    e = V.e
    m = fld(e, st, v, "fields")
    what = "every field declared is listed under its number"
    parts = collected(V, l, m) if m is not None and m.tag == "map" else None
    own, ones = fld(e, st, b, "fields"), fld(e, st, b, "oneofs")
    if parts is None or len(parts) > 2 or own is None or ones is None:
        return V.ok(None, st, what, "fields not recognised")
    l.map(st, m, e.mkseq(parts), lambda s, x, i: fld(e, s, x, "number"), lambda s, x, i: x, what)

    def plain(s, x, y, i):
        return hook.made(V, s, x, y, "FieldBuilder", "MessageField", Option=option_is(e, None))

    def inside(s, items, o, i):
        l.seq(s, items, fld(e, s, o, "fields"), lambda s2, x, y, j: hook.made(V, s2, x, y, "FieldBuilder", "MessageField", Option=option_is(e, i)),
              "every field declared in a oneof is a field of the message and of that oneof")
        return True
    inside.whole = True
    names = ("every field declared in the message is a field of no oneof", "the fields of every oneof are fields of the message")
    todo = [(own, plain, names[0]), (ones, inside, names[1])]
    if len(parts) == 2 and first_source(V, l, parts[0], ones):
        todo.reverse()
    if len(parts) == 1:
        which = 1 if first_source(V, l, parts[0], ones) else 0
        src, chk, w = todo[1 - which]
        V.ok(None if e.seq_len(src) is None else st.facts.test(eq0(e.seq_len(src))) is True, st, w, "they are not among the fields")
        todo = [todo[which]]
    for p, (src, chk, w) in zip(parts, todo):
        l.seq(st, e.mkseq([p]), src, chk, w)


def first_source(V, l, p, src):
    """Is the part made of the elements of src?"""
    ls = l.loop(p.args[0])
    base = next((q.args[0] for q in src.args[0] if q.tag == "win"), None)
    if ls is None or base is None:
        return False
    return any(x is base for k, items in ls[1].added if items for y in items for x in deep_walk(V.e, y))


def deep_walk(e, v, depth=0):
    """Terms of a value, and of what the loops behind its lists add."""
    for x in walk(v):
        yield x
        if x.tag == "base" and depth < 3:
            s = e.phibases.get(x)
            if s is not None:
                for _, items in s.added:
                    for y in items or ():
                        yield from deep_walk(e, y, depth + 1)


def message_oneofs(V, l, st, b, v, hook):
    e = V.e
    got, src, m = fld(e, st, v, "oneofs"), fld(e, st, b, "oneofs"), fld(e, st, v, "fields")
    what = "every oneof declared is listed, in order"

    def one(s, x, y, i):
        for n in ("name", "options"):
            V.eq(s, fld(e, s, x, n), fld(e, s, y, n), "the %s of a oneof is the one declared" % n)
        r = fld(e, s, x, "self_ref")
        V.eq(s, refidx(e, s, r) if r is not None else None, i, "the reference of a oneof is its position")
        return True

    def full(s, x, y, i):
        one(s, x, y, i)
        oneof_fields(V, l, s, fld(e, s, x, "fields"), i, m)
        return True
    if got is None or src is None or got.tag != "seq":
        return V.ok(None, st, what, "oneofs not recognised")
    ls = l.loop(got.args[0][0].args[0]) if len(got.args[0]) == 1 and got.args[0][0].tag == "win" else None
    if ls is None or ls[1].init is not None:
        return l.seq(st, got, src, full, what)
    # a loop that goes over the list once more
    L, slot = ls
    B = got.args[0][0].args[0]
    before = L.entry.mem.get(slot.key[0]) if L.entry is not None and len(slot.key) == 1 else None
    if before is None or before.tag != "seq":
        return V.ok(None, st, what, "list not recognised")
    i, ok, why = l.over(st, L, e.seq_len(before))
    if ok is not True:
        return V.ok(ok, st, what, why)
    n = e.seq_len(slot.head)
    for k, s in enumerate(L.backs):
        x = replaced(e, s, slot.vals.get(k), B, i)
        if x is None:
            V.ok(None, s, what, "what an iteration does to the list is not recognised: %s" % str(slot.vals.get(k))[:300])
            continue
        old = e.elem(B, i)
        for nm in ("name", "self_ref", "options"):
            V.eq(s, fld(e, s, x, nm), fld(e, s, old, nm), "the %s of a oneof stays as it is when its fields are listed" % nm)
        oneof_fields(V, l, s, fld(e, s, x, "fields"), i, m)
    l.seq(st, before, src, one, what)


def replaced(e, st, val, B, i):
    """The new element where val is the list B with element i replaced (or i itself unchanged)."""
    if val is None or val.tag != "seq":
        return None
    off, new = ZERO, None
    for p in val.args[0]:
        if p.tag == "win" and p.args[0] is B:
            if st.facts.test(eq0(p.args[2])) is True:
                continue
            if st.facts.test(eq0(sub(p.args[1], off))) is not True:
                return None
            off = add(off, p.args[2])
        elif p.tag == "lit" and len(p.args[0]) == 1 and new is None and st.facts.test(eq0(sub(off, i))) is True:
            new = p.args[0][0]
            off = addc(off, 1)
        else:
            return None
    return new if new is not None else e.elem(B, i)


def oneof_fields(V, l, st, got, pos, m):
    """Are the numbers listed those of the fields that name the oneof, in order of number?"""
    e = V.e
    what = "a oneof lists the numbers of the fields that name it"
    if got is None or got.tag != "seq" or m is None or m.tag != "map":
        return V.ok(None, st, what, "list not recognised")
    ps = [p for p in got.args[0] if not (p.tag == "win" and st.facts.test(eq0(p.args[2])) is True)]
    if not ps:
        return V.ok(False, st, what, "nothing is listed")
    ls = l.loop(ps[0].args[0]) if len(ps) == 1 and ps[0].tag == "win" else None
    if ls is None or ls[1].init is None or not whole(ps[0]) or m.args[0].tag != "mbase" or m.args[1]:
        return V.ok(None, st, what, "list not recognised: %s" % str(got)[:200])
    L, slot = ls
    i, ok, why = l.over(st, L, maplen(m))
    if ok is not True:
        return V.ok(ok, st, what, why)
    added = dict(slot.added)
    (key, f), _ = l.at(st, m, i)
    for k, b in enumerate(L.backs):
        items = added.get(k)
        if items is None:
            V.ok(None, b, what, "what an iteration adds is not known")
            continue
        for s, is_in in forked(e, b, lambda s: names_oneof(V, s, f, pos)):
            lists = len(items) == 1 and items[0].tag == "lit" and len(items[0].args[0]) == 1
            if is_in is None or items and not lists:
                V.ok(None, s, what, "iteration not recognised")
            elif lists:
                x = items[0].args[0][0]
                V.ok(is_in and any(same(e, s, x, n) for n in numbers(e, s, (key, f))), s, what, "%s is listed for the entry %s" % (str(x)[:200], str(key)[:200]))
            else:
                V.ok(not is_in, s, what, "a field that names the oneof is left out")


def names_oneof(V, st, f, pos):
    e = V.e
    o = fld(e, st, f, "oneof")
    if o is None or e.need_variant(st, o) is None:
        return None
    if vname(e, st, o) == "None":
        return False
    i = refidx(e, st, inner(e, st, o))
    return e.decide(st, eq0(sub(i, pos))) if i is not None else None


def message_inner(V, l, st, b, v):
    e = V.e
    cache = Cache(V.f)
    d = V.f.arg("CacheData")
    full = fld(e, st, d, "full_name") if d is not None else None
    what = "every item declared inside the message is listed, in order"
    if not cache.complete() or full is None or full.tag != "seq":
        return V.ok(None, st, what, "arguments not recognised")

    def ref(s, x, y, i):
        bad = []
        for s1 in cache.sound(s):
            for s2, k in forked(e, s1, lambda t: (e.need_variant(t, y), vname(e, t, y))[1]):
                nm = fld(e, s2, inner(e, s2, y), "name") if k else None
                if nm is None or nm.tag != "seq":
                    return None, "item not recognised"
                key = e.mkseq(list(full.args[0]) + [mk("cst", b".")] + list(nm.args[0]))
                ty, idx = cache.entry(cache.items, key)
                if s2.facts.test(mk("mhas", cache.items, key)) is not True:
                    V.ok(False if mentioned(s2, cache.items) else None, s2, what, "%s is not looked up" % str(key)[:300])
                    continue
                tk = vname(e, s2, ty)
                ri = refidx(e, s2, x)
                xk = vname(e, s2, x)
                want = fld(e, s2, cache.data(s2, tk or "Message", idx), "final_idx")
                V.ok(None if xk is None or tk is None else xk == tk == k, s2, "an item inside a message is referred to by its kind", "%s %s %s" % (xk, tk, k))
                V.ok(None if ri is None else s2.facts.test(eq0(sub(ri, want))) is True or s2.facts.test(eq0(sub(ri, idx))) is True, s2,
                     what, "%s is listed for %s" % (str(ri)[:200], str(key)[:200]))
        return True
    l.seq(st, fld(e, st, v, "inner_types"), fld(e, st, b, "inner_types"), ref, what)


def mentioned(st, m):
    return any((c.args[0] if c.tag == "not" else c).tag == "mhas" and (c.args[0] if c.tag == "not" else c).args[0] is m for c in st.facts.conds())
