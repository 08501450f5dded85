"""Loops and recursion of the abstract interpreter: bounded unrolling, widening with inferred
linear invariants, and merging of the outcomes of varint readers and writers."""
from . import terms as tm
from .terms import T, mk, cval, num, add, sub, scale, addc, I, is_int, ge0, eq0, not_, ZERO, ONE, bits, wrap, INF
from .interp import Budget, Fork, State

UNROLL_BLOCKS = 2500
UNROLL_BACKS = 3


# ---------------------------------------------------------------- recursion structure

def callees(P, inst):
    body = P.body(inst)
    out = set()
    x = P.insts[inst]

    def ty_insts(t, seen):
        if t in seen:
            return
        seen.add(t)
        ty = P.types[t]
        if ty["k"] in ("closure", "fndef") and ty.get("inst") is not None:
            out.add(ty["inst"])
        for k in ("args", "elems", "ups"):
            for a in ty.get(k) or ():
                if isinstance(a, int):
                    ty_insts(a, seen)
    if body is None:
        return out
    seen = set()
    for l in body.locals:
        if P.types[l]["k"] in ("closure", "fndef", "tuple", "ref"):
            ty_insts(l, seen)
    for b in body.blocks:
        t = b["t"]
        if t[0] == "call":
            if t[1] is not None:
                out.add(t[1])
                for a in P.insts[t[1]]["args"]:
                    if isinstance(a, int):
                        ty_insts(a, seen)
    return out


def recursive_insts(P):
    """Instances on a cycle of the call graph that contains a local function."""
    n = len(P.insts)
    succ = [None] * n
    idx, low, on = {}, {}, set()
    stack, out = [], set()
    counter = [0]
    roots = [i for i in range(n) if P.insts[i]["local"]]
    for r in roots:
        if r in idx:
            continue
        work = [(r, None)]
        while work:
            v, it = work.pop()
            if it is None:
                if v in idx:
                    continue
                idx[v] = low[v] = counter[0]
                counter[0] += 1
                stack.append(v)
                on.add(v)
                if succ[v] is None:
                    succ[v] = sorted(callees(P, v))
                it = iter(succ[v])
            done = True
            for w in it:
                if w not in idx:
                    work.append((v, it))
                    work.append((w, None))
                    done = False
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            if not done:
                continue
            for w in succ[v]:
                if w in on:
                    low[v] = min(low[v], low[w])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = stack.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                if len(comp) > 1 or v in succ[v]:
                    if any(P.insts[c]["local"] for c in comp):
                        out |= set(comp)
    return out


# ---------------------------------------------------------------- joining values

class Slot:
    """One place of a loop head that changes from iteration to iteration."""

    def __init__(self, key, kind, head, init, phi, ty=None):
        self.key, self.kind, self.head, self.init, self.phi, self.ty = key, kind, head, init, phi, ty
        self.base = None       # for sequences: the base of the part added by the loop
        self.added = []        # per back edge: the parts (or map operations) appended
        self.dom = None        # for enums: possible variants
        self.vals = {}         # for enums and sequences: the value at each back edge
        self.samekeys = kind == "map"   # for maps: no iteration adds or removes a key

    def __repr__(self):
        return "Slot(%s %s init=%r)" % (self.kind, self.key, self.init)


def strip_prefix(a, b):
    """The parts of b after the prefix a, or None when b does not start with a."""
    b = list(b)
    for p in a:
        if not b:
            return None
        q = b[0]
        if p is q:
            b.pop(0)
            continue
        if p.tag in ("lit", "cst") and q.tag in ("lit", "cst"):
            pa = p.args[0] if p.tag == "lit" else tuple(num(c) for c in p.args[0])
            qa = q.args[0] if q.tag == "lit" else tuple(num(c) for c in q.args[0])
            if len(pa) <= len(qa) and qa[:len(pa)] == pa:
                b.pop(0)
                if len(pa) < len(qa):
                    b.insert(0, mk("lit", qa[len(pa):]))
                continue
            return None
        if p.tag == "win" and q.tag == "win" and p.args[0] is q.args[0] and p.args[1] is q.args[1]:
            n = sub(q.args[2], p.args[2])
            b.pop(0)
            b.insert(0, mk("win", q.args[0], add(q.args[1], p.args[2]), n))
            continue
        return None
    return b


class Head:
    """Builds the general head value of a loop from the values that reach it."""

    def __init__(self, eng, lid, entry):
        self.eng, self.lid, self.entry = eng, lid, entry
        self.slots = {}
        self.changed = False
        self.any = set()
        self.imprecise = False
        self.turn = 0

    # Values are joined place by place; v0 is the entry's value at the same place when known.
    def join(self, st, key, h, b, v0, ty, subst, idx):
        """The head value covering b; records in subst what the phis are for this back edge."""
        eng = self.eng
        s = self.slots.get(key)
        if s is not None and s.head is not None:
            h = s.head
        if h is b and s is None:
            return h
        if s is not None:
            return self.match(st, s, b, subst, idx)
        return self.widen(st, key, h, b, v0, ty, subst, idx)

    def new(self, key, kind, head, init, phi, ty=None):
        s = Slot(key, kind, head, init, phi, ty)
        s.born = self.turn
        self.slots[key] = s
        self.changed = True
        return s

    def phiname(self, key, *more):
        return mk("phi", self.lid, key, *more)

    def match(self, st, s, b, subst, idx):
        eng = self.eng
        if s.kind == "any":
            s.vals[idx] = b
        elif s.kind == "int":
            if not is_int(b):
                if b.tag == "ovf":
                    b = b.args[0]
                else:
                    b = I(mk("unk", eng.uid(), "loop value"))
            subst[s.phi] = b
        elif s.kind == "seq":
            if b.tag != "seq":
                b = eng.mkseq([mk("win", eng.base(b, eng.u8), ZERO, eng.seq_len(b))])
            s.vals[idx] = b
            if s.key not in self.any:
                rest = strip_prefix(s.head.args[0], b.args[0])
                if rest is None and s.born == self.turn and s.init is not None and s.init.tag == "seq":
                    rest = strip_prefix(s.init.args[0], b.args[0])     # an iteration from before the slot was made
                if rest is None:
                    self.any.add(s.key)
                    self.changed = True
                    s.init = None
                    s.head = eng.mkseq([mk("win", s.base, ZERO, I(s.phi))])
                    subst[s.phi] = eng.seq_len(b)
                    return s.head
                s.added.append((idx, tuple(rest)))
                subst[s.phi] = add(I(s.phi), eng.seq_len(eng.mkseq(rest)))
            else:
                rest = strip_prefix(s.head.args[0], b.args[0])
                s.added.append((idx, tuple(rest) if rest is not None else None))
                subst[s.phi] = eng.seq_len(b)
        elif s.kind == "map":
            if b.tag == "map" and b.args[0] is s.head.args[0]:
                s.added.append((idx, b.args[1]))
            elif b.tag == "map":
                s.added.append((idx, None))
        elif s.kind == "enum":
            s.vals[idx] = b
            v = eng.variant_of(st, b) if b.tag in ("agg", "sym") else None
            n = len(eng.P.adts[eng.ty(s.ty)["adt"]]["variants"])
            vs = {v} if v is not None else set(range(n))
            if b.tag == "sym" and v is None:
                dom = st.facts.doms.get(mk("discr", b.args[0]))
                if dom is not None:
                    ds = [x["discr"] for x in eng.P.adts[eng.ty(s.ty)["adt"]]["variants"]]
                    vs = {i for i, d in enumerate(ds) if d in dom}
            if not vs <= s.dom:
                s.dom = s.dom | vs
                self.changed = True
        return s.head

    def int_phi(self, key, v0, ty):
        eng = self.eng
        it = eng.int_ty(ty) if ty is not None else None
        nm = self.phiname(key)
        if it:
            a = mk("int", nm, it[0], it[1])
        else:
            a = mk("rng", nm, -INF, INF)
        return self.new(key, "int", I(a), v0, a, ty)

    def widen(self, st, key, h, b, v0, ty, subst, idx):
        eng = self.eng
        g = h.tag
        if g == "ovf":
            return self.join(st, key, h.args[0], b, v0, ty, subst, idx)
        if b.tag == "ovf":
            b = b.args[0]
        if is_int(h) and is_int(b):
            s = self.int_phi(key, h, ty)
            subst[s.phi] = b
            return s.head
        if g == "agg" and b.tag == "agg" and h.args[1] == b.args[1] and len(h.args[2]) == len(b.args[2]) \
                and (h.args[0] == b.args[0] or h.args[0] < 0 or b.args[0] < 0):
            t = h.args[0] if h.args[0] >= 0 else b.args[0]
            fts = self.field_types(t, h.args[1], len(h.args[2]))
            fs = []
            for i, (x, y) in enumerate(zip(h.args[2], b.args[2])):
                x0 = v0.args[2][i] if v0 is not None and v0.tag == "agg" and len(v0.args[2]) > i else None
                fs.append(self.join(st, key + (i,), x, y, x0, fts[i], subst, idx))
            return mk("agg", t, h.args[1], tuple(fs))
        if g == "agg" and b.tag == "sym" and h.args[0] == b.args[1]:
            e = eng.expand(st, b, h.args[1])
            if e.tag == "agg" and eng.variant_of(st, b) == h.args[1]:
                return self.widen(st, key, h, e, v0, ty, subst, idx)
        if g == "sym" and b.tag == "agg" and h.args[1] == b.args[0]:
            e = eng.expand(st, h)
            if e.tag == "agg" and e.args[1] == b.args[1]:
                return self.widen(st, key, e, b, e, ty, subst, idx)
        if g == "sptr" and b.tag == "sptr" and (h.args[0] != b.args[0] or h.args[1] != b.args[1]) and st.facts.eq(b.args[3], ZERO):
            # An empty slice has no contents: it may as well be the empty end of the other one.
            b = mk("sptr", h.args[0], h.args[1], add(h.args[2], h.args[3]), ZERO)
        if g == "sptr" and b.tag == "sptr" and h.args[0] == b.args[0]:
            p = self.path(st, key, h.args[1], b.args[1], subst, idx)
            if p is not None:
                u = eng.P.find_ty("usize")
                a = self.join(st, key + ("start",), h.args[2], b.args[2], None, u, subst, idx)
                n = self.join(st, key + ("len",), h.args[3], b.args[3], None, u, subst, idx)
                return mk("sptr", h.args[0], p, a, n)
        if g == "ptr" and b.tag == "ptr" and h.args[0] == b.args[0]:
            p = self.path(st, key, h.args[1], b.args[1], subst, idx)
            if p is not None:
                return mk("ptr", h.args[0], p)
        if g == "ptr" and b.tag == "ptr" and h.args[0][0] == b.args[0][0] == "S" and not h.args[1] and not b.args[1] \
                and h.args[0][2] == b.args[0][2]:
            return self.fresh_at(key, ty, h)
        if g == "it" and b.tag == "it" and len(h.args) == len(b.args) and h.args[0] == b.args[0]:
            u = eng.P.find_ty("usize")
            out = [h.args[0]]
            for i, (x, y) in enumerate(zip(h.args[1:], b.args[1:])):
                if x is y or x == y:
                    out.append(x)
                elif isinstance(x, T) and isinstance(y, T):
                    out.append(self.join(st, key + (i,), x, y, None, u if is_int(x) else None, subst, idx))
                else:
                    return self.opaque(key, ty, h, b)
            return mk("it", *out)
        if g == "seq" and b.tag == "seq":
            ety = self.elem_ty(ty, h, b)
            if self.same_shape(h, b) and ety != eng.u8:
                # Only elements were replaced.
                parts = []
                for j, (p, q) in enumerate(zip(h.args[0], b.args[0])):
                    if p is q:
                        parts.append(p)
                        continue
                    p0 = v0.args[0][j] if v0 is not None and v0.tag == "seq" and self.same_shape(v0, h) else None
                    parts.append(mk("lit", tuple(self.join(st, key + (("at", j, k),), x, y, p0.args[0][k] if p0 is not None else None, ety, subst, idx)
                                                 for k, (x, y) in enumerate(zip(p.args[0], q.args[0])))))
                return eng.mkseq(parts)
            if v0 is not None and v0.tag == "seq" and any(k[:len(key)] == key for k in self.slots):
                h = v0
            nm = self.phiname(key)
            base = eng.base(nm, ety)
            n = mk("int", mk("slen", base), "uint", 63)
            rest = strip_prefix(h.args[0], b.args[0])
            s = self.new(key, "seq", None, h, n, ty)
            s.base = base
            if rest is not None:
                s.head = eng.mkseq(list(h.args[0]) + [mk("win", base, ZERO, I(n))])
                subst[n] = eng.seq_len(eng.mkseq(rest))
                s.added.append((idx, tuple(rest)))
            else:
                self.any.add(key)
                s.init = None
                s.head = eng.mkseq([mk("win", base, ZERO, I(n))])
                subst[n] = eng.seq_len(b)
                s.added.append((idx, None))
            eng.phibases[base] = s
            return s.head
        if g == "map" and b.tag == "map":
            nm = self.phiname(key)
            kt, vt = self.map_types(ty, h, b)
            s = self.new(key, "map", mk("map", mk("mbase", nm, kt, vt), ()), h, nm, ty)
            if b.args[0] is h.args[0] and b.args[1][:len(h.args[1])] == h.args[1]:
                s.added.append((idx, b.args[1][len(h.args[1]):]))
            else:
                s.added.append((idx, None))
            eng.phimaps[s.head.args[0]] = s
            return s.head
        if g == "flt" and b.tag == "flt" and h.args[1] == b.args[1]:
            a = self.join(st, key + ("bits",), h.args[0], b.args[0], None, eng.P.find_ty("u%d" % h.args[1]), subst, idx)
            return mk("flt", a, h.args[1])
        if g == "box" and b.tag == "box":
            ra, rb = h.args[0], b.args[0]
            e0 = self.entry.mem.get(ra)
            if ra in self.entry.mem:
                nv = self.join(st, key + ("box",), self.entry.mem[ra], eng.read(st, rb, ()), None, None, subst, idx)
                self.extra_roots[ra] = nv
                return h
            return self.opaque(key, ty, h, b)
        bools = ("b", "bsym", "ge", "eq0", "not", "same", "and", "or")
        if g in bools and b.tag in bools:
            s = self.new(key, "bool", mk("bsym", self.phiname(key)), h, None, ty)
            return s.head
        t = None
        if g == "agg" and h.args[0] >= 0:
            t = h.args[0]
        elif g == "sym":
            t = h.args[1]
        elif b.tag == "agg" and b.args[0] >= 0:
            t = b.args[0]
        elif b.tag == "sym":
            t = b.args[1]
        if t is None:
            t = ty
        if t is not None and eng.ty(t)["k"] == "adt" and eng.P.adts[eng.ty(t)["adt"]]["kind"] == "enum" \
                and g in ("agg", "sym") and b.tag in ("agg", "sym"):
            nm = self.phiname(key)
            v = eng.fresh(nm, t)
            s = self.new(key, "enum", v, h, nm, t)
            s.dom = set()
            self.match(self.entry, s, h, {}, -1)
            self.match(st, s, b, subst, idx)
            return s.head
        if t is not None and g in ("agg", "sym") and b.tag in ("agg", "sym"):
            return self.fresh_at(key, t, h)
        if h.tag == "uninit" or b.tag == "uninit":
            # Not meaningful at the head.
            s = self.new(key, "dead", mk("uninit",), h, None, ty)
            return s.head
        return self.opaque(key, ty, h, b)

    def same_shape(self, a, b):
        """Do two lists differ in some of their (few) known elements only?"""
        if len(a.args[0]) != len(b.args[0]):
            return False
        return all(p is q or p.tag == q.tag == "lit" and len(p.args[0]) == len(q.args[0]) <= 8 for p, q in zip(a.args[0], b.args[0]))

    def fresh_at(self, key, ty, h):
        eng = self.eng
        s = self.new(key, "any", eng.fresh(self.phiname(key), ty), h, None, ty)
        return s.head

    def opaque(self, key, ty, h, b):
        self.imprecise = True
        eng = self.eng
        eng.havocs["join %s/%s" % (h.tag, b.tag)] += 1
        u = mk("unk", eng.uid(), "loop join %s/%s" % (h.tag, b.tag))
        if ty is not None:
            u = eng.fresh(u, ty)
        s = self.new(key, "any", u, h, None, ty)
        return s.head

    def path(self, st, key, a, b, subst, idx):
        if a == b:
            return a
        if len(a) != len(b):
            return None
        out = []
        u = self.eng.P.find_ty("usize")
        for i, (x, y) in enumerate(zip(a, b)):
            if x == y:
                out.append(x)
            elif x[0] == "i" == y[0] and x[2:] == y[2:]:
                out.append(("i", self.join(st, key + ("p", i), x[1], y[1], None, u, subst, idx)) + x[2:])
            else:
                return None
        return tuple(out)

    def field_types(self, t, var, n):
        if t >= 0:
            ty = self.eng.ty(t)
            if ty["k"] == "adt" and ty.get("vf"):
                fs = ty["vf"][var]
                if len(fs) == n:
                    return fs
            if ty["k"] == "tuple":
                return ty["elems"]
            if ty["k"] == "closure":
                return ty["ups"]
        return [None] * n

    def elem_ty(self, ty, h, b):
        if ty is not None:
            e = self.eng.seq_elem(ty)
            if e is not None:
                return e
        for v in (h, b):
            for p in v.args[0]:
                if p.tag == "win":
                    return p.args[0].args[1]
                if p.tag in ("cst", "uv"):
                    return self.eng.u8
                if p.tag == "lit":
                    x = p.args[0][0]
                    if x.tag == "agg":
                        return x.args[0]
                    if x.tag == "sym":
                        return x.args[1]
        return self.eng.u8

    def map_types(self, ty, h, b):
        for v in (h, b):
            if v.args[0].tag == "mbase":
                return v.args[0].args[1], v.args[0].args[2]
        if ty is not None and self.eng.ty(ty)["k"] == "adt":
            a = self.eng.ty(ty)["args"]
            return a[0], a[1]
        u = self.eng.P.find_ty("()")
        return u, u


def subst_term(eng, t, m, memo=None):
    """t with atoms/names replaced; rebuilds normal forms."""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst_term(eng, x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    g = t.tag
    if g == "lin":
        out = num(t.args[0])
        for a, c in t.args[1]:
            x = m.get(a)
            if x is None:
                x = subst_term(eng, a, m, memo)
                x = x if is_int(x) else I(x)
            out = add(out, x, c)
    elif g == "bits":
        out = bits(subst_term(eng, t.args[0], m, memo), t.args[1], t.args[2])
    elif g == "smod":
        out = tm.smod(subst_term(eng, t.args[0], m, memo), t.args[1])
    elif g == "sar":
        out = tm.sar(subst_term(eng, t.args[0], m, memo), t.args[1])
    elif g == "ge":
        out = ge0(subst_term(eng, t.args[0], m, memo))
    elif g == "eq0":
        out = eq0(subst_term(eng, t.args[0], m, memo))
    elif g == "not":
        out = not_(subst_term(eng, t.args[0], m, memo))
    elif g == "seq":
        out = eng.mkseq([subst_term(eng, p, m, memo) for p in t.args[0]])
    elif g == "same":
        out = tm.same(subst_term(eng, t.args[0], m, memo), subst_term(eng, t.args[1], m, memo))
    else:
        args = tuple(subst_term(eng, x, m, memo) for x in t.args)
        out = mk(g, *args) if args != t.args else t
    memo[t] = out
    return out


# ---------------------------------------------------------------- loops

def solve_loop(eng, info, step, st):
    st = st.fork()
    if info.key not in eng.nounroll:
        r = try_unroll(eng, info, step, st)
        if r is not None:
            return r
        eng.nounroll.add(info.key)
    return widen_loop(eng, info, step, st)


def try_unroll(eng, info, step, st):
    mark = (len(eng.obligs), len(eng.loops), len(eng.recs), len(eng.allocs), len(eng.merges))
    checked = eng.checked.copy()
    exits = []
    cur = [st.fork()]
    start = eng.blocks_run
    for it in range(eng.UNROLL + 1):
        nxt = []
        for s in cur:
            b0 = eng.blocks_run
            backs, ex = step(s)
            nxt += backs
            exits += ex
            per = eng.blocks_run - b0
            if nxt and per * eng.UNROLL > UNROLL_BLOCKS and (it or not eng.second_try):
                break
        if not nxt:
            info.unrolled = it + 1
            eng.loops.append(info)
            return finish(eng, info, st, exits)
        if len(nxt) > UNROLL_BACKS or eng.blocks_run - start > UNROLL_BLOCKS or len(exits) > 80 \
                or per * eng.UNROLL > UNROLL_BLOCKS:
            if it or not eng.second_try or len(nxt) > 4:
                break
        cur = nxt
    eng.rollback(mark)
    eng.checked = checked
    return None


def finish(eng, info, st, exits):
    """Merges exits of unrolled loops that only differ in which iteration they left at."""
    groups = {}
    for b, s in exits:
        groups.setdefault(b, []).append(s)
    out = []
    mark = len(eng.merges)
    for b, ss in sorted(groups.items(), key=lambda p: -len(p[1])):
        if len(ss) < 3 and len(eng.merges) > mark:
            ss = [merge_overlong(eng, info, st, s, eng.merges[mark:]) for s in ss]
        if len(ss) >= 3 and info.live is not None:
            live = info.live(b)
            for s in ss:
                for k in [k for k in s.mem if k[0] == "L" and k[1] == info.fid and k[2] not in live]:
                    del s.mem[k]
            ss = merge_states(eng, info, st, ss)
        out += [(b, s) for s in ss]
    return out


def widen_loop(eng, info, step, entry):
    head = Head(eng, info.lid, entry)
    hmem = dict(entry.mem)
    cands = None
    dropped = set()
    mark = (len(eng.obligs), len(eng.loops), len(eng.recs), len(eng.allocs), len(eng.merges))
    checked = eng.checked.copy()
    tries = 0
    last_backs = None
    while True:
        tries += 1
        if tries > 14:
            eng.havocs["loop did not stabilise"] += 1
            info.imprecise = True
        eng.rollback(mark)
        eng.checked = checked.copy()
        # Build the head state.
        h = State(dict(hmem), entry.facts, entry.ev)
        ok = True
        for s in head.slots.values():
            if s.kind == "enum":
                ds = [x["discr"] for x in eng.P.adts[eng.ty(s.ty)["adt"]]["variants"]]
                f = h.facts.with_dom(mk("discr", s.phi), {ds[v] for v in s.dom})
                if f is not None and len(s.dom) == 1:
                    f = f.copy()._add_eq(addc(I(mk("discr", s.phi)), -ds[next(iter(s.dom))]))
                h.facts = f if f is not None else h.facts
        if cands is not None:
            for c in cands:
                f = h.facts.assume(c)
                if f is not None:
                    h.facts = f
            # Invariants are not conditions of a path.
            h.facts = h.facts.copy()
            h.facts.log = entry.facts.log
            h.facts.imp = entry.facts.imp
        if tries > 14:
            cands = []
            head.imprecise = True
            h.facts = h.facts.copy()
            h.facts.imp = True
        hs = h.fork()
        backs, exits = step(h.fork())
        head.changed = False
        head.turn = tries
        for s in head.slots.values():
            s.added = []
            s.vals = {}
        substs = []
        newmem = {}
        head.extra_roots = {}
        roots = list(hmem.keys())
        for bi, b in enumerate(backs):
            sb = {}
            for r in roots:
                hv = newmem.get(r, hmem[r])
                bv = b.mem.get(r)
                if bv is None:
                    if r[0] == "S":
                        continue
                    continue
                if hv is bv and not any_slot(head, r):
                    continue
                nv = head.join(b, (r,), hv, bv, entry.mem.get(r), root_ty(eng, info, r), sb, bi)
                newmem[r] = nv
            # Symbolic memory first touched inside the loop.
            for r in b.mem:
                if r[0] == "S" and r not in hmem:
                    dflt = eng.fresh(mk("deref", r[1]), r[2])
                    if b.mem[r] is not dflt:
                        nv = head.join(b, (r,), dflt, b.mem[r], dflt, r[2], sb, bi)
                        hmem[r] = dflt
                        newmem[r] = nv
            substs.append(sb)
        for s in head.slots.values():
            # A map whose values change keeps its keys, until an iteration adds or removes one.
            if s.kind == "map" and s.samekeys and any(ops is None or any(o.tag != "ins" or len(o.args) < 3 for o in ops)
                                                      for _, ops in s.added):
                s.samekeys = False
                head.changed = True
        newmem.update(head.extra_roots)
        hmem.update(newmem)
        if tries > 16:
            break
        if head.changed:
            # New phis: candidate invariants from their entry values.
            cands = candidates(eng, head, entry, hmem)
            cands = [c for c in cands if c not in dropped]
            continue
        if cands is None:
            cands = []
        keep = filter_cands(eng, head, cands, backs, substs, dropped)
        if len(keep) == len(cands):
            break
        cands = keep
    info.entry, info.head, info.backs, info.exits = entry, hs, backs, exits
    info.slots = list(head.slots.values())
    info.phis = {s.phi: s for s in info.slots if s.phi is not None}
    info.substs = substs
    info.cands = cands
    info.imprecise = info.imprecise or head.imprecise
    quantify(eng, info, exits)
    eng.loops.append(info)
    return exits


class All:
    """For every i with start <= i < stop the conditions of one of the alternatives hold with i for the counter."""

    def __init__(self, eng, counter, start, stop, alts):
        self.eng, self.counter, self.start, self.stop, self.alts = eng, counter, start, stop, alts
        self.els = {}
        for conds in alts:
            for c in conds:
                for t in tm.walk(c):
                    if t.tag == "el" and counter in tm.walk(t.args[1]):
                        self.els[t.args[0]] = sub(t.args[1], I(counter))

    def indices(self, b):
        out = []
        for t in tm.walk(b):
            if t.tag == "el" and t.args[0] in self.els:
                j = sub(t.args[1], self.els[t.args[0]])
                if j not in out:
                    out.append(j)
        return out

    def vacuous(self, f, j):
        return f.test(ge0(sub(j, self.start))) is not True or f.test(ge0(addc(sub(self.stop, j), -1))) is not True

    def at(self, j):
        return [[subst_term(self.eng, c, {self.counter: j}) for c in conds] for conds in self.alts]


def quantify(eng, info, exits):
    """What every completed iteration established, for the states that leave the loop."""
    if info.imprecise or not info.backs or not exits:
        return
    phis = set(info.phis)
    for s in info.slots:
        if s.kind != "int" or s.init is None:
            continue
        if any(sub(sb.get(s.phi, ZERO) if s.phi in sb else ZERO, addc(I(s.phi), 1)) is not ZERO for sb in info.substs):
            continue
        n0 = len(info.entry.facts.conds())
        alts = []
        for b in info.backs:
            cs = set()
            for c in b.facts.conds()[n0:]:
                ats = {t for t in tm.walk(c)}
                if not (phis - {s.phi}) & ats and not tm.imprecise(c):
                    cs.add(c)
            if cs not in alts:
                alts.append(cs)
        alts = [x for x in alts if not any(y < x for y in alts)]
        if len(alts) > 8:
            alts = [set.intersection(*alts)]
        if not any(any(t.tag == "el" and s.phi in tm.walk(t.args[1]) for t in tm.walk(c)) for x in alts for c in x):
            continue
        a = All(eng, s.phi, s.init, I(s.phi), [sorted(x, key=str) for x in sorted(alts, key=lambda x: sorted(map(str, x)))])
        for _, st in exits:
            st.facts = st.facts.copy()
            st.facts.alls = st.facts.alls + (a,)


def any_slot(head, r):
    return any(k[0] == r for k in head.slots)


def root_ty(eng, info, r):
    if r[0] == "S":
        return r[2]
    if r[0] == "L":
        fr = eng.frames.get(r[1])
        if fr is not None:
            return eng.P.body(fr).locals[r[2]]
    if r[0] == "H" and len(r) > 2:
        return r[2]
    return None


def candidates(eng, head, entry, hmem):
    ints = []
    for s in head.slots.values():
        if s.kind == "int":
            ints.append((s.phi, s.init))
        elif s.kind == "seq":
            ints.append((s.phi, ZERO if s.init is not None else None))
    out = []
    rigid = set()

    def lins(v, depth=0):
        if isinstance(v, tuple):
            for x in v:
                lins(x, depth)
            return
        if not isinstance(v, T) or depth > 5:
            return
        if v.tag == "lin":
            if v.args[1] and not any(a in phis for a, _ in v.args[1]):
                rigid.add(v)
            return
        if v.tag in ("agg", "it", "sptr", "seq", "win"):
            for x in v.args:
                lins(x, depth + 1)
    phis = {p for p, _ in ints}
    for r, v in hmem.items():
        if r[0] in ("L", "H"):
            if v.tag in ("agg", "it", "sptr", "seq", "lin"):
                lins(v)
                if v.tag == "seq":
                    n = eng.seq_len(v)
                    lins(n)
    rigid = sorted(rigid, key=lambda x: x.uid)[:24]
    for p, v0 in ints:
        x = I(p)
        if v0 is None:
            continue
        out.append(ge0(sub(x, v0)))
        out.append(ge0(sub(v0, x)))
        out.append(ge0(x))
        for q in rigid:
            if q is not v0:
                out.append(ge0(sub(q, x)))
        for q, w0 in ints:
            if q is p or w0 is None:
                continue
            y = I(q)
            if p.uid < q.uid:
                out.append(eq0(sub(sub(x, v0), sub(y, w0))))
                out.append(eq0(add(sub(x, v0), sub(y, w0))))
            out.append(ge0(sub(x, y)))
    res = []
    for c in dict.fromkeys(out):
        if c is tm.TRUE or c is tm.FALSE:
            continue
        # Must hold on entry.
        m = {p: v0 for p, v0 in ints if v0 is not None}
        e = subst_term(eng, c, m)
        if entry.facts.test(e) is True:
            res.append(c)
    return res


def filter_cands(eng, head, cands, backs, substs, dropped, first=False):
    keep = []
    for c in cands:
        ok = True
        for b, sb in zip(backs, substs):
            e = subst_term(eng, c, sb)
            if e is tm.TRUE:
                continue
            if b.facts.test(e) is not True:
                if first and any(p not in sb for p in atoms_of(c) if p in phiset(head)):
                    continue
                ok = False
                break
        if ok:
            keep.append(c)
        else:
            dropped.add(c)
    return keep


def phiset(head):
    return {s.phi for s in head.slots.values()}


def atoms_of(c):
    out = set()
    for t in tm.walk(c):
        if t.tag in ("int", "rng"):
            out.add(t)
    return out


# ---------------------------------------------------------------- recursion

def solve_recursion(eng, inst, args, st, stack, rt):
    body = eng.P.body(inst)
    args = list(args)
    eng.first_args.setdefault(inst, []).append(list(args))
    gen = {}
    upper = {}
    first = None
    for attempt in range(6):
        mark = (len(eng.obligs), len(eng.loops), len(eng.recs), len(eng.allocs), len(eng.merges))
        checked = eng.checked.copy()
        s = st.fork()
        eng.rec_outer[inst] = list(args)
        outs = eng.call_body(inst, list(args), s, stack)
        inner = [r for r in eng.recs[mark[2]:] if r.inst == inst]
        if first is None:
            # What the inner calls return is unknown, so these are the outcomes for the actual arguments.
            first = outs
            eng.first_loops += eng.loops[mark[1]:]
        changed = False
        facts = st.facts
        for i in range(len(args)):
            a = args[i]
            vals = [r.args[i] for r in inner]
            if all(v is a for v in vals):
                continue
            t = body.locals[i + 1]
            if is_int(a):
                g = gen.get(i)
                his = [r.st.facts.rng(v)[1] for r, v in zip(inner, vals)]
                los = [r.st.facts.rng(v)[0] for r, v in zip(inner, vals)]
                lo0, hi0 = st.facts.rng(g[1] if g else a)
                if g is None:
                    it = eng.int_ty(t)
                    phi = I(mk("int", mk("recarg", eng.P.insts[inst]["name"], i), it[0], it[1]))
                    gen[i] = [phi, a, -INF, INF]
                    args[i] = phi
                    changed = True
                else:
                    # The interval hull of what reaches it.
                    lo, hi = min(los + [lo0]), max(his + [hi0])
                    if (lo, hi) != (g[2], g[3]):
                        if lo > g[2] or hi < g[3]:
                            # Tighten once: only keep it when it is inductive.
                            if not g[4:]:
                                g[2], g[3] = max(lo, g[2]), min(hi, g[3])
                                g.append(True)
                                changed = True
                        else:
                            g[2], g[3] = -INF, INF
                            changed = True
                continue
            if i in gen:
                continue
            if all(covered(eng, st, a, v, t) for v in vals):
                continue
            nm = mk("recarg", eng.P.insts[inst]["name"], i)
            args[i] = eng.fresh(nm, t)
            gen[i] = [args[i], a, -INF, INF]
            changed = True
        if not changed:
            return first
        eng.rollback(mark)
        eng.checked = checked
        st = st.fork()
        st.facts = facts
        for i, g in gen.items():
            if is_int(g[0]):
                for c in ([ge0(addc(g[0], -int(g[2])))] if g[2] != -INF else []) + \
                        ([ge0(addc(scale(g[0], -1), int(g[3])))] if g[3] != INF else []):
                    f = st.facts.assume(c)
                    if f is not None:
                        st.facts = f.copy()
                        st.facts.log = facts.log
    eng.havocs["recursion did not stabilise"] += 1
    return first


def covered(eng, st, a, v, t):
    """Is the inner argument v an instance of the (fully symbolic) outer argument a?"""
    if a is v:
        return True
    if a.tag == "ptr" and a.args[0][0] == "S" and not a.args[1]:
        return True
    if a.tag == "sptr" and a.args[0][0] == "S" and not a.args[1] and a.args[2] is ZERO:
        n = a.args[3]
        return len(n.args[1]) == 1 and n.args[1][0][0].tag == "slen"
    if a.tag == "sym":
        return True
    return False


# ---------------------------------------------------------------- varints

def byte_conds(facts, base, s, k):
    """Do the facts say that byte s+k has (1) / has not (0) its continuation bit?"""
    x = I(mk("byte", base, addc(s, k)))
    lo, hi = facts.rng(x)
    if lo >= 128:
        return 1
    if hi < 128:
        return 0
    lo, hi = facts.rng(bits(x, 7, 1))
    if lo == hi:
        return int(lo)
    return None


def find_bytes(states, slots):
    """Candidate (base, start) of a varint read by the states: the first byte all of them test."""
    from collections import Counter
    c = Counter()
    for st in states:
        seen = set()
        for a in list(st.facts.bounds()):
            if a.tag == "bits" and len(a.args[0].args[1]) == 1:
                a = a.args[0].args[1][0][0]
            if a.tag == "byte":
                seen.add((a.args[0], a.args[1]))
        for a in st.facts.sub:
            if a.tag == "bits" and len(a.args[0].args[1]) == 1:
                a = a.args[0].args[1][0][0]
                if a.tag == "byte":
                    seen.add((a.args[0], a.args[1]))
        for x in seen:
            c[x] += 1
    return c


def read_outcome(facts, base, s):
    """(k, terminated): k bytes with known continuation bits, then an end byte or nothing known."""
    k = 0
    while k < 24:
        r = byte_conds(facts, base, s, k)
        if r == 1:
            k += 1
            continue
        if r == 0:
            return k + 1, True
        return k, False
    return k, False


def raw_varint(base, s, k, style=0):
    x = ZERO
    for i in range(k):
        b = I(mk("byte", base, addc(s, i)))
        if style == 0:
            x = add(x, bits(b, 0, 7), 1 << (7 * i))
            continue
        x = add(x, addc(b, -128) if i < k - 1 else b, 1 << (7 * i))
    return x


def diff_slots(eng, entry, states):
    """[(root, path, [values])] of the places where the states' memories differ."""
    roots = set()
    for s in states:
        roots.update(s.mem)
    out = []
    for r in roots:
        vals = [s.mem.get(r) for s in states]
        if all(v is vals[0] for v in vals):
            continue
        if any(v is None for v in vals):
            if r[0] == "S":
                d = eng.fresh(mk("deref", r[1]), r[2])
                vals = [d if v is None else v for v in vals]
                if all(v is vals[0] for v in vals):
                    continue
            elif r[0] == "H":
                continue
            else:
                return None
        out.append((r, vals))
    return out


def generalise(vals, fn):
    """Joins values leaf by leaf; fn joins integer leaves (and sequences); None when not possible."""
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    vals = [v.args[0] if v.tag == "ovf" else v for v in vals]
    v0 = vals[0]
    if all(is_int(v) for v in vals):
        return fn("int", vals)
    if any(v.tag != v0.tag for v in vals):
        if all(v.tag in ("b", "eq0", "ge", "not", "bsym", "same", "and", "or") for v in vals):
            return fn("bool", vals)
        return None
    if v0.tag in ("b", "eq0", "ge", "not", "bsym", "same", "and", "or"):
        return fn("bool", vals)
    if v0.tag == "seq":
        return fn("seq", vals)
    if v0.tag == "agg":
        if any(v.args[:2] != v0.args[:2] or len(v.args[2]) != len(v0.args[2]) for v in vals):
            return None
        fs = [generalise([v.args[2][i] for v in vals], fn) for i in range(len(v0.args[2]))]
        if any(f is None for f in fs):
            return None
        return mk("agg", v0.args[0], v0.args[1], tuple(fs))
    if v0.tag == "sptr":
        if any(v.args[:2] != v0.args[:2] for v in vals):
            return None
        a = generalise([v.args[2] for v in vals], fn)
        b = generalise([v.args[3] for v in vals], fn)
        if a is None or b is None:
            return None
        return mk("sptr", v0.args[0], v0.args[1], a, b)
    if v0.tag == "flt":
        a = generalise([v.args[0] for v in vals], fn)
        return None if a is None or v0.args[1] != vals[0].args[1] else mk("flt", a, v0.args[1])
    if v0.tag == "it" and all(len(v.args) == len(v0.args) for v in vals):
        out = []
        for i in range(len(v0.args)):
            xs = [v.args[i] for v in vals]
            if all(x is xs[0] or x == xs[0] for x in xs):
                out.append(xs[0])
            elif all(isinstance(x, T) for x in xs):
                g = generalise(xs, fn)
                if g is None:
                    return None
                out.append(g)
            else:
                return None
        return mk("it", *out)
    return None


def merge_states(eng, info, entry, states):
    """Merges the exits of an unrolled loop when they are the outcomes of a varint operation."""
    r = merge_reader(eng, info, entry, states)
    if r is None:
        r = merge_writer(eng, info, entry, states, True)
    return states if r is None else r


class Site:
    def __init__(self, x):
        self.fn = x["name"]
        self.site = "return of " + x["name"]


def merge_returns(eng, x, entry, res):
    """Merges what a function returns when it is the outcomes of writing a varint."""
    states = []
    for s, v in res:
        q = s.fork()
        q.mem[("R",)] = v
        states.append(q)
    r = merge_writer(eng, Site(x), entry, states)
    if r is None:
        return res
    out = []
    for s in r:
        out.append((s, s.mem.pop(("R",))))
    return out


def merge_reader(eng, info, entry, states):
    c = find_bytes(states, None)
    best = None
    for (base, s), n in c.items():
        if n < 3:
            continue
        outs = [(st,) + read_outcome(st.facts, base, s) for st in states]
        score = sum(1 for _, k, t in outs if k > 0)
        if best is None or score > best[0]:
            best = (score, base, s, outs)
    if best is None or best[0] < max(3, len(states) - 2):
        return None
    _, base, s, outs = best
    done = {}
    rest = []
    for st, k, term in outs:
        if term:
            done.setdefault(k, []).append(st)
        else:
            rest.append((k, st))
    res = []
    good = None
    if done and len(done) >= 3 and all(len(v) == 1 for v in done.values()):
        good = merge_done(eng, info, entry, base, s, done)
    if good is not None:
        res.append(good)
    else:
        res += [st for v in done.values() for st in v]
    # The outcomes without an end byte.
    if rest:
        g = merge_rest(eng, info, entry, base, s, rest)
        res += [g] if g is not None else [st for _, st in rest]
    return res


def uvar(base, s):
    return mk("int", mk("uvar", base, s), "uint", 64)


def ulen(base, s):
    return mk("rng", mk("ulen", base, s), 1, 10)


def merge_done(eng, info, entry, base, s, done):
    ks = sorted(done)
    states = [done[k][0] for k in ks]
    ds = diff_slots(eng, entry, states)
    if ds is None:
        return None
    full = ks == list(range(1, 11))
    rec = {"kind": "read", "base": base, "start": s, "lens": ks, "ok": full, "fn": info.fn, "site": info.site, "why": None}
    uv, ul = I(uvar(base, s)), I(ulen(base, s))
    # The slice the bytes come from must contain them.

    def fn(kind, vals):
        if kind == "int":
            vs = [st.facts.norm(v) for st, v in zip(states, vals)]
            if all(v is vs[0] for v in vs):
                return vs[0]
            # Position after the varint.
            d = sub(vs[0], num(ks[0]))
            if all(sub(v, num(k)) is d or st.facts.eq(sub(v, num(k)), d) for st, v, k in zip(states, vs, ks)):
                return add(d, ul)
            # Remaining length.
            d = add(vs[0], num(ks[0]))
            if all(add(v, num(k)) is d or st.facts.eq(add(v, num(k)), d) for st, v, k in zip(states, vs, ks)):
                return sub(d, ul)
            for kk, n in (("uint", 64), ("uint", 32), ("int", 64), ("int", 32), ("uint", 128)):
                ok = True
                for st, v, k in zip(states, vs, ks):
                    for style in (0, 1):
                        ref = st.facts.norm(wrap(wrap(raw_varint(base, s, k, style), "uint", 64, st.facts.env), kk, n, st.facts.env))
                        if v is ref or st.facts.eq(v, ref):
                            break
                    else:
                        ok = False
                        break
                if ok:
                    return wrap(uv, kk, n)
            rec["ok"] = False
            rec["why"] = "the value is not the varint's value"
            rec["vals"] = vs
            return I(mk("rng", mk("vcase", info.site, tuple(vs)), *hull(states, vs)))
        if kind == "bool":
            return None
        return None
    mem = dict(states[0].mem)
    for r, vals in ds:
        g = generalise(vals, fn)
        if g is None:
            return None
        mem[r] = g
    f = entry.facts.copy()
    f.log = entry.facts.log
    lim = eng_limit(eng, base)
    f = f._add(mk("lebok", base, s), True)
    # All the bytes it spans were checked to be in bounds.
    bound = common_bound(states, ks, entry)
    for x in bound:
        f2 = f.assume(ge0(sub(x, ul)))
        f = f2 if f2 is not None else f
    f = f.copy()
    f.log = (mk("lebok", base, s), entry.facts.log)
    eng.merges.append(rec)
    out = State(mem, f, states[0].ev)
    return out


def hull(states, vs):
    rs = [st.facts.rng(v) for st, v in zip(states, vs)]
    return min(r[0] for r in rs), max(r[1] for r in rs)


def eng_limit(eng, base):
    return None


def common_bound(states, ks, entry):
    """Lengths x with k <= x known in every outcome of length k, from the entry's point of view."""
    cands = {}
    for st in states:
        for g in st.facts.ges:
            for a, c in g.args[1]:
                if a.tag in ("slen", "int", "rng") and c == 1:
                    cands[a] = I(a)
    # Lengths in memory.
    for r, v in entry.mem.items():
        if r[0] in ("L", "S", "H") and v.tag == "sptr":
            cands[v.args[3]] = v.args[3]
        if r[0] in ("L", "S", "H") and v.tag == "it" and v.args[0] == "slice":
            cands[v.args[5]] = sub(v.args[5], v.args[4])
    out = []
    for x in cands.values():
        if cval(x) is not None:
            continue
        if all(st.facts.entails_ge(sub(x, num(k))) for st, k in zip(states, ks)):
            out.append(x)
    return out


def merge_rest(eng, info, entry, base, s, rest):
    rest.sort(key=lambda p: p[0])
    states = [st for _, st in rest]
    if len(states) < 2:
        st = states[0]
        return None
    ds = diff_slots(eng, entry, states)
    if ds is None:
        return None
    rec = {"kind": "noread", "base": base, "start": s, "ok": True, "fn": info.fn, "site": info.site, "why": None,
           "outs": [(k, st) for k, st in rest]}

    def fn(kind, vals):
        if kind == "int":
            return I(mk("rng", mk("ncase", info.site, tuple(vals)), *hull(states, vals)))
        return None
    mem = dict(states[0].mem)
    for r, vals in ds:
        g = generalise(vals, fn)
        if g is None:
            return None
        mem[r] = g
    f = entry.facts.copy()._add(mk("lebok", base, s), False)
    # Emptiness is the common knowledge callers may rely on.
    f.log = (not_(mk("lebok", base, s)), entry.facts.log)
    eng.merges.append(rec)
    return State(mem, f, states[0].ev)


def merge_overlong(eng, info, entry, st, recs):
    """An exit of a varint reader after ten bytes that all have their continuation bit."""
    for rec in recs:
        if rec["kind"] in ("read", "noread"):
            k, term = read_outcome(st.facts, rec["base"], rec["start"])
            if k >= 10 and not term:
                f = entry.facts.copy()._add(mk("lebok", rec["base"], rec["start"]), False)
                f.log = (not_(mk("lebok", rec["base"], rec["start"])), entry.facts.log)
                eng.merges.append({"kind": "noread", "base": rec["base"], "start": rec["start"], "ok": True, "fn": info.fn,
                                   "site": info.site, "why": None, "outs": [(k, st)]})
                return State(st.mem, f, st.ev)
    return st


def merge_writer(eng, info, entry, states, loop=False):
    """Outcomes k = 1.. of writing a value in groups of seven bits."""
    ds = diff_slots(eng, entry, states)
    if not ds or len(states) < 3:
        return None
    X = None
    seqs = None
    for r, vals in ds:
        for path, vs in seq_leaves(vals):
            pre, tails = written(states, vs)
            if tails is None or len({len(t) for t in tails}) != len(tails):
                continue
            X = writer_value(states, tails)
            if X is not None:
                seqs = tails
                break
        if X is not None:
            break
    if X is None:
        return None
    order = sorted(range(len(states)), key=lambda i: len(seqs[i]))
    states = [states[i] for i in order]
    seqs = [seqs[i] for i in order]
    lo, hi = entry.facts.rng(X)
    nbits = int(hi).bit_length() if hi != INF else 128
    kmax = max((nbits + 6) // 7, 1)
    rec = {"kind": "write", "value": X, "ok": True, "fn": info.fn, "site": info.site, "why": None, "lens": [len(q) for q in seqs], "ne": None}
    if [len(q) for q in seqs] != list(range(1, kmax + 1)) or lo < 0:
        rec["ok"] = False
        rec["why"] = "lengths %s of a value of %d bits" % ([len(q) for q in seqs], nbits)
    uv = mk("uv", X)

    def fn(kind, vals):
        vals = [vals[i] for i in order]
        if kind == "seq":
            pre, flat = written(states, vals)
            bad = mk("win", eng.base(mk("wcase", info.site, X), eng.u8), ZERO,
                     I(mk("rng", mk("slen", mk("wcase", info.site, X)), 1, 19)))
            if flat is None:
                rec["ok"] = False
                rec["why"] = "another sequence"
                return eng.mkseq([bad])
            for k, (q, st) in enumerate(zip(flat, states)):
                n = len(q)
                if n != len(seqs[k]):
                    rec["ok"] = False
                    rec["why"] = "another sequence"
                    return eng.mkseq(list(pre) + [bad])
                for i in range(n):
                    ref = bits(X, 7 * i, 7, st.facts.env)
                    ref = st.facts.norm(addc(ref, 128) if i < n - 1 else ref)
                    same = q[i] is ref or st.facts.eq(q[i], ref)
                    if not same and i == n - 1:
                        # Nothing above the last group: more of it is the same value.
                        rest = bits(X, 7 * i, max(nbits - 7 * i, 0), st.facts.env)
                        same = st.facts.rng(rest)[1] <= 127 and any(
                            st.facts.eq(q[i], bits(X, 7 * i, w, st.facts.env)) for w in (8, 16, 32, 64, max(nbits - 7 * i, 7)))
                    if not same:
                        rec["ok"] = False
                        rec["why"] = "byte %d of %d" % (i, n)
                        if differs(st.facts, q[i], ref):
                            rec["ne"] = rec["why"] + " is not the group of seven bits it should be"
                # The value must need exactly n groups.
                l, h = st.facts.rng(X)
                up = bits(X, 7 * n, max(nbits - 7 * n, 0), st.facts.env)
                low = bits(X, 7 * (n - 1), max(nbits - 7 * (n - 1), 0), st.facts.env)
                prev = bits(X, 7 * (n - 2), max(nbits - 7 * (n - 2), 0), st.facts.env) if n > 1 else None
                if n > 1 and l < (1 << (7 * (n - 1))) and st.facts.rng(low)[0] < 1 and st.facts.rng(prev)[0] < 128:
                    rec["ok"] = False
                    rec["why"] = "length %d for values in %s..%s" % (n, l, h)
                    if differs(st.facts, low, None):
                        rec["ne"] = "%d bytes are written for a value that needs fewer" % n
                if h >= (1 << (7 * n)) and st.facts.rng(up)[1] > 0 and st.facts.rng(low)[1] > 127:
                    rec["ok"] = False
                    rec["why"] = "length %d for values in %s..%s" % (n, l, h)
                    if differs(st.facts, up, ZERO):
                        rec["ne"] = "only %d bytes are written for a value that needs more" % n
            return eng.mkseq(list(pre) + [uv if rec["ok"] else bad])
        if kind == "int":
            vs = [st.facts.norm(v) for st, v in zip(states, vals)]
            d = sub(vs[0], num(len(seqs[0])))
            if all(sub(v, num(len(q))) is d for v, q in zip(vs, seqs)):
                return add(d, I(mk("uvlen", X)))
            return I(mk("rng", mk("wcase", info.site, tuple(vs)), *hull(states, vs)))
        return None
    mem = dict(states[0].mem)
    for r, vals in ds:
        g = generalise(vals, fn)
        if g is None:
            return None
        mem[r] = g
    if loop and not rec["ok"]:
        # Perhaps the last group is written after the loop: look again where the function returns.
        return None
    f = entry.facts.copy()
    f.log = entry.facts.log
    eng.merges.append(rec)
    return [State(mem, f, states[0].ev)]


def differs(facts, a, b):
    """Some valuation the facts allow makes a and b differ (b None: makes a zero)."""
    from . import compare
    if b is not None:
        return compare.cmp_int(facts, a, b) == compare.NE
    vs = set()
    compare.leaves(a, vs)
    if facts.imp or not all(compare.known_leaf(x) for x in vs):
        return False
    try:
        return any(compare.ev(a, env) == 0 for env in compare.samples(facts, vs, None))
    except compare.Unevaluable:
        return False


def written(states, vals):
    """What the outcomes share at the front, and the bytes each of them adds."""
    flat = []
    for v in vals:
        out = []
        for p in v.args[0]:
            if p.tag == "lit":
                out += list(p.args[0])
            elif p.tag == "cst":
                out += [num(b) for b in p.args[0]]
            else:
                out.append(p)
        flat.append(out)
    n = 0
    while all(len(x) > n for x in flat) and all(x[n] is flat[0][n] for x in flat):
        n += 1
    tails = []
    for x, st in zip(flat, states):
        t = x[n:]
        if any(not is_int(b) for b in t):
            return (), None
        tails.append([st.facts.norm(b) for b in t])
    pre = []
    for p in flat[0][:n]:
        pre.append(mk("lit", (p,)) if p.tag not in ("win", "uv", "cst") and p.tag not in SEQ_PARTS else p)
    return tuple(pre), tails


SEQ_PARTS = {"win", "uv", "cst", "lit", "rep", "part"}


def seq_leaves(vals, path=()):
    v0 = vals[0]
    if all(v.tag == "seq" for v in vals):
        yield path, vals
        return
    if v0.tag == "agg" and all(v.tag == "agg" and v.args[:2] == v0.args[:2] and len(v.args[2]) == len(v0.args[2]) for v in vals):
        for i in range(len(v0.args[2])):
            for x in seq_leaves([v.args[2][i] for v in vals], path + (i,)):
                yield x


def flat_bytes(v):
    out = []
    for p in v.args[0]:
        if p.tag == "lit":
            out += list(p.args[0])
        elif p.tag == "cst":
            out += [num(b) for b in p.args[0]]
        else:
            return None
    return out


def writer_value(states, tails):
    """The value X whose groups of seven bits the longest output consists of,
    as a value that is not negative."""
    if any(t is None or not t for t in tails):
        return None
    big = max(range(len(tails)), key=lambda i: len(tails[i]))
    st, out = states[big], tails[big]
    if len(out) < 3 or not is_int(out[0]):
        return None
    cands = []
    for c in st.facts.conds():
        for a in iter_bits(c):
            if a.args[1] % 7 == 0 and a.args[1]:
                w = a.args[1] + a.args[2]
                if (a.args[0], w) not in cands:
                    cands.append((a.args[0], w))
    for a, c in out[0].args[1]:
        if c == 1 and a.tag == "bits" and a.args[1] == 0:
            if a.args[2] < 7:
                return None
            cands += [(a.args[0], 64), (a.args[0], 32)]
    best = None
    for y, w in cands:
        if st.facts.rng(y)[0] < 0:
            y = bits(y, 0, w, st.facts.env)
        n = 0
        for i, b in enumerate(out):
            if not is_int(b):
                break
            ref = bits(y, 7 * i, 7, st.facts.env)
            if i < len(out) - 1:
                ref = addc(ref, 128)
            ref = st.facts.norm(ref)
            if ref is not b and not st.facts.eq(ref, b):
                break
            n += 1
        if n and (best is None or n > best[0]):
            best = (n, y)
    return best and best[1]


def iter_bits(c):
    if c.tag == "bits":
        yield c
    for x in c.args:
        if isinstance(x, T):
            for y in iter_bits(x):
                yield y
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    for z in iter_bits(y):
                        yield z
                elif isinstance(y, tuple):
                    for u in y:
                        if isinstance(u, T):
                            for z in iter_bits(u):
                                yield z
