"""Abstract interpreter over the dumped MIR.

The domain is relational value numbering: every value is a hash-consed term over symbolic inputs,
integers carry linear constraints (facts.py), byte strings and vectors are concatenations of
literals and windows into symbolic sequences.  Control-flow paths are kept apart within one
function (trace partitioning); loops are either unrolled when their bound is small or solved by
widening the loop head to fresh symbols with inferred linear invariants, so one pass covers every
iteration; recursion is cut at the second entry, with the parameters widened the same way.
"""
import sys, time, re
from collections import Counter
from . import terms as tm
from .terms import (T, mk, cval, num, add, sub, scale, addc, I, is_int, ge0, eq0, not_, same, TRUE, FALSE, ZERO, ONE,
                    wrap, bits, INF)
from .facts import Facts

sys.setrecursionlimit(20000)


class Fork(Exception):
    """A value depends on an undecided condition: redo the step under both assumptions."""

    def __init__(self, cond):
        self.cond = cond


class Budget(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "ev")

    def __init__(self, mem=None, facts=None, ev=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else Facts()
        self.ev = ev

    def fork(self):
        return State(dict(self.mem), self.facts, self.ev)

    def assume(self, cond):
        """This state with cond assumed, or None (no copy of the memory)."""
        f = self.facts.assume(cond)
        if f is None:
            return None
        return State(self.mem, f, self.ev)

    def events(self):
        out, l = [], self.ev
        while l is not None:
            out.append(l[0])
            l = l[1]
        out.reverse()
        return out

    def event(self, *e):
        self.ev = (e, self.ev)


class Frame:
    __slots__ = ("fid", "inst", "body", "stack", "blk")

    def __init__(self, fid, inst, body, stack):
        self.fid, self.inst, self.body, self.stack = fid, inst, body, stack
        self.blk = 0

    def root(self, l):
        return ("L", self.fid, l)


class LoopInfo:
    """The solved abstract loop: head state, what one iteration does, and how it leaves."""

    def __init__(self, lid, fn, site, stack):
        self.lid, self.fn, self.site, self.stack = lid, fn, site, stack
        self.entry = None      # state before the loop
        self.head = None       # the general head state
        self.slots = []        # dicts: where, kind, phi, init
        self.backs = []        # states at the end of an iteration
        self.substs = []       # for each of them, what the loop's variables become
        self.exits = []
        self.unrolled = None
        self.imprecise = False
        self.phis = {}         # phi term -> slot
        self.key = None
        self.live = None
        self.fid = None

    def __repr__(self):
        return "Loop(%s %s)" % (self.lid, self.fn)


class RecInfo:
    def __init__(self, inst, args, outer, st, stack, site):
        self.inst, self.args, self.outer, self.st, self.stack, self.site = inst, args, outer, st, stack, site


class Oblig:
    """Something that must hold at a program point and was not proved there."""

    def __init__(self, kind, fn, site, detail, st, stack):
        self.kind, self.fn, self.site, self.detail, self.st, self.stack = kind, fn, site, detail, st, stack

    @property
    def imprecise(self):
        return self.st.facts.imp

    def key(self):
        return "%s|%s|%s" % (self.fn, self.kind, self.detail)

    def path(self):
        return [c for c in self.st.facts.conds()]


def sym_name(*a):
    return mk("nm", *a)


class Engine:
    UNROLL = 24

    def __init__(self, P, models=None):
        self.P = P
        from . import models as m
        self.m = m
        from . import solve
        self.s = solve
        self.next = 0
        self.obligs = []
        self.checked = Counter()      # (fn, site, kind) -> times proved or recorded
        self.loops = []
        self.recs = []
        self.first_loops = []      # loops of the first pass over a recursive function, with the actual arguments
        self.unmodelled = Counter()
        self.havocs = Counter()
        self.calls_seen = Counter()
        self.blocks_run = 0
        self.max_blocks = 3_000_000
        self.allocs = []
        self.first_args = {}
        self.merges = []
        self.symty = {}
        self.call_hook = None
        self.second_try = False  # loops that may end after one long iteration
        self.index_axioms = []
        self.boundary_hooks = []
        self.head_hooks = []
        self.parse_hooks = []
        self.phibases = {}
        self.phimaps = {}
        self.frames = {}
        self.nounroll = set()
        self.fns = set()
        self.keymap = {}
        self.rec_outer = {}
        self.rec_ret = {}
        self.scc = None
        self.axioms = []
        self.loop_merge = True
        self.collect_allocs = True
        self.deadline = None

    # ------------------------------------------------------------ names, types
    def uid(self):
        self.next += 1
        return self.next

    def ty(self, t):
        return self.P.types[t]

    def kind(self, t):
        return self.P.types[t]["k"]

    def adt_name(self, t):
        ty = self.P.types[t]
        return ty["adt"] if ty["k"] == "adt" else None

    def unk(self, ty, why=""):
        """A value the analysis knows nothing about."""
        self.havocs[why] += 1
        return self.fresh(mk("unk", self.uid(), why), ty)

    SEQ_ADTS = {"std::vec::Vec": 0, "std::string::String": None, "bytes::Bytes": None, "bytes::BytesMut": None}
    MAP_ADTS = {"std::collections::BTreeMap", "std::collections::HashMap"}

    def seq_elem(self, t):
        """Element type id when values of type t are sequences, else None."""
        ty = self.P.types[t]
        k = ty["k"]
        if k in ("array", "slice"):
            return ty["elem"]
        if k == "str":
            return self.u8
        if k == "adt":
            a = ty["adt"]
            if a == "std::vec::Vec":
                return ty["args"][0]
            if a in ("std::string::String", "bytes::Bytes", "bytes::BytesMut"):
                return self.u8
        return None

    @property
    def u8(self):
        r = self.__dict__.get("_u8")
        if r is None:
            r = self._u8 = self.P.find_ty("u8")
        return r

    def fresh(self, name, t):
        """The symbolic value called name of type t."""
        ty = self.P.types[t]
        k = ty["k"]
        if k == "bool":
            return mk("bsym", name)
        if k in ("int", "uint"):
            return I(mk("int", name, k, ty["bits"]))
        if k == "char":
            return I(mk("rng", name, 0, 0x10FFFF))
        if k == "float":
            return mk("flt", I(mk("int", name, "uint", ty["bits"])), ty["bits"])
        if k in ("ref", "ptr"):
            to = ty["to"]
            tk = self.kind(to)
            root = ("S", name, to)
            if tk in ("slice", "str"):
                base = self.base(mk("deref", name), self.seq_elem(to))
                return mk("sptr", root, (), ZERO, I(mk("slen", base)))
            return mk("ptr", root, ())
        e = self.seq_elem(t)
        if e is not None:
            base = self.base(name, e)
            n = num(ty["len"]) if k == "array" and ty["len"] is not None else I(mk("slen", base))
            return self.mkseq([mk("win", base, ZERO, n)])
        if k == "tuple":
            return mk("agg", t, 0, tuple(self.fresh(mk("fld", name, 0, i), x) for i, x in enumerate(ty["elems"])))
        if k == "closure":
            return mk("agg", t, 0, tuple(self.fresh(mk("fld", name, 0, i), x) for i, x in enumerate(ty["ups"])))
        if k == "adt":
            if ty["adt"] in self.MAP_ADTS:
                return mk("map", mk("mbase", name, ty["args"][0], ty["args"][1]), ())
            a = self.P.adts.get(ty["adt"])
            if a and a["box"]:
                return mk("box", ("S", mk("boxed", name), ty["args"][0]))
            if ty["adt"] in ("pest::iterators::Pair", "pest::iterators::Pairs"):
                return mk("sym", name, t)
            if a and a["kind"] == "struct" and not ty["vf"][0]:
                return mk("agg", t, 0, ())
            if a and a["kind"] == "enum" and len(a["variants"]) == 1 and not ty["vf"][0]:
                return mk("agg", t, 0, ())
        if k == "fndef":
            return mk("fn", t)
        self.symty[name] = t
        return mk("sym", name, t)

    def base(self, name, elem):
        return mk("base", name, elem)

    # ------------------------------------------------------------ sequences
    def mkseq(self, parts):
        out = []
        for p in parts:
            g = p.tag
            if g == "cst":
                if not p.args[0]:
                    continue
                if out and out[-1].tag == "cst":
                    out[-1] = mk("cst", out[-1].args[0] + p.args[0])
                    continue
            elif g == "lit":
                if not p.args[0]:
                    continue
                if out and out[-1].tag == "lit":
                    out[-1] = mk("lit", out[-1].args[0] + p.args[0])
                    continue
            elif g == "win":
                if p.args[2] is ZERO:
                    continue
                if out and out[-1].tag == "win" and out[-1].args[0] is p.args[0] \
                        and add(out[-1].args[1], out[-1].args[2]) is p.args[1]:
                    q = out[-1]
                    out[-1] = mk("win", q.args[0], q.args[1], add(q.args[2], p.args[2]))
                    continue
            out.append(p)
        return mk("seq", tuple(out))

    def part_len(self, p):
        g = p.tag
        if g in ("cst", "lit"):
            return num(len(p.args[0]))
        if g == "win":
            return p.args[2]
        if g == "uv":
            return I(mk("uvlen", p.args[0]))
        return I(mk("slen", p))

    def seq_len(self, s):
        if s.tag == "seq":
            n = ZERO
            for p in s.args[0]:
                n = add(n, self.part_len(p))
            return n
        return I(mk("slen", s))

    def elem(self, base, idx):
        """Element idx of a symbolic sequence."""
        ety = base.args[1]
        if base.args[0].tag == "cstb":
            c = cval(idx)
            if c is not None and 0 <= c < len(base.args[0].args[0]):
                return num(base.args[0].args[0][c])
        if self.P.types[ety]["s"] == "u8":
            return I(mk("byte", base, idx))
        return self.fresh(mk("el", base, idx), ety)

    def decide(self, st, cond):
        r = st.facts.test(cond)
        if r is None:
            raise Fork(cond)
        return r

    def elem_at(self, st, s, idx, ety=None):
        if s.tag != "seq":
            return self.unk(ety if ety is not None else self.u8, "element of an unknown sequence")
        off = ZERO
        parts = s.args[0]
        for k, p in enumerate(parts):
            n = self.part_len(p)
            rel = sub(idx, off)
            if k + 1 < len(parts) and not self.decide(st, ge0(addc(sub(n, rel), -1))):
                off = add(off, n)
                continue
            c = cval(st.facts.norm(rel))
            if p.tag == "cst":
                if c is not None and 0 <= c < len(p.args[0]):
                    return num(p.args[0][c])
                return I(mk("byte", self.base(mk("cstb", p.args[0]), self.u8), rel))
            if p.tag == "lit":
                if c is not None:
                    if 0 <= c < len(p.args[0]):
                        return p.args[0][c]
                    return self.unk(ety if ety is not None else self.u8, "index out of range")
                for i in range(len(p.args[0]) - 1):
                    if self.decide(st, eq0(addc(rel, -i))):
                        return p.args[0][i]
                return p.args[0][-1]
            if p.tag == "win":
                return self.elem(p.args[0], add(p.args[1], rel))
            return self.elem(self.base(p, ety if ety is not None else self.u8), rel)
        return self.unk(ety if ety is not None else self.u8, "element of an empty sequence")

    def split_seq(self, st, s, at):
        """(s[..at], s[at..]); at must be within the sequence."""
        if s.tag != "seq":
            s = self.mkseq([mk("win", self.base(s, self.u8), ZERO, self.seq_len(s))])
        off = ZERO
        left = []
        parts = list(s.args[0])
        for k, p in enumerate(parts):
            n = self.part_len(p)
            rel = st.facts.norm(sub(at, off))
            below, over = ge0(scale(rel, -1)), ge0(sub(rel, n))
            soft = p.tag == "win"
            if rel is ZERO or (st.facts.test(below) if soft else self.decide(st, below)):
                return self.mkseq(left), self.mkseq(parts[k:])
            if st.facts.test(over) if soft and k + 1 == len(parts) else self.decide(st, over):
                left.append(p)
                off = add(off, n)
                continue
            c = cval(rel)
            if p.tag == "win":
                a = mk("win", p.args[0], p.args[1], rel)
                b = mk("win", p.args[0], add(p.args[1], rel), sub(n, rel))
            elif p.tag in ("cst", "lit"):
                if c is None:
                    for i in range(1, len(p.args[0])):
                        if i + 1 == len(p.args[0]) or self.decide(st, eq0(addc(rel, -i))):
                            c = i
                            break
                a = mk(p.tag, p.args[0][:c])
                b = mk(p.tag, p.args[0][c:])
            else:
                bs = self.base(p, self.u8)
                a = mk("win", bs, ZERO, rel)
                b = mk("win", bs, rel, sub(n, rel))
            return self.mkseq(left + [a]), self.mkseq([b] + parts[k + 1:])
        return self.mkseq(left), self.mkseq([])

    def sub_seq(self, st, s, start, length):
        _, r = self.split_seq(st, s, start)
        a, _ = self.split_seq(st, r, length)
        return a

    def content(self, st, v):
        """The sequence a slice pointer (or pointer to a sequence) refers to."""
        if v.tag == "sptr":
            root, path, start, n = v.args
            s = self.read(st, root, path)
            if s.tag != "seq":
                s = self.mkseq([mk("win", self.base(s, self.u8), ZERO, self.seq_len(s))])
            full = self.seq_len(s)
            if start is ZERO and n is full:
                return s
            return self.sub_seq(st, s, start, n)
        if v.tag == "ptr":
            return self.read(st, v.args[0], v.args[1])
        if v.tag == "box":
            return self.read(st, v.args[0], ())
        return v

    # ------------------------------------------------------------ memory
    def load_root(self, st, root):
        if root[0] == "K":
            return root[1]
        v = st.mem.get(root)
        if v is None:
            if root[0] == "S":
                v = self.fresh(mk("deref", root[1]), root[2])
            elif root[0] == "L":
                v = mk("uninit",)
            else:
                v = mk("uninit",)
            if root[0] == "S":
                st.mem[root] = v
        return v

    def read(self, st, root, path):
        v = self.load_root(st, root)
        for p in path:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        g = v.tag
        if p[0] == "f":
            _, var, i, ty = p
            if g == "agg":
                f = v.args[2]
                if i < len(f):
                    return f[i]
                return self.unk(ty, "field of another variant")
            if g == "sym":
                return self.fresh(mk("fld", v.args[0], var if var is not None else 0, i), ty)
            if g in ("box", "ptr", "sptr"):
                return v      # the pointer inside Box, Unique, NonNull
            if g == "fn":
                return mk("agg", ty, 0, ())
            return self.unk(ty, "field of " + g)
        if p[0] == "i":
            return self.elem_at(st, v, p[1], p[2] if len(p) > 2 else None)
        if p[0] == "k":
            if v.tag != "map":
                return self.unk(p[2], "map value")
            return self.m.map_val(self, st, v, p[1], p[2])
        raise AssertionError(p)

    def write(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        st.mem[root] = self._upd(st, self.load_root(st, root), path, val)

    def _upd(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if p[0] == "f":
            _, var, i, ty = p
            if v.tag == "sym":
                v = self.expand(st, v, var)
            if v.tag == "uninit":
                n = i + 1
                fs = [mk("uninit",)] * n
                fs[i] = self._upd(st, mk("uninit",), path[1:], val)
                return mk("agg", -1, var or 0, tuple(fs))
            if v.tag in ("box", "ptr", "sptr"):
                return self._upd(st, v, path[1:], val)
            if v.tag != "agg":
                return mk("unk", self.uid(), "write into " + v.tag)
            fs = list(v.args[2])
            while len(fs) <= i:
                fs.append(mk("uninit",))
            fs[i] = self._upd(st, fs[i], path[1:], val)
            return mk("agg", v.args[0], v.args[1] if var is None else var, tuple(fs))
        if p[0] == "i":
            if v.tag != "seq":
                return mk("unk", self.uid(), "write into " + v.tag)
            old = self.elem_at(st, v, p[1], p[2] if len(p) > 2 else None)
            new = self._upd(st, old, path[1:], val)
            if new is old:
                return v
            a, b = self.split_seq(st, v, p[1])
            _, c = self.split_seq(st, b, ONE)
            return self.mkseq(list(a.args[0]) + [mk("lit", (new,))] + list(c.args[0]))
        if p[0] == "k":
            if v.tag != "map":
                return mk("unk", self.uid(), "write into " + v.tag)
            old = self.m.map_val(self, st, v, p[1], p[2])
            new = self._upd(st, old, path[1:], val)
            if new is old:
                return v
            return mk("map", v.args[0], v.args[1] + (mk("ins", p[1], new, "upd"),))
        raise AssertionError(p)

    def expand(self, st, v, var=None):
        """A symbolic struct (or enum of known variant) with its fields written out."""
        t = v.args[1]
        ty = self.P.types[t]
        if ty["k"] == "adt":
            a = self.P.adts[ty["adt"]]
            if a["kind"] == "enum":
                if var is None:
                    var = self.variant_of(st, v)
                if var is None:
                    return v
            else:
                var = 0
            fs = ty["vf"][var]
            return mk("agg", t, var, tuple(self.fresh(mk("fld", v.args[0], var, i), x) for i, x in enumerate(fs)))
        return v

    # ------------------------------------------------------------ enums
    def discr(self, st, v):
        """The discriminant of an enum value, as an integer term."""
        if v.tag == "agg":
            ty = self.P.types[v.args[0]] if v.args[0] >= 0 else None
            if ty and ty["k"] == "adt":
                return num(self.P.adts[ty["adt"]]["variants"][v.args[1]]["discr"])
            return num(v.args[1])
        if v.tag == "sym":
            ty = self.P.types[v.args[1]]
            if ty["k"] == "adt" and self.P.adts[ty["adt"]]["kind"] == "enum":
                a = mk("discr", v.args[0])
                if a not in st.facts.doms and a not in st.facts.sub:
                    dom = []
                    for i, x in enumerate(self.P.adts[ty["adt"]]["variants"]):
                        if not any(self.uninhabited(f) for f in ty["vf"][i]):
                            dom.append(x["discr"])
                    dom = self.restrict(st, v, dom)
                    f = st.facts.with_dom(a, dom)
                    if f is not None:
                        if len(dom) == 1:
                            f = f.copy()._add_eq(addc(I(a), -dom[0]))
                        st.facts = f
                return I(a)
        return I(mk("rng", mk("unk", self.uid(), "discriminant of " + v.tag), 0, 255))

    def restrict(self, st, v, dom):
        """Hook: variants excluded by a precondition."""
        for ax in self.axioms:
            dom = ax(self, st, v, dom)
        return dom

    def uninhabited(self, t):
        ty = self.P.types[t]
        if ty["k"] == "never":
            return True
        if ty["k"] == "adt":
            a = self.P.adts.get(ty["adt"])
            return bool(a) and a["kind"] == "enum" and not a["variants"]
        return False

    def variant_of(self, st, v):
        """Index of the variant when known."""
        if v.tag == "agg":
            return v.args[1]
        if v.tag == "sym":
            d = cval(st.facts.norm(self.discr(st, v)))
            if d is not None:
                for i, x in enumerate(self.P.adts[self.ty(v.args[1])["adt"]]["variants"]):
                    if x["discr"] == d:
                        return i
        return None

    def need_variant(self, st, v):
        """The variant of v, forking when it is open."""
        r = self.variant_of(st, v)
        if r is not None:
            return r
        if v.tag != "sym":
            return None
        d = self.discr(st, v)
        vs = self.P.adts[self.ty(v.args[1])["adt"]]["variants"]
        for i, x in enumerate(vs[:-1]):
            if self.decide(st, eq0(addc(d, -x["discr"]))):
                return i
        return len(vs) - 1

    def payload(self, st, v, var, i=0):
        """Field i of variant var."""
        if v.tag == "agg":
            return v.args[2][i]
        ty = self.ty(v.args[1])
        return self.fresh(mk("fld", v.args[0], var, i), ty["vf"][var][i])

    def mkenum(self, t, var, *fields):
        return mk("agg", t, var, tuple(fields))

    def some(self, t, x):
        return mk("agg", t, 1, (x,))

    def none(self, t):
        return mk("agg", t, 0, ())

    def tuple_ty(self):
        """A type id for tuples whose exact type does not matter."""
        return -1

    def unit(self):
        t = self.__dict__.get("_unit")
        if t is None:
            t = self._unit = self.P.find_ty("()")
        return mk("agg", t if t is not None else -1, 0, ())

    # ------------------------------------------------------------ places and operands
    def place_ty(self, fr, p):
        t = fr.body.locals[p[0]]
        var = 0
        for e in p[1]:
            if e[0] == "d":
                ty = self.ty(t)
                t = ty["to"] if ty["k"] in ("ref", "ptr") else ty["args"][0]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = self.ty(t)["elem"]
            elif e[0] == "oc":
                t = e[1]
        return t

    def resolve(self, fr, st, p):
        """(root, path) or ('slice', sptr) of a place."""
        root, path = fr.root(p[0]), ()
        cur = None      # an sptr when the place denotes an unsized slice
        var = None
        t = fr.body.locals[p[0]]
        for e in p[1]:
            k = e[0]
            if k == "d":
                if cur is not None:
                    raise AssertionError("deref of slice")
                ty = self.ty(t)
                t = ty["to"] if ty["k"] in ("ref", "ptr") else ty["args"][0]
                v = self.read(st, root, path)
                root, path, cur = self.target(st, v, t)
            elif k == "v":
                var = e[1]
                continue
            elif k == "f":
                path = path + (("f", var, e[1], e[2]),)
                t = e[2]
            elif k in ("i", "ci"):
                if k == "i":
                    idx = self.read(st, fr.root(e[1]), ())
                else:
                    n = self.seq_len(self.content(st, cur)) if cur is not None else self.seq_len(self.read(st, root, path))
                    idx = num(e[1]) if not e[3] else addc(n, -e[1])
                et = self.ty(t)["elem"]
                if cur is not None:
                    root, path = cur.args[0], cur.args[1] + (("i", add(cur.args[2], idx), et),)
                    cur = None
                else:
                    path = path + (("i", idx, et),)
                t = et
            elif k == "ss":
                n = cur.args[3] if cur is not None else self.seq_len(self.read(st, root, path))
                frm, to, from_end = e[1], e[2], e[3]
                ln = addc(n, -to - frm) if from_end else num(to - frm)
                if cur is not None:
                    cur = mk("sptr", cur.args[0], cur.args[1], addc(cur.args[2], frm), ln)
                else:
                    cur = mk("sptr", root, path, num(frm), ln)
            elif k == "oc":
                t = e[1]
            var = None
        return root, path, cur, t

    def target(self, st, v, t):
        """Where a pointer value points: root, path, slice."""
        g = v.tag
        if g == "ptr":
            return v.args[0], v.args[1], None
        if g == "sptr":
            return v.args[0], v.args[1], v
        if g == "box":
            to = self.read(st, v.args[0], ())
            if self.kind(t) in ("slice", "str"):
                return v.args[0], (), mk("sptr", v.args[0], (), ZERO, self.seq_len(to))
            return v.args[0], (), None
        # Something opaque: give it its own memory.
        root = ("S", v, t)
        if self.kind(t) in ("slice", "str"):
            s = self.load_root(st, root)
            return root, (), mk("sptr", root, (), ZERO, self.seq_len(s))
        return root, (), None

    def read_place(self, fr, st, p):
        root, path, cur, t = self.resolve(fr, st, p)
        if cur is not None:
            return self.content(st, cur)
        return self.read(st, root, path)

    def operand(self, fr, st, o):
        k = o[0]
        if k in ("c", "m"):
            if not o[1][1]:
                return self.load_root(st, fr.root(o[1][0]))
            return self.read_place(fr, st, o[1])
        if k == "k":
            return self.const(st, o[1])
        if k == "rc":
            return FALSE if "Ub" in str(o) else TRUE
        return mk("unk", self.uid(), "operand " + k)

    def op_ty(self, fr, o):
        if o[0] in ("c", "m"):
            return self.place_ty(fr, o[1])
        if o[0] == "k":
            return o[1]["ty"]
        return self.P.find_ty("bool")

    # ------------------------------------------------------------ constants
    def const(self, st, c):
        key = id(c)
        r = self.__dict__.setdefault("_consts", {}).get(key)
        if r is None:
            if "alloc" in c:
                r = self.const_at(c["ty"], c["alloc"], 0)
            elif c.get("zst"):
                r = self.zst(c["ty"])
            else:
                r = self.unk(c["ty"], "constant")
            self._consts[key] = r
        return r

    def zst(self, t):
        ty = self.ty(t)
        if ty["k"] == "fndef":
            return mk("fn", t)
        e = self.seq_elem(t)
        if e is not None and ty["k"] == "array":
            return self.mkseq([])
        if ty["k"] == "tuple":
            return mk("agg", t, 0, tuple(self.zst(x) for x in ty["elems"]))
        if ty["k"] == "adt" and self.P.adts[ty["adt"]]["kind"] == "struct":
            return mk("agg", t, 0, tuple(self.zst(x) for x in ty["vf"][0]))
        return mk("agg", t, 0, ())

    def const_int(self, a, off, n):
        bs = a["bytes"][off:off + n]
        if len(bs) < n or any(b is None for b in bs):
            return None
        return int.from_bytes(bytes(bs), "little")

    def const_at(self, t, a, off):
        ty = self.ty(t)
        k = ty["k"]
        if k == "bool":
            v = self.const_int(a, off, 1)
            return TRUE if v else FALSE
        if k in ("int", "uint"):
            v = self.const_int(a, off, ty["bits"] // 8)
            if v is None:
                return self.unk(t, "constant")
            if k == "int":
                return tm.smod(num(v), ty["bits"])
            return num(v)
        if k == "char":
            return num(self.const_int(a, off, 4) or 0)
        if k == "float":
            return mk("flt", num(self.const_int(a, off, ty["bits"] // 8) or 0), ty["bits"])
        if k in ("ref", "ptr"):
            for o, tgt in a["ptrs"]:
                if o == off:
                    if "mem" in tgt:
                        inner = self.const_int(a, off, 8) or 0
                        m = tgt["mem"]
                        to = ty["to"]
                        tk = self.kind(to)
                        if tk == "str":
                            n = self.const_int(a, off + 8, 8)
                            bs = bytes(b or 0 for b in m["bytes"][inner:inner + n])
                            return mk("sptr", ("K", self.cst(bs)), (), ZERO, num(n))
                        if tk == "slice":
                            n = self.const_int(a, off + 8, 8)
                            s = self.const_seq(self.ty(to)["elem"], m, inner, n)
                            return mk("sptr", ("K", s), (), ZERO, num(n))
                        if tk == "dyn":
                            return self.unk(t, "dyn constant")
                        return mk("ptr", ("K", self.const_at(to, m, inner)), ())
                    return self.unk(t, "constant pointer")
            return self.unk(t, "constant pointer")
        if k == "array":
            return self.const_seq(ty["elem"], a, off, ty["len"])
        if k == "tuple":
            lay = self.P.layouts.get(str(t))
            if lay:
                return mk("agg", t, 0, tuple(self.const_at(x, a, off + o) for x, o in zip(ty["elems"], lay["off"])))
            return self.zst(t)
        if k == "adt":
            lay = self.P.layouts.get(str(t))
            ad = self.P.adts[ty["adt"]]
            if self.seq_elem(t) is not None:
                return self.mkseq([])      # only empty vectors are constants
            if ty["adt"] in self.MAP_ADTS:
                return mk("map", mk("empty",), ())
            if lay is None:
                return self.unk(t, "constant layout")
            if ad["kind"] == "struct":
                return mk("agg", t, 0, tuple(self.const_at(x, a, off + o) for x, o in zip(ty["vf"][0], lay["off"])))
            if ad["kind"] == "enum":
                v = lay["var"]
                if isinstance(v, int):
                    var, offs = v, lay["off"]
                elif isinstance(v, dict):
                    tag = self.const_int(a, off + v["off"], v["sz"])
                    if v["niche"] is None:
                        var = None
                        for i, x in enumerate(ad["variants"]):
                            if int(x["discr"]) % (1 << (8 * v["sz"])) == tag:
                                var = i
                    else:
                        un, lo, hi, start = v["niche"]
                        if tag is None or any(o == off + v["off"] for o, _ in a["ptrs"]):
                            var = un
                        else:
                            d = (tag - start) % (1 << (8 * v["sz"])) + lo
                            var = d if lo <= d <= hi else un
                    if var is None:
                        return self.unk(t, "constant enum")
                    offs = v["voff"][var]
                else:
                    return self.unk(t, "constant enum")
                return mk("agg", t, var, tuple(self.const_at(x, a, off + o) for x, o in zip(ty["vf"][var], offs)))
        if k == "closure":
            return mk("agg", t, 0, ())
        if k == "fnptr":
            for o, tgt in a["ptrs"]:
                if o == off and "fn" in tgt:
                    return mk("fni", tgt["fn"])
        return self.unk(t, "constant of kind " + k)

    def cst(self, bs):
        return self.mkseq([mk("cst", bs)])

    def const_seq(self, elem, a, off, n):
        ety = self.ty(elem)
        if ety["s"] == "u8":
            bs = a["bytes"][off:off + n]
            if all(b is not None for b in bs):
                return self.cst(bytes(bs))
        size = self.size_of(elem)
        if size is None:
            return mk("seq", (mk("win", self.base(mk("unk", self.uid(), "constant array"), elem), ZERO, num(n)),))
        return self.mkseq([mk("lit", tuple(self.const_at(elem, a, off + i * size) for i in range(n)))])

    def size_of(self, t):
        ty = self.ty(t)
        k = ty["k"]
        if k in ("int", "uint", "float"):
            return ty["bits"] // 8
        if k == "bool":
            return 1
        if k == "char":
            return 4
        if k in ("ref", "ptr"):
            return 16 if self.kind(ty["to"]) in ("slice", "str", "dyn") else 8
        if k == "array":
            e = self.size_of(ty["elem"])
            return None if e is None else e * ty["len"]
        lay = self.P.layouts.get(str(t))
        return lay["sz"] if lay else (0 if k in ("fndef",) else None)

    # ------------------------------------------------------------ arithmetic
    def int_ty(self, t):
        ty = self.ty(t)
        k = ty["k"]
        if k in ("int", "uint"):
            return k, ty["bits"]
        if k == "char":
            return "uint", 32
        if k == "bool":
            return "uint", 8
        return None

    def to_int(self, st, v):
        if is_int(v):
            return v
        if v.tag in ("b", "bsym", "ge", "eq0", "not", "same", "and", "or"):
            return ONE if self.decide(st, v) else ZERO
        return None

    def binop(self, fr, st, op, x, y, tx, ty_):
        it = self.int_ty(tx)
        kx = self.kind(tx)
        env = st.facts.env
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            return self.compare(st, base, x, y, tx)
        if kx == "bool":
            if base == "BitAnd":
                return FALSE if x is FALSE or y is FALSE else (y if x is TRUE else x if y is TRUE else self.bool2(st, "and", x, y))
            if base == "BitOr":
                return TRUE if x is TRUE or y is TRUE else (y if x is FALSE else x if y is FALSE else self.bool2(st, "or", x, y))
            if base == "BitXor":
                return TRUE if self.decide(st, x) != self.decide(st, y) else FALSE
        if kx == "float":
            return mk("flt", I(mk("int", mk("fop", op, x, y), "uint", self.ty(tx)["bits"])), self.ty(tx)["bits"])
        if it is None or not is_int(x) or not is_int(y):
            if base == "Offset":
                return self.offset(st, x, y)
            return self.unk(tx, "operation " + op)
        k, n = it
        r = self.raw_op(st, base, x, y, k, n, ty_)
        return wrap(r, k, n, env)

    def bool2(self, st, tag, x, y):
        a, b = st.facts.test(x), st.facts.test(y)
        if tag == "and":
            if a is False or b is False:
                return FALSE
            if a is True:
                return y
            if b is True:
                return x
        else:
            if a is True or b is True:
                return TRUE
            if a is False:
                return y
            if b is False:
                return x
        return mk(tag, x, y)

    def offset(self, st, p, n):
        if p.tag == "sptr" and is_int(n):
            return mk("sptr", p.args[0], p.args[1], add(p.args[2], n), sub(p.args[3], n))
        return mk("unk", self.uid(), "pointer offset")

    def raw_op(self, st, base, x, y, k, n, ty_):
        """The mathematical result, before wrapping to the type."""
        f = st.facts
        env = f.env
        if base == "Add":
            return add(x, y)
        if base == "Sub":
            return sub(x, y)
        if base == "Mul":
            cx, cy = cval(f.norm(x)), cval(f.norm(y))
            if cy is not None:
                return scale(x, cy)
            if cx is not None:
                return scale(y, cx)
            a, b = (x, y) if x.uid < y.uid else (y, x)
            (l1, h1), (l2, h2) = f.rng(a), f.rng(b)
            if l1 >= 0 and l2 >= 0:
                return I(mk("rng", mk("mul", a, b), 0, h1 * h2 if INF not in (h1, h2) else INF))
            return I(mk("rng", mk("mul", a, b), -INF, INF))
        if base in ("Div", "Rem"):
            c = cval(f.norm(y))
            cx = cval(f.norm(x))
            if c is not None and cx is not None and c:
                q = abs(cx) // abs(c) * (1 if (cx < 0) == (c < 0) else -1)
                return num(q) if base == "Div" else num(cx - q * c)
            if c is not None and c > 0:
                lo, hi = f.rng(x)
                if lo >= 0:
                    if c & (c - 1) == 0:
                        b = c.bit_length() - 1
                        return bits(x, b, n, env) if base == "Div" else bits(x, 0, b, env)
                    q = I(mk("rng", mk("div", x, c), 0, int(hi) // c if hi != INF else INF))
                    return q if base == "Div" else sub(x, scale(q, c))
                if lo < 0 <= hi:
                    if self.decide(st, ge0(x)):
                        raise Fork(ge0(x))
                if lo < 0:
                    # Negative dividend: round towards zero.
                    y2 = scale(x, -1)
                    st2 = st
                    r = self.raw_op(st2, base, y2, y, k, n, ty_) if f.rng(y2)[0] >= 0 else None
                    if r is not None:
                        return scale(r, -1)
            t = mk(base.lower(), x, y)
            return I(mk("rng", t, *tm.ity(k, n)))
        if base in ("BitAnd", "BitOr", "BitXor"):
            x, y = f.norm(x), f.norm(y)
            # A 0/-1 mask, or a single bit against a wider value: decide it.
            for a, b in ((x, y), (y, x)):
                if cval(a) is None and cval(b) is None:
                    lo, hi = f.rng(a)
                    if lo == -1 and hi == 0:
                        self.decide(st, eq0(a))
                        raise Fork(eq0(a))
            fn = {"BitAnd": tm.and_, "BitOr": tm.or_, "BitXor": tm.xor_}[base]
            if k == "uint" and cval(y) is not None and cval(y) == (1 << n) - 1:
                y = num(-1)
                if base == "BitXor":
                    return addc(scale(x, -1), (1 << n) - 1)
            if k == "uint" and cval(x) is not None and cval(x) == (1 << n) - 1 and base == "BitXor":
                return addc(scale(y, -1), (1 << n) - 1)
            if base == "BitXor" and cval(y) == -1:
                return addc(scale(x, -1), -1)
            if base == "BitXor" and cval(x) == -1:
                return addc(scale(y, -1), -1)
            r = fn(x, y, env)
            if any(a.tag == "and" for a, _ in r.args[1]):
                # Not representable: keep it as one opaque value of the operation.
                lo1, hi1 = f.rng(x)
                lo2, hi2 = f.rng(y)
                a, b = (x, y) if x.uid < y.uid else (y, x)
                if lo1 >= 0 and lo2 >= 0 and INF not in (hi1, hi2):
                    hi = min(hi1, hi2) if base == "BitAnd" else (1 << max(int(hi1), int(hi2)).bit_length()) - 1
                    return I(mk("rng", mk(base, a, b), 0, int(hi)))
                return I(mk("rng", mk(base, a, b), *tm.ity(k, n)))
            return r
        if base in ("Shl", "Shr"):
            c = cval(f.norm(y))
            if c is None:
                lo, hi = f.rng(y)
                if INF not in (hi,) and lo >= 0 and hi - lo <= 128:
                    for i in range(int(lo), int(hi)):
                        if self.decide(st, eq0(addc(y, -i))):
                            c = i
                            break
                    else:
                        c = int(hi)
                else:
                    return I(mk("rng", mk(base, x, y), *tm.ity(k, n)))
            c %= n
            if base == "Shl":
                return scale(x, 1 << c)
            return tm.sar(x, c, env)
        t = mk("op", base, x, y)
        return I(mk("rng", t, *tm.ity(k, n)))

    def compare(self, st, op, x, y, t):
        if is_int(x) and is_int(y):
            x, y = st.facts.norm(x), st.facts.norm(y)
            if op == "Eq":
                return eq0(sub(x, y))
            if op == "Ne":
                return not_(eq0(sub(x, y)))
            if op == "Lt":
                return ge0(addc(sub(y, x), -1))
            if op == "Le":
                return ge0(sub(y, x))
            if op == "Gt":
                return ge0(addc(sub(x, y), -1))
            if op == "Ge":
                return ge0(sub(x, y))
            if op == "Cmp":
                if self.decide(st, eq0(sub(x, y))):
                    return num(0)
                return num(1) if self.decide(st, ge0(sub(x, y))) else num(-1)
        if op in ("Eq", "Ne"):
            if self.kind(t) == "bool":
                r = self.bool_eq(st, x, y)
            elif self.kind(t) == "float":
                r = mk("feq", x, y)
            else:
                r = same(x, y)
            return r if op == "Eq" else not_(r)
        if self.kind(t) == "bool":
            a, b = self.to_int(st, x), self.to_int(st, y)
            return self.compare(st, op, a, b, t)
        return mk("bsym", mk("cmp", op, x, y))

    def bool_eq(self, st, x, y):
        if x is TRUE:
            return y
        if y is TRUE:
            return x
        if x is FALSE:
            return not_(y)
        if y is FALSE:
            return not_(x)
        return TRUE if self.decide(st, x) == self.decide(st, y) else FALSE

    def cast(self, fr, st, kind, v, frm, to):
        it = self.int_ty(to)
        if kind == "IntToInt":
            i = self.to_int(st, v)
            if i is None and v.tag in ("agg", "sym"):
                i = self.discr(st, v)
            if i is None:
                return self.unk(to, "cast")
            return wrap(i, it[0], it[1], st.facts.env)
        if kind.startswith("Unsize") or "Unsize" in kind:
            return self.unsize(st, v, frm, to)
        if kind == "Transmute":
            return self.transmute(st, v, frm, to)
        if kind.startswith("Ptr") or kind.startswith("PointerCoercion") or "Pointer" in kind or kind.startswith("FnPtr"):
            return v
        if kind == "BoxDerefTransmute" and v.tag in ("box", "ptr", "sym"):
            if v.tag == "box":
                return mk("ptr", v.args[0], ())
            return v if v.tag == "ptr" else self.unk(to, "cast " + kind)
        if kind in ("FloatToFloat", "IntToFloat", "FloatToInt"):
            f, t = self.ty(frm), self.ty(to)
            name = mk("fcast", kind, v, f["s"], t["s"])
            return self.fresh(name, to)
        return self.unk(to, "cast " + kind)

    def unsize(self, st, v, frm, to):
        f, t = self.ty(frm), self.ty(to)
        if f["k"] in ("ref", "ptr") and t["k"] in ("ref", "ptr") and v.tag == "ptr":
            if self.kind(f["to"]) == "array" and self.kind(t["to"]) == "slice":
                return mk("sptr", v.args[0], v.args[1], ZERO, num(self.ty(f["to"])["len"]))
        return v

    def transmute(self, st, v, frm, to):
        f, t = self.ty(frm), self.ty(to)
        a, b = self.int_ty(frm), self.int_ty(to)
        if a and b and is_int(v):
            return wrap(v, b[0], b[1], st.facts.env)
        if v.tag in ("ptr", "sptr", "box"):
            return v
        if f["k"] == "float" and b and v.tag == "flt":
            return wrap(v.args[0], b[0], b[1], st.facts.env)
        if t["k"] == "float" and is_int(v):
            return mk("flt", wrap(v, "uint", t["bits"], st.facts.env), t["bits"])
        if f["k"] == "array" and b and v.tag == "seq":
            return self.from_le(st, v, b[0], b[1])
        if t["k"] == "array" and a and is_int(v):
            return self.to_le(st, v, a[1])
        if frm == to:
            return v
        return self.unk(to, "transmute")

    def from_le(self, st, s, kind, nbits, big=False):
        x = ZERO
        n = nbits // 8
        for i in range(n):
            b = self.elem_at(st, s, num(i))
            x = add(x, b, 1 << (8 * ((n - 1 - i) if big else i)))
        return wrap(x, kind, nbits, st.facts.env)

    def to_le(self, st, v, nbits, big=False):
        u = bits(v, 0, nbits, st.facts.env)
        bs = [bits(u, 8 * i, 8, st.facts.env) for i in range(nbits // 8)]
        if big:
            bs.reverse()
        return self.mkseq([mk("lit", tuple(bs))])

    # ------------------------------------------------------------ statements
    def rvalue(self, fr, st, r, dest_ty):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "agg":
            kind, t, ops = r[1], r[2], [self.operand(fr, st, o) for o in r[3]]
            if kind == "array":
                ety = t      # the element type
                if self.ty(ety)["s"] == "u8" and all(is_int(o) and cval(o) is not None for o in ops):
                    return self.cst(bytes(cval(o) for o in ops))
                return self.mkseq([mk("lit", tuple(ops))])
            if kind == "tuple" or kind == "closure":
                return mk("agg", t, 0, tuple(ops))
            if kind == "adt":
                var = r[4]
                if r[5] is not None:
                    return ops[0] if ops else self.unk(t, "union")
                return mk("agg", t, var or 0, tuple(ops))
            if kind == "rawptr":
                return self.rawptr(st, ops, t)
            return self.unk(dest_ty, "aggregate " + kind)
        if k == "bin":
            tx = self.op_ty(fr, r[2])
            return self.binop(fr, st, r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), tx, self.op_ty(fr, r[3]))
        if k == "chk":
            tx = self.op_ty(fr, r[2])
            x, y = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            it = self.int_ty(tx)
            if it is None or not is_int(x) or not is_int(y):
                return mk("agg", dest_ty, 0, (self.unk(tx, "checked op"), mk("bsym", mk("unk", self.uid(), "overflow"))))
            raw = self.raw_op(st, r[1], x, y, it[0], it[1], None)
            lo, hi = tm.ity(*it)
            l, h = st.facts.rng(raw)
            if l >= lo and h <= hi:
                return mk("agg", dest_ty, 0, (raw, FALSE))
            if st.facts.test(ge0(addc(raw, -lo))) and st.facts.test(ge0(addc(scale(raw, -1), hi))):
                return mk("agg", dest_ty, 0, (raw, FALSE))
            ov = mk("or", not_(ge0(addc(raw, -lo))), not_(ge0(addc(scale(raw, -1), hi))))
            if ge0(addc(raw, -lo)) is TRUE or st.facts.test(ge0(addc(raw, -lo))):
                ov = not_(ge0(addc(scale(raw, -1), hi)))
            elif st.facts.test(ge0(addc(scale(raw, -1), hi))):
                ov = not_(ge0(addc(raw, -lo)))
            return mk("agg", dest_ty, 0, (mk("ovf", raw, it[0], it[1]), ov))
        if k == "cast":
            return self.cast(fr, st, r[1], self.operand(fr, st, r[2]), self.op_ty(fr, r[2]), r[3])
        if k == "discr":
            v = self.read_place(fr, st, r[1])
            return self.discr(st, v)
        if k == "len":
            v = self.read_place(fr, st, r[1])
            return self.seq_len(v)
        if k in ("ref", "addr"):
            root, path, cur, t = self.resolve(fr, st, r[2])
            if cur is not None:
                return cur
            if root[0] == "S" and not path and self.kind(t) in ("slice", "str"):
                s = self.read(st, root, path)
                return mk("sptr", root, path, ZERO, self.seq_len(s))
            return mk("ptr", root, path)
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = r[2]
            if isinstance(n, int) and n <= 4096:
                return self.mkseq([mk("lit", (v,) * n)])
            return self.unk(dest_ty, "repeat")
        if k == "un":
            v = self.operand(fr, st, r[2])
            t = self.op_ty(fr, r[2])
            if r[1] == "Not":
                if self.kind(t) == "bool":
                    return not_(v)
                kk, n = self.int_ty(t)
                x = addc(scale(v, -1), -1)
                return x if kk == "int" else wrap(x, kk, n, st.facts.env)
            if r[1] == "Neg":
                if v.tag == "flt":
                    return mk("flt", I(mk("int", mk("fneg", v), "uint", v.args[1])), v.args[1])
                kk, n = self.int_ty(t)
                return wrap(scale(v, -1), kk, n, st.facts.env)
            if r[1] == "PtrMetadata":
                if v.tag == "sptr":
                    return v.args[3]
                if v.tag == "box":
                    return self.seq_len(self.read(st, v.args[0], ()))
                return self.unk(dest_ty, "pointer metadata")
        return self.unk(dest_ty, "rvalue " + k)

    def rawptr(self, st, ops, t):
        p = ops[0]
        if len(ops) > 1 and is_int(ops[1]) and p.tag == "sptr":
            return mk("sptr", p.args[0], p.args[1], p.args[2], ops[1])
        return p

    def resolve_ovf(self, st, v):
        """The value of a checked operation once overflow has been excluded."""
        return v

    # ------------------------------------------------------------ running a body
    def call_body(self, inst, args, st, stack, site=None):
        """Runs an instance; returns [(state, value)]."""
        body = self.P.body(inst)
        fid = self.uid()
        fr = Frame(fid, inst, body, stack)
        self.frames[fid] = inst
        x = self.P.insts[inst]
        if x["local"]:
            self.fns.add(x["name"])
        for i, a in enumerate(args):
            st.mem[("L", fid, i + 1)] = a
        entry = st.fork() if x["local"] and body.loops() else None
        outs = self.explore(fr, [(0, 0, st)], None, None)[0]
        res = []
        for s in outs:
            v = s.mem.get(("L", fid, 0))
            if v is None:
                v = self.unit()
            n = len(body.locals)
            m = s.mem
            for l in range(n):
                m.pop(("L", fid, l), None)
            res.append((s, v))
        if entry is not None and len(res) >= 3:
            res = self.s.merge_returns(self, x, entry, res)
        return res

    def explore(self, fr, work, region, header):
        """Runs until return, until the header is reached again, or until the region is left."""
        rets, backs, exits = [], [], []
        loops = fr.body.loops()
        blocks = fr.body.blocks
        first = header is not None
        while work:
            b, i, st = work.pop()
            if i == 0:
                if region is not None and not first and b == header:
                    backs.append(st)
                    continue
                if region is not None and b not in region:
                    exits.append((b, st))
                    continue
                if b in loops and not (first and b == header):
                    for eb, est in self.run_loop(fr, b, loops[b], st):
                        work.append((eb, 0, est))
                    continue
            first = False
            self.blocks_run += 1
            if self.blocks_run > self.max_blocks:
                raise Budget("block budget exceeded")
            if self.deadline and self.blocks_run % 32 == 0 and time.time() > self.deadline:
                raise Budget("time budget exceeded")
            self.step(fr, b, i, st, work, rets)
        return rets, backs, exits

    def step(self, fr, b, i, st, work, rets):
        blk = fr.body.blocks[b]
        fr.blk = b
        stmts = blk["s"]
        n = len(stmts)
        if i < 0:
            i = 0
        while i < n:
            s = stmts[i]
            k = s[0]
            if k == "=":
                try:
                    p = s[1]
                    if not p[1]:
                        t = fr.body.locals[p[0]]
                        v = self.rvalue(fr, st, s[2], t)
                        st.mem[fr.root(p[0])] = v
                    else:
                        t = self.place_ty(fr, p)
                        v = self.rvalue(fr, st, s[2], t)
                        root, path, cur, _ = self.resolve(fr, st, p)
                        if cur is not None:
                            self.havocs["assignment to a slice"] += 1
                            v = self.unk(t, "assignment to a slice")
                        self.write(st, root, path, v)
                except Fork as f:
                    self.fork_at(st, f.cond, b, i, work)
                    return
            elif k == "copy":
                self.havocs["raw memory copy"] += 1
                self.havoc_target(st, self.operand(fr, st, s[2]))
            elif k == "dead" or k == "live":
                st.mem.pop(fr.root(s[1]), None)
            elif k == "setd":
                try:
                    root, path, cur, t = self.resolve(fr, st, s[1])
                    v = self.read(st, root, path)
                    var = s[2]
                    if v.tag == "agg":
                        self.write(st, root, path, mk("agg", t, var, v.args[2]))
                    else:
                        self.write(st, root, path, mk("agg", t, var, ()))
                except Fork as f:
                    self.fork_at(st, f.cond, b, i, work)
                    return
            i += 1
        t = blk["t"]
        k = t[0]
        mark = (len(self.obligs), len(self.loops), len(self.recs), len(self.allocs), len(self.merges))
        try:
            if k == "goto":
                work.append((t[1], 0, st))
            elif k == "return":
                rets.append(st)
            elif k == "drop":
                self.drop(fr, st, t)
                work.append((t[2], 0, st))
            elif k == "switch":
                self.switch(fr, st, t, work)
            elif k == "assert":
                self.assert_(fr, st, t, work, blk)
            elif k == "call":
                self.do_call(fr, st, t, work, blk)
            elif k in ("unreachable", "resume", "abort"):
                pass
            else:
                raise AssertionError(k)
        except Fork as f:
            self.rollback(mark)
            self.fork_at(st, f.cond, b, n, work)

    def rollback(self, mark):
        """Forgets what an abandoned attempt recorded."""
        for l, n in zip((self.obligs, self.loops, self.recs, self.allocs, self.merges), mark):
            del l[n:]

    def fork_at(self, st, cond, b, i, work):
        for c in (cond, not_(cond)):
            s = st.assume(c)
            if s is not None:
                # Position i is mid-block; avoid treating block starts as arrivals.
                work.append((b, i if i > 0 else -1, s.fork()))

    def drop(self, fr, st, t):
        pass

    def split(self, st, cond):
        """(state where cond holds or None, state where it does not or None)"""
        r = st.facts.test(cond)
        if r is True:
            return st, None
        if r is False:
            return None, st
        a, b = st.assume(cond), st.assume(not_(cond))
        if a is not None and b is not None:
            b = b.fork()
        return a, b

    def switch(self, fr, st, t, work):
        v = self.operand(fr, st, t[1])
        targets, other = t[2], t[3]
        if v.tag == "ovf":
            v = I(mk("rng", v, *tm.ity(v.args[1], v.args[2])))
        if not is_int(v):
            # bool
            if v.tag in ("sym", "unk", "uninit", "agg"):
                v = mk("bsym", mk("unk", self.uid(), "branch on " + v.tag))
            r = st.facts.test(v)
            tgt = {x: y for x, y in targets}
            f_b = tgt.get(0, other)
            t_b = tgt.get(1, other)
            a, b = self.split(st, v)
            if b is not None:
                work.append((f_b, 0, b))
            if a is not None:
                work.append((t_b, 0, a))
            return
        v = st.facts.norm(v)
        tt = self.op_ty(fr, t[1])
        it = self.int_ty(tt)
        c = cval(v)
        if c is not None:
            if it and it[0] == "int" and c < 0:
                c2 = c + (1 << it[1])
            else:
                c2 = c
            for x, y in targets:
                if x == c2 or x == c:
                    work.append((y, 0, st))
                    return
            work.append((other, 0, st))
            return
        rest = st
        outs = []
        for x, y in targets:
            if it and it[0] == "int" and x >> (it[1] - 1):
                x -= 1 << it[1]
            if rest is None:
                break
            a, rest = self.split(rest, eq0(addc(v, -x)))
            if a is not None:
                outs.append((y, 0, a))
        if rest is not None:
            outs.append((other, 0, rest))
        # Distinct memories for every branch.
        seen = set()
        for y, i, s in outs:
            if id(s.mem) in seen:
                s = s.fork()
            seen.add(id(s.mem))
            work.append((y, i, s))

    # ------------------------------------------------------------ obligations
    def where(self, fr, blk=None):
        """(function, span) of the innermost frame that belongs to the crate."""
        f = fr
        chain = [(fr.inst, fr.blk)] + list(reversed(fr.stack))
        for inst, b in chain:
            x = self.P.insts[inst]
            if x["local"]:
                body = self.P.body(inst)
                return x["name"], body.blocks[b]["sp"]
        x = self.P.insts[fr.inst]
        return x["name"], x["sp"]

    def note(self, fr, kind):
        fn, site = self.where(fr)
        self.checked[(fn, site, kind)] += 1

    def violation(self, fr, st, kind, detail):
        fn, site = self.where(fr)
        self.obligs.append(Oblig(kind, fn, site, detail, st, fr.stack + ((fr.inst, fr.blk),)))

    def require(self, fr, st, cond, kind, detail):
        """Records an obligation; returns the state in which cond holds, or None."""
        self.note(fr, kind)
        r = st.facts.test(cond)
        if r is True:
            return st
        bad = st.assume(not_(cond))
        if bad is not None:
            self.violation(fr, bad, kind, detail)
        return st.assume(cond)

    def assert_(self, fr, st, t, work, blk):
        v = self.operand(fr, st, t[1])
        cond = v if t[2] else not_(v)
        msg = t[3]
        if v.tag in ("sym", "unk", "uninit"):
            cond = mk("bsym", mk("unk", self.uid(), "assert"))
        s = self.require(fr, st, cond, msg[0], "assert " + " ".join(str(m) for m in msg[:2] if isinstance(m, str)))
        if s is not None:
            # A checked operation that did not overflow has its mathematical value.
            if msg[0] == "overflow":
                s = State(s.mem, s.facts, s.ev)
                p = t[1][1] if t[1][0] in ("c", "m") else None
                if p is not None:
                    key = fr.root(p[0])
                    a = s.mem.get(key)
                    if a is not None and a.tag == "agg" and a.args[2] and a.args[2][0].tag == "ovf":
                        s.mem[key] = mk("agg", a.args[0], 0, (a.args[2][0].args[0],) + a.args[2][1:])
            work.append((t[4], 0, s))

    # ------------------------------------------------------------ calls
    def do_call(self, fr, st, t, work, blk):
        _, inst, deff, defargs, fop, ops, dest, target = t[:8]
        args = [self.operand(fr, st, o) for o in ops]
        if inst is None:
            if fop is not None:
                fv = self.operand(fr, st, fop)
                if fv.tag in ("fn", "fni"):
                    inst = self.fn_inst(fv)
            if inst is None:
                rt = self.place_ty(fr, dest)
                self.unmodelled["?" + str(deff)] += 1
                for a in args:
                    self.havoc_target(st, a)
                outs = [(st, self.unk(rt, "call " + str(deff)))] if target is not None else []
                self.finish_call(fr, outs, dest, target, work)
                return
        rt = self.place_ty(fr, dest)
        outs = self.call(fr, inst, args, st, rt, [self.op_ty(fr, o) for o in ops])
        self.finish_call(fr, outs, dest, target, work)

    def finish_call(self, fr, outs, dest, target, work):
        if target is None:
            return
        for s, v in outs:
            if not dest[1]:
                s.mem[fr.root(dest[0])] = v
            else:
                try:
                    root, path, cur, _ = self.resolve(fr, s, dest)
                    self.write(s, root, path, v)
                except Fork:
                    raise AssertionError("fork while storing a result")
            work.append((target, 0, s))

    def fn_inst(self, v):
        if v.tag == "fni":
            return v.args[0]
        return self.ty(v.args[0])["inst"]

    def key_of(self, inst):
        k = self.keymap.get(inst)
        if k is None:
            k = self.m.defkey(self.P.insts[inst]["def"])
            self.keymap[inst] = k
        return k

    def call(self, fr, inst, args, st, rt, argtys=None):
        """Calls an instance; returns [(state, value)]."""
        x = self.P.insts[inst]
        key = self.key_of(inst)
        if x["local"] and self.call_hook is not None:
            r = self.call_hook(fr, inst, args, st, rt)
            if r is not None:
                return r
        m = None if x["local"] else self.m.find_model(key)
        if m is not None:
            # The model works on a copy, so that it can be redone after a fork.
            r = m(self.m.Ctx(self, fr, inst, st.fork(), rt, argtys, key), *args)
            if r is not NotImplemented:
                self.calls_seen[key] += 1
                return r
        if x["kind"] == "virtual":
            return self.havoc_call(fr, inst, args, st, rt, key)
        if x["kind"] in ("intrinsic",):
            return self.havoc_call(fr, inst, args, st, rt, key)
        body = self.P.body(inst)
        if body is None:
            if x["kind"] == "shim":
                return self.shim(fr, inst, args, st, rt, key)
            return self.havoc_call(fr, inst, args, st, rt, key)
        if not x["local"]:
            depth = 0
            for i, _ in reversed(fr.stack + ((fr.inst, 0),)):
                if self.P.insts[i]["local"]:
                    break
                depth += 1
            if depth > 6:
                return self.havoc_call(fr, inst, args, st, rt, key)
            self.calls_seen["inlined " + key] += 1
        args = self.untuple(inst, args, body)
        return self.enter(fr, inst, args, st, rt)

    def untuple(self, inst, args, body):
        """Closure bodies take their arguments untupled."""
        if len(args) == body.argc:
            return args
        if args and args[-1].tag == "agg" and len(args) - 1 + len(args[-1].args[2]) == body.argc:
            return list(args[:-1]) + list(args[-1].args[2])
        return args

    def enter(self, fr, inst, args, st, rt):
        stack = fr.stack + ((fr.inst, fr.blk),)
        x = self.P.insts[inst]
        if x["local"] and any(i == inst for i, _ in stack):
            return self.recursive(fr, inst, args, st, rt, stack)
        if x["local"] and self.is_recursive(inst):
            outs = self.run_recursive(inst, args, st, stack, rt)
            for s, v in outs:
                s.event("ret", inst, args, None, v)
        else:
            base = st.facts
            outs = self.call_body(inst, args, st, stack)
        return outs

    def is_recursive(self, inst):
        if self.scc is None:
            self.scc = self.s.recursive_insts(self.P)
        return inst in self.scc

    def recursive(self, fr, inst, args, st, rt, stack):
        fn, site = self.where(fr)
        self.recs.append(RecInfo(inst, args, self.rec_outer.get(inst), st, stack, site))
        # The inner call: its result is named by what it is applied to.
        names = tuple(self.reach_name(st, a) for a in args)
        nm = mk("rec", self.P.insts[inst]["name"], names)
        body = self.P.body(inst)
        for i, a in enumerate(args):
            t = self.ty(body.locals[i + 1])
            if t["k"] in ("ref", "ptr") and t["mut"] and a.tag in ("ptr", "sptr"):
                if a.tag == "ptr":
                    self.write(st, a.args[0], a.args[1], self.fresh(mk("recout", nm, i), t["to"]))
        st.event("rec", inst, args, nm)
        return [(st, self.fresh(nm, body.locals[0]))]

    def reach_name(self, st, a):
        if a.tag == "ptr":
            try:
                return mk("at", a, self.read(st, a.args[0], a.args[1]))
            except Fork:
                return a
        if a.tag == "sptr":
            try:
                return mk("atslice", self.content(st, a))
            except Fork:
                return a
        return a

    def run_recursive(self, inst, args, st, stack, rt):
        """Runs a recursive function with its parameters widened until the inner calls are covered."""
        return self.s.solve_recursion(self, inst, args, st, stack, rt)

    def shim(self, fr, inst, args, st, rt, key):
        x = self.P.insts[inst]
        # Calling a closure or function value through a Fn trait.
        if key.split("::")[-1] in ("call_once", "call_mut", "call") and args:
            return self.call_fn(fr, st, args[0], list(args[1].args[2]) if args[1].tag == "agg" else [args[1]], rt)
        return self.havoc_call(fr, inst, args, st, rt, key)

    def call_fn(self, fr, st, f, args, rt=None):
        """Calls a closure or function value with plain arguments."""
        g = f
        while g.tag == "ptr":
            g = self.read(st, g.args[0], g.args[1])
        if g.tag in ("fn", "fni"):
            inst = self.fn_inst(g)
            if inst is None:
                return [(st, self.unk(rt, "function value"))]
            x = self.P.insts[inst]
            if rt is None:
                rt = self.ret_ty(inst)
            return self.call(fr, inst, args, st, rt, None)
        if g.tag == "agg" and g.args[0] >= 0 and self.kind(g.args[0]) == "closure":
            inst = self.ty(g.args[0])["inst"]
            body = self.P.body(inst)
            if body is None:
                return [(st, self.unk(rt, "closure without body"))]
            selfty = self.ty(body.locals[1])
            root = None
            if selfty["k"] in ("ref", "ptr"):
                if f.tag == "ptr":
                    sv = f
                else:
                    root = ("H", self.uid())
                    st.mem[root] = g
                    sv = mk("ptr", root, ())
            else:
                sv = g
            return self.enter(fr, inst, self.untuple(inst, [sv] + list(args), body), st, body.locals[0])
        return [(st, self.unk(rt if rt is not None else self.P.find_ty("()"), "call of " + g.tag))]

    def ret_ty(self, inst):
        x = self.P.insts[inst]
        if x["body"]:
            return x["body"]["locals"][0]
        return x["ret"]

    def havoc_call(self, fr, inst, args, st, rt, key):
        """An unknown callee: arbitrary result, arbitrary change to what it can mutate."""
        x = self.P.insts[inst]
        self.unmodelled[key] += 1
        if self.kind(rt) == "never":
            return []
        name = mk("unk", self.uid(), "call " + key)
        for i, a in enumerate(args):
            if a.tag in ("ptr", "sptr") and a.args[0][0] in ("L", "H", "S") and self.may_mutate(inst, i):
                self.havoc_target(st, a, mk("fld", name, 9, i))
        return [(st, self.fresh(name, rt))]

    def havoc_target(self, st, a, name=None):
        """Whatever a points to is unknown from here on."""
        if a.tag not in ("ptr", "sptr") or a.args[0][0] not in ("L", "H", "S"):
            return
        try:
            old = self.read(st, a.args[0], a.args[1])
        except Fork:
            old = None
        if old is None:
            return
        if name is None:
            name = mk("unk", self.uid(), "mutated")
        if old.tag == "seq":
            # A fixed place: the number of elements stays.
            if a.tag == "sptr":
                self.write(st, a.args[0], a.args[1], self.mkseq([mk("win", self.base(name, self.u8), ZERO, self.seq_len(old))]))
                return
        t = self.val_ty(old)
        if t is not None:
            self.write(st, a.args[0], a.args[1], self.fresh(name, t))
        else:
            self.write(st, a.args[0], a.args[1], mk("unk", self.uid(), "mutated"))

    def write_range(self, st, p, val):
        """Overwrites the slice p points to with a sequence of the same length."""
        root, path, start, n = p.args
        s = self.read(st, root, path)
        if s.tag != "seq":
            s = self.mkseq([mk("win", self.base(s, self.u8), ZERO, self.seq_len(s))])
        a, r = self.split_seq(st, s, start)
        _, c = self.split_seq(st, r, n)
        self.write(st, root, path, self.mkseq(list(a.args[0]) + list(val.args[0]) + list(c.args[0])))

    def may_mutate(self, inst, i):
        x = self.P.insts[inst]
        body = self.P.body(inst)
        if body is not None and i + 1 < len(body.locals):
            t = self.ty(body.locals[i + 1])
            return t["k"] in ("ref", "ptr") and bool(t["mut"])
        return True

    def val_ty(self, v):
        if v is None:
            return None
        if v.tag == "sym":
            return v.args[1]
        if v.tag == "agg":
            return v.args[0] if v.args[0] >= 0 else None
        return None

    # ------------------------------------------------------------ loops
    def run_loop(self, fr, h, region, st):
        live = fr.body.live_in(h)
        for l in range(len(fr.body.locals)):
            if l not in live:
                st.mem.pop(("L", fr.fid, l), None)

        def step(s):
            _, backs, exits = self.explore(fr, [(h, 0, s)], region, h)
            for b in backs:
                for l in range(len(fr.body.locals)):
                    if l not in live:
                        b.mem.pop(("L", fr.fid, l), None)
            return backs, exits
        fr.blk = h
        fn, site = self.where(fr)
        info = LoopInfo(self.uid(), self.P.insts[fr.inst]["name"], site, fr.stack + ((fr.inst, h),))
        info.key = (fr.inst, h)
        info.live = lambda b: fr.body.live_in(b)
        info.fid = fr.fid
        return self.s.solve_loop(self, info, step, st)
