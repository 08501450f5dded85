"""The dumped program: types, instances, bodies, control-flow graphs."""
import sys
from . import dump


class Body:
    """Control-flow facts of one MIR body."""

    def __init__(self, j):
        self.j = j
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.succ = [self._succ(b["t"]) for b in self.blocks]
        self._loops = None
        self._live = None

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[7]] if t[7] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def loops(self):
        """header -> set of blocks of its natural loop."""
        if self._loops is None:
            n = len(self.blocks)
            # Reverse postorder.
            order, state = [], [0] * n
            stack = [(0, iter(self.succ[0]))]
            state[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if state[s] == 0:
                        state[s] = 1
                        stack.append((s, iter(self.succ[s])))
                        break
                else:
                    order.append(b)
                    stack.pop()
            order.reverse()
            pos = {b: i for i, b in enumerate(order)}
            preds = {b: [] for b in order}
            for b in order:
                for s in self.succ[b]:
                    preds[s].append(b)
            idom = {0: 0}
            changed = True
            while changed:
                changed = False
                for b in order[1:]:
                    new = None
                    for p in preds[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while pos[x] > pos[y]:
                                        x = idom[x]
                                    while pos[y] > pos[x]:
                                        y = idom[y]
                                new = x
                    if idom.get(b) != new:
                        idom[b] = new
                        changed = True

            def dom(a, b):
                while True:
                    if a == b:
                        return True
                    if b == 0:
                        return False
                    b = idom[b]
            loops = {}
            for b in order:
                for s in self.succ[b]:
                    if dom(s, b):
                        body = loops.setdefault(s, {s})
                        work = [b]
                        while work:
                            x = work.pop()
                            if x not in body:
                                body.add(x)
                                work.extend(preds[x])
            self._loops = loops
        return self._loops

    def live_in(self, b):
        """Locals that may be read from block b on; borrowed locals always count."""
        if self._live is None:
            n = len(self.blocks)
            use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]
            borrowed = set(range(1, self.argc + 1)) if False else set()
            for i, blk in enumerate(self.blocks):
                u, d = use[i], dfn[i]

                def rd(l):
                    if l not in d:
                        u.add(l)

                def place(p, write=False):
                    l, proj = p
                    for e in proj:
                        if e[0] == "i":
                            rd(e[1])
                    if write and not proj:
                        d.add(l)
                    else:
                        rd(l)

                def op(o):
                    if o[0] in ("c", "m"):
                        place(o[1])

                def rv(r):
                    k = r[0]
                    if k == "use":
                        op(r[1])
                    elif k == "agg":
                        for o in r[3]:
                            op(o)
                    elif k in ("bin", "chk"):
                        op(r[2])
                        op(r[3])
                    elif k == "cast":
                        op(r[2])
                    elif k in ("discr", "len"):
                        place(r[1])
                    elif k in ("ref", "addr"):
                        place(r[2])
                        if not any(e[0] == "d" for e in r[2][1]):
                            borrowed.add(r[2][0])
                    elif k == "repeat":
                        op(r[1])
                    elif k == "un":
                        op(r[2])
                for s in blk["s"]:
                    if s[0] == "=":
                        rv(s[2])
                        place(s[1], True)
                    elif s[0] == "setd":
                        place(s[1])
                    elif s[0] in ("dead", "live"):
                        d.add(s[1])
                t = blk["t"]
                if t[0] == "switch":
                    op(t[1])
                elif t[0] == "drop":
                    pass
                elif t[0] == "assert":
                    op(t[1])
                elif t[0] == "call":
                    if t[4] is not None:
                        op(t[4])
                    for a in t[5]:
                        op(a)
                    place(t[6], True)
                elif t[0] == "return":
                    rd(0)
            live = [set() for _ in range(n)]
            changed = True
            while changed:
                changed = False
                for i in range(n - 1, -1, -1):
                    out = set()
                    for s in self.succ[i]:
                        out |= live[s]
                    new = use[i] | (out - dfn[i])
                    if new != live[i]:
                        live[i] = new
                        changed = True
            self._live = live
            self._borrowed = borrowed
        return self._live[b] | self._borrowed


class Program:
    def __init__(self, d=None):
        d = d or dump.load()
        self.types = d["types"]
        self.adts = d["adts"]
        self.insts = d["insts"]
        self.roots = d["roots"]
        self.api = d["api"]
        self.layouts = d["layouts"]
        self._body = {}
        self.by_name = {}
        for i, x in enumerate(self.insts):
            self.by_name.setdefault(x["name"], []).append(i)
        self._tyname = {}
        for i, t in enumerate(self.types):
            self._tyname.setdefault(t["s"], i)

    def body(self, i):
        b = self._body.get(i)
        if b is None and i not in self._body:
            j = self.insts[i]["body"]
            b = Body(j) if j else None
            self._body[i] = b
        return b

    def ty(self, t):
        return self.types[t]

    def tstr(self, t):
        return self.types[t]["s"]

    def find_ty(self, s):
        return self._tyname.get(s)

    def find(self, name):
        """The instances whose definition path ends with name."""
        return [i for i, x in enumerate(self.insts) if x["local"] and (x["name"] == name or x["name"].endswith("::" + name)
                or x["name"].endswith(">::" + name))]

    def method(self, typ, name):
        """The instances of an inherent or trait method `name` of the type
        whose path ends with typ, wherever the impl block is written."""
        import re
        t = r"(?:[\w]+::)*" + re.escape(typ) + r"(?:<[^>]*>)?"
        pat = re.compile(r"^(?:(?:[\w]+::)*<impl %s>::%s|<%s as .*>::%s|(?:[\w]+::)*%s::%s)(?:::<.*>)?$" % (
            t, name, t, name, re.escape(typ), name))
        return [i for i, x in enumerate(self.insts) if x["local"] and pat.match(x["name"])]

    def adt_of(self, t):
        ty = self.types[t]
        return self.adts.get(ty["adt"]) if ty["k"] == "adt" else None

    def variants(self, t):
        """[(discr, [field types])] for an adt."""
        ty = self.types[t]
        a = self.adts[ty["adt"]]
        return [(v["discr"], ty["vf"][i]) for i, v in enumerate(a["variants"])]

    def variant_name(self, t, v):
        return self.adts[self.types[t]["adt"]]["variants"][v]["name"]

    def field_index(self, t, variant, name):
        f = self.adts[self.types[t]["adt"]]["variants"][variant]["fields"]
        return f.index(name) if name in f else None


def pp_place(P, p):
    s = "_%d" % p[0]
    for e in p[1]:
        s += {"d": ".*", "f": ".%s", "i": "[_%s]", "ci": "[c%s]", "ss": "[sub%s]", "v": "@%s", "oc": ""}[e[0]] % (
            () if e[0] in ("d", "oc") else (e[1],))
    return s


def pp_op(P, o):
    if o[0] in ("c", "m"):
        return pp_place(P, o[1])
    if o[0] == "k":
        c = o[1]
        return "const(%s %s)" % (P.tstr(c["ty"])[:60], str({k: v for k, v in c.items() if k != "ty"})[:60])
    return str(o)


def pp_body(P, i):
    x = P.insts[i]
    print("fn #%d %s" % (i, x["name"]), "args", [P.tstr(a) for a in x["args"]], "->", P.tstr(x["ret"]))
    b = P.body(i)
    print(" locals", {k: P.tstr(t)[:70] for k, t in enumerate(b.locals)})
    for n, blk in enumerate(b.blocks):
        print(" bb%d:" % n)
        for s in blk["s"]:
            if s[0] == "=":
                r = s[2]
                f = lambda z: pp_op(P, z) if isinstance(z, list) and z and z[0] in ("c", "m", "k", "rc") else (
                    pp_place(P, z) if isinstance(z, list) and len(z) == 2 and isinstance(z[0], int) and isinstance(z[1], list) else (
                        [f(q) for q in z] if isinstance(z, list) else z))
                print("   ", pp_place(P, s[1]), "=", r[0], *[f(z) for z in r[1:]])
            elif s[0] not in ("live", "dead"):
                print("   ", s)
        t = blk["t"]
        if t[0] == "call":
            print("    call", t[1], P.insts[t[1]]["name"][:140] if t[1] is not None else t[2], "(", *[pp_op(P, a) for a in t[5]],
                  ") ->", pp_place(P, t[6]), "bb", t[7])
        elif t[0] == "switch":
            print("    switch", pp_op(P, t[1]), t[2], t[3])
        elif t[0] == "assert":
            print("    assert", pp_op(P, t[1]), t[2:])
        else:
            print("   ", t)


if __name__ == "__main__":
    P = Program()
    for i, x in enumerate(P.insts):
        if sys.argv[1] in x["name"] and x["body"] and (len(sys.argv) < 3 or sys.argv[2] != "all" or True):
            pp_body(P, i)
