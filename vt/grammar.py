"""The crate's pest grammar: reader, automata for the languages it describes.

Parsing expressions are ordered: a choice commits to its first alternative that matches, a
repetition takes all it can.  Two readings are used here.  `Auto` is the declarative one (choice is
union), with look-ahead kept as obligations that run beside the automaton, so that `!identChar`
after a keyword really forbids the next character.  `parse tree` shape (which pairs a rule yields)
is derived by `child_nfa`.
"""
import os, re

SKIP = "\0skip"

class GrammarError(Exception):
    pass

# ------------------------------------------------------------------------------------------ reader

TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<str>\^?"(?:\\.|[^"\\])*")|(?P<chr>'(?:\\(?:u\{[0-9a-fA-F]+\}|x..|.)|[^'\\])')|(?P<id>[A-Za-z_]\w*)|(?P<num>\d+)|(?P<op>\.\.|[={}()|~&!*+?@$,\[\]\-#])''', re.S)

def unescape(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c != '\\':
            out.append(c); i += 1; continue
        d = s[i + 1]
        if d == 'x':
            out.append(chr(int(s[i + 2:i + 4], 16))); i += 4
        elif d == 'u':
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16))); i = j + 1
        else:
            out.append({'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}.get(d, d)); i += 2
    return ''.join(out)

class Reader:
    def __init__(self, text):
        self.t = []
        pos = 0
        while pos < len(text):
            m = TOK.match(text, pos)
            if not m:
                raise GrammarError("cannot read the grammar near %r" % text[pos:pos + 20])
            pos = m.end()
            if m.lastgroup:
                self.t.append((m.lastgroup, m.group(m.lastgroup), text.count('\n', 0, m.start()) + 1))
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None, 0)

    def eat(self, v=None):
        t = self.peek()
        if v is not None and t[1] != v:
            raise GrammarError("expected %s, found %s (line %s)" % (v, t[1], t[2]))
        self.i += 1
        return t

    def rules(self):
        out = {}
        while self.i < len(self.t):
            kind, name, line = self.eat()
            if kind != 'id':
                raise GrammarError("expected a rule name, line %d" % line)
            self.eat('=')
            mod = ''
            if self.peek()[1] in ('_', '@', '$', '!'):
                mod = self.eat()[1]
            self.eat('{')
            e = self.choice()
            self.eat('}')
            out[name] = (mod, e, line)
        return out

    def choice(self):
        if self.peek()[1] == '|':
            self.eat()
        alts = [self.seq()]
        while self.peek()[1] == '|':
            self.eat()
            alts.append(self.seq())
        return alts[0] if len(alts) == 1 else ('choice', tuple(alts), self.peek()[2])

    def seq(self):
        xs = [self.prefix()]
        while self.peek()[1] == '~':
            self.eat()
            xs.append(self.prefix())
        return xs[0] if len(xs) == 1 else ('seq', tuple(xs))

    def prefix(self):
        v = self.peek()[1]
        if v in ('&', '!'):
            self.eat()
            return ('pos' if v == '&' else 'neg', self.prefix())
        e = self.atom()
        while True:
            v = self.peek()[1]
            if v == '*':
                self.eat(); e = ('star', e)
            elif v == '+':
                self.eat(); e = ('plus', e)
            elif v == '?':
                self.eat(); e = ('opt', e)
            elif v == '{':
                self.eat()
                lo = hi = None
                if self.peek()[0] == 'num':
                    lo = int(self.eat()[1])
                    hi = lo
                if self.peek()[1] == ',':
                    self.eat()
                    hi = int(self.eat()[1]) if self.peek()[0] == 'num' else None
                    lo = lo or 0
                self.eat('}')
                e = ('rep', e, lo, hi)
            else:
                return e

    def atom(self):
        kind, v, line = self.eat()
        if kind == 'str':
            ins = v[0] == '^'
            return ('ins' if ins else 'str', unescape(v[2:-1] if ins else v[1:-1]), line)
        if kind == 'chr':
            self.eat('..')
            return ('range', ord(unescape(v[1:-1])), ord(unescape(self.eat()[1][1:-1])))
        if kind == 'id':
            if self.peek()[1] == '(' and v == 'PUSH':
                raise GrammarError("PUSH is not supported")
            return ('ref', v)
        if v == '(':
            e = self.choice()
            self.eat(')')
            return e
        raise GrammarError("unexpected %s, line %d" % (v, line))

BUILTIN = {
    'ANY': [(0, 0x10ffff)],
    'ASCII_DIGIT': [(48, 57)], 'ASCII_NONZERO_DIGIT': [(49, 57)], 'ASCII_BIN_DIGIT': [(48, 49)],
    'ASCII_OCT_DIGIT': [(48, 55)], 'ASCII_HEX_DIGIT': [(48, 57), (65, 70), (97, 102)],
    'ASCII_ALPHA_LOWER': [(97, 122)], 'ASCII_ALPHA_UPPER': [(65, 90)],
    'ASCII_ALPHA': [(65, 90), (97, 122)], 'ASCII_ALPHANUMERIC': [(48, 57), (65, 90), (97, 122)],
    'ASCII': [(0, 127)],
}

class Grammar:
    def __init__(self, text, path=None):
        self.path = path
        self.text = text
        self.rules = Reader(text).rules()
        self.has_ws = 'WHITESPACE' in self.rules
        self.has_comment = 'COMMENT' in self.rules
        for n, (m, e, l) in self.rules.items():
            for r in refs(e):
                if r not in self.rules and r not in BUILTIN and r not in ('SOI', 'EOI', 'NEWLINE'):
                    raise GrammarError("rule %s uses %s, which is not defined" % (n, r))

    def skip(self):
        xs = [('ref', r) for r in ('WHITESPACE', 'COMMENT') if r in self.rules]
        if not xs:
            return None
        return ('star', xs[0] if len(xs) == 1 else ('choice', tuple(xs), 0))

def refs(e):
    if e[0] == 'ref':
        yield e[1]
    elif e[0] in ('seq', 'choice'):
        for x in e[1]:
            yield from refs(x)
    elif e[0] in ('star', 'plus', 'opt', 'rep', 'pos', 'neg'):
        yield from refs(e[1])

def find(repo):
    """The grammar a `#[grammar = ...]` attribute of the sources names."""
    for d, _, fs in sorted(os.walk(os.path.join(repo, 'src'))):
        for f in sorted(fs):
            if not f.endswith('.rs'):
                continue
            t = open(os.path.join(d, f), encoding='utf8', newline='').read()
            m = re.search(r'^\s*#\[grammar\s*=\s*"([^"]+)"\s*\]', t, re.M)
            if m:
                p = os.path.join(repo, 'src', m.group(1))
                return Grammar(open(p, encoding='utf8').read(), os.path.relpath(p, repo))
            m = re.search(r'^\s*#\[grammar_inline\s*=\s*r(#*)"(.*?)"\1\s*\]', t, re.M | re.S)
            if m:
                return Grammar(m.group(2), os.path.relpath(os.path.join(d, f), repo))
    raise GrammarError("no pest grammar found")

# ---------------------------------------------------------------------------------------- automata

class Alphabet:
    """Code points grouped into classes no part of the grammar tells apart."""
    def __init__(self, gs, extra=()):
        cuts = {0, 0x110000}
        def walk(e):
            if e[0] in ('str', 'ins'):
                for c in e[1]:
                    for d in {c, c.lower(), c.upper()} if e[0] == 'ins' else {c}:
                        cuts.update((ord(d), ord(d) + 1))
            elif e[0] == 'range':
                cuts.update((e[1], e[2] + 1))
            elif e[0] == 'set':
                for a, b in e[1]:
                    cuts.update((a, b + 1))
            elif e[0] in ('seq', 'choice'):
                for x in e[1]:
                    walk(x)
            elif e[0] in ('star', 'plus', 'opt', 'rep', 'pos', 'neg'):
                walk(e[1])
        for g in gs:
            for m, e, l in g.rules.values():
                walk(e)
        for e in extra:
            walk(e)
        for rs in BUILTIN.values():
            for a, b in rs:
                cuts.update((a, b + 1))
        cuts.update((10, 11, 13, 14))
        cs = sorted(cuts)
        self.lo = cs[:-1]
        self.hi = [c - 1 for c in cs[1:]]
        self.n = len(self.lo)
        self.all = frozenset(range(self.n))
        self.syms = {}

    def symbol(self, name):
        if name not in self.syms:
            self.syms[name] = self.n + len(self.syms)
        return self.syms[name]

    def cls(self, ranges):
        return frozenset(i for i in range(self.n) for a, b in ranges if a <= self.lo[i] and self.hi[i] <= b)

    def show(self, i):
        if i >= self.n:
            return '<%s>' % [n for n, k in self.syms.items() if k == i][0]
        return chr(self.lo[i])

    def word(self, w):
        return ''.join(self.show(i) for i in w)

class Auto:
    """Automaton of an expression.  Edges: ('e', to), ('c', classes, to), ('la', positive, dfa, to).
    Literal occurrences are remembered in `lits`: (text, rule, line, last state)."""
    def __init__(self, g, al, cyclic=False):
        self.g, self.al, self.cyclic = g, al, cyclic
        self.edges = []
        self.lits = []
        self.memo = {}
        self.stack = []
        self.dfas = {}
        self.spans = {}

    def new(self):
        self.edges.append([])
        return len(self.edges) - 1

    def eps(self, a, b):
        self.edges[a].append(('e', b))

    def chars(self, a, cs, b):
        self.edges[a].append(('c', cs, b))

    def build(self, e, atomic=False, rule='', start=None):
        s = self.new() if start is None else start
        return s, self.ex(e, s, atomic, rule)

    def skip(self, s, atomic, rule):
        if atomic:
            return s
        k = self.g.skip()
        return s if k is None else self.ex(k, s, True, SKIP)

    def ex(self, e, s, atomic, rule):
        k = e[0]
        if k == 'str' or k == 'ins':
            for c in e[1]:
                t = self.new()
                cs = {c, c.lower(), c.upper()} if k == 'ins' else {c}
                self.chars(s, self.al.cls([(ord(d), ord(d)) for d in cs]), t)
                s = t
            self.lits.append((e[1], rule, e[2], s))
            return s
        if k == 'range':
            t = self.new()
            self.chars(s, self.al.cls([(e[1], e[2])]), t)
            return t
        if k == 'set':
            t = self.new()
            self.chars(s, self.al.cls(e[1]), t)
            return t
        if k == 'seq':
            for i, x in enumerate(e[1]):
                if i:
                    s = self.skip(s, atomic, rule)
                s = self.ex(x, s, atomic, rule)
            return s
        if k == 'choice':
            t = self.new()
            for x in e[1]:
                a = self.new()
                self.eps(s, a)
                self.eps(self.ex(x, a, atomic, rule), t)
            return t
        if k == 'opt':
            t = self.new()
            self.stop(e[1], s, t, atomic)
            a = self.new()
            self.eps(s, a)
            self.eps(self.ex(e[1], a, atomic, rule), t)
            return t
        if k == 'star':
            t, a = self.new(), self.new()
            self.stop(e[1], s, t, atomic)
            self.eps(s, a)
            b = self.ex(e[1], a, atomic, rule)
            self.stop(e[1], b, t, atomic)
            self.eps(self.skip(b, atomic, rule), a)
            return t
        if k == 'plus':
            a, t = self.new(), self.new()
            self.eps(s, a)
            b = self.ex(e[1], a, atomic, rule)
            self.stop(e[1], b, t, atomic)
            self.eps(self.skip(b, atomic, rule), a)
            return t
        if k == 'rep':
            lo, hi = e[2], e[3]
            for i in range(lo):
                if i:
                    s = self.skip(s, atomic, rule)
                s = self.ex(e[1], s, atomic, rule)
            if hi is None:
                a = self.skip(s, atomic, rule) if lo else s
                b = self.ex(('star', e[1]), a, atomic, rule)
                t = self.new()
                self.eps(s, t); self.eps(b, t)
                return t
            t = self.new()
            self.eps(s, t)
            for i in range(lo, hi):
                a = self.skip(s, atomic, rule) if i else s
                s = self.ex(e[1], a, atomic, rule)
                self.eps(s, t)
            return t
        if k in ('pos', 'neg'):
            t = self.new()
            self.edges[s].append(('la', k == 'pos', self.lookahead(e[1], atomic), t))
            return t
        if k == 'ref':
            return self.ref(e[1], s, atomic)
        raise GrammarError("expression %s" % k)

    def stop(self, e, s, t, atomic):
        """A repetition ends only where its element does not match; said for one-character
        elements, where it decides how the text splits into tokens."""
        if self.greedy(e, atomic):
            self.edges[s].append(('la', False, self.lookahead(e, True), t))
        else:
            self.eps(s, t)

    def greedy(self, e, atomic, depth=0):
        if depth > 6:
            return False
        k = e[0]
        if k in ('range', 'set'):
            return True
        if k in ('str', 'ins'):
            return len(e[1]) == 1
        if k == 'choice':
            return all(self.greedy(x, atomic, depth + 1) for x in e[1])
        if k == 'ref':
            if e[1] in BUILTIN:
                return True
            return e[1] in self.g.rules and self.greedy(self.g.rules[e[1]][1], atomic, depth + 1)
        if k == 'seq' and atomic:
            return all(x[0] == 'neg' for x in e[1][:-1]) and self.greedy(e[1][-1], atomic, depth + 1)
        return False

    def ref(self, name, s, atomic):
        if name in ('SOI', 'EOI'):
            return s
        if name == 'NEWLINE':
            return self.ex(('choice', (('str', '\n', 0), ('str', '\r\n', 0), ('str', '\r', 0)), 0), s, True, '')
        if name not in self.g.rules:
            t = self.new()
            self.chars(s, self.al.cls(BUILTIN[name]), t)
            return t
        mod, e, line = self.g.rules[name]
        at = True if mod in ('@', '$') else False if mod == '!' else atomic
        if name in ('WHITESPACE', 'COMMENT'):
            at = True
        if self.cyclic:
            # A recursive use enters the copy being built and leaves it to both callers.
            key = (name, at)
            if key in self.memo:
                a, b = self.memo[key]
                t = self.new()
                self.eps(s, a)
                self.eps(b, t)
                return t
            a, b = self.memo[key] = (self.new(), self.new())
            self.eps(s, a)
            self.eps(self.ex(e, a, at, name), b)
            del self.memo[key]
            return b
        if name in self.stack:
            # A recursive use is a symbol of its own.
            t = self.new()
            self.chars(s, frozenset([self.al.symbol(name)]), t)
            return t
        self.stack.append(name)
        try:
            return self.ex(e, s, at, name)
        finally:
            self.stack.pop()

    def lookahead(self, e, atomic):
        key = (e, atomic)
        if key not in self.dfas:
            a = Auto(self.g, self.al)
            s, t = a.build(e, atomic)
            self.dfas[key] = (DFA.of(a, s, t, prefix=True), len(self.dfas))
        return self.dfas[key][0]

    # -- configurations: a state and the look-ahead obligations still running
    def closure(self, cfgs):
        seen = set(cfgs)
        work = list(cfgs)
        while work:
            p, obs = work.pop()
            for ed in self.edges[p]:
                if ed[0] == 'e':
                    c = (ed[1], obs)
                elif ed[0] == 'la':
                    pos, d, to = ed[1], ed[2], ed[3]
                    if d.start in d.acc:
                        if not pos:
                            continue
                        c = (to, obs)
                    else:
                        c = (to, obs | {(d, pos, d.start)})
                else:
                    continue
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        return seen

    def step_obs(self, obs, c):
        out = set()
        for d, pos, q in obs:
            r = d.step(q, c)
            if r is None:
                if pos:
                    return None
                continue
            if r in d.acc:
                if not pos:
                    return None
                continue
            out.add((d, pos, r))
        return frozenset(out)

    def step(self, cfgs, c):
        out = set()
        for p, obs in cfgs:
            for ed in self.edges[p]:
                if ed[0] == 'c' and c in ed[1]:
                    o = self.step_obs(obs, c)
                    if o is not None:
                        out.add((ed[2], o))
        return out

class DFA:
    """Deterministic automaton over character classes: `trans[state][class]`, dead = missing."""
    def __init__(self, start, trans, acc, al, end=()):
        self.start, self.trans, self.acc, self.al = start, trans, acc, al
        self.end = end    # accepting if the text ends here

    def step(self, q, c):
        return self.trans[q].get(c)

    @staticmethod
    def of(a, s, t, prefix=False):
        """Language of the text between s and t, followed by nothing.  With `prefix`, the texts
        that start with a word of the language: `acc` once that is certain, `end` where it is
        so if the text ends."""
        def holds(obs):
            return all((q in d.acc or q in d.end) == pos for d, pos, q in obs)
        start = frozenset(a.closure({(s, frozenset())}))
        ids, trans, acc, end = {start: 0}, [{}], set(), set()
        work = [start]
        while work:
            S = work.pop()
            i = ids[S]
            fin = [obs for p, obs in S if p == t]
            if any(holds(obs) for obs in fin):
                (end if prefix else acc).add(i)
            if prefix and any(not obs for obs in fin):
                acc.add(i)
                continue
            by = {}
            for p, obs in S:
                if p == t and prefix:
                    for c in a.al.all:
                        by.setdefault(c, []).append((t, obs))
                for ed in a.edges[p]:
                    if ed[0] == 'c':
                        for c in ed[1]:
                            by.setdefault(c, []).append((ed[2], obs))
            groups = {}
            for c, l in by.items():
                nx = set()
                for q, obs in l:
                    o = a.step_obs(obs, c) if obs else obs
                    if o is not None:
                        nx.add((q, o))
                if nx:
                    groups.setdefault(frozenset(nx), []).append(c)
            for nx, cs in groups.items():
                T = frozenset(a.closure(nx))
                if T not in ids:
                    ids[T] = len(trans)
                    trans.append({})
                    work.append(T)
                    if len(trans) > 60000:
                        raise GrammarError("automaton too large")
                for c in cs:
                    trans[i][c] = ids[T]
        return DFA(0, trans, acc, a.al, end)

    def live(self):
        """States from which a word can still be completed."""
        rev = {}
        for i, tr in enumerate(self.trans):
            for j in tr.values():
                rev.setdefault(j, set()).add(i)
        seen, work = set(self.acc), list(self.acc)
        while work:
            for i in rev.get(work.pop(), ()):
                if i not in seen:
                    seen.add(i); work.append(i)
        return seen

def search(starts, nexts, goal):
    """Breadth-first: shortest word to a goal state, or None."""
    seen = {s: None for s in starts}
    work = list(starts)
    while work:
        nw = []
        for s in work:
            if goal(s):
                w = []
                while seen[s] is not None:
                    c, s = seen[s]
                    w.append(c)
                return w[::-1]
            for c, t in nexts(s):
                if t not in seen:
                    seen[t] = (c, s)
                    nw.append(t)
        work = nw
    return None

def witness_in_not(d1, d2):
    """A word of d1 that d2 does not have."""
    def nexts(s):
        a, b = s
        for c, t in d1.trans[a].items():
            yield c, (t, d2.trans[b].get(c) if b is not None else None)
    live = d1.live()
    return search([(d1.start, d2.start)], nexts,
                  lambda s: s[0] in d1.acc and (s[1] is None or s[1] not in d2.acc))

def witness_both(d1, d2):
    def nexts(s):
        a, b = s
        tb = d2.trans[b]
        for c, t in d1.trans[a].items():
            u = tb.get(c)
            if u is not None:
                yield c, (t, u)
    return search([(d1.start, d2.start)], nexts, lambda s: s[0] in d1.acc and s[1] in d2.acc)

def lang(g, al, e, atomic=False):
    a = Auto(g, al)
    s, t = a.build(e, atomic)
    return DFA.of(a, s, t)
