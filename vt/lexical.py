"""C23: keywords end at word boundaries, and no alternative of the grammar hides a later one."""
from .grammar import *

def keyword(t):
    return len(t) > 1 and t[0].isalpha() and t.isalnum()

def choices(g):
    """Every ordered choice: (rule, atomic, alternatives)."""
    def walk(e, rule, at):
        if e[0] == 'choice':
            yield rule, at, e[1]
        if e[0] in ('seq', 'choice'):
            for x in e[1]:
                yield from walk(x, rule, at)
        elif e[0] in ('star', 'plus', 'opt', 'rep', 'pos', 'neg'):
            yield from walk(e[1], rule, at)
    atomic = contexts(g)
    for n, (m, e, l) in g.rules.items():
        for at in sorted(atomic.get(n, {False})):
            yield from walk(e, n, at)

def contexts(g):
    """rule -> set of atomicities it is entered with, from `proto`-like roots (rules no other uses)."""
    used = {r for m, e, l in g.rules.values() for r in refs(e)}
    roots = [n for n in g.rules if n not in used]
    out = {}
    work = [(r, False) for r in roots] + [(r, True) for r in ('WHITESPACE', 'COMMENT') if r in g.rules]
    while work:
        n, at = work.pop()
        if n not in g.rules:
            continue
        m, e, l = g.rules[n]
        at = True if m in ('@', '$') else False if m == '!' else at
        if at in out.setdefault(n, set()):
            continue
        out[n].add(at)
        work += [(r, at) for r in refs(e)]
    return out

def roots(g):
    used = {r for m, e, l in g.rules.values() for r in refs(e)}
    return [n for n in g.rules if n not in used and n not in ('WHITESPACE', 'COMMENT')]

def leads(g, e, seen=()):
    """What can come first: 'kw' only keywords, 'other' anything else, None nothing (may be empty)."""
    k = e[0]
    if k in ('str', 'ins'):
        return {'kw' if keyword(e[1]) else 'other'} if e[1] else {None}
    if k in ('range', 'set'):
        return {'other'}
    if k == 'seq':
        out = set()
        for x in e[1]:
            r = leads(g, x, seen)
            out |= r - {None}
            if None not in r:
                return out
        return out | {None}
    if k == 'choice':
        return set().union(*[leads(g, x, seen) for x in e[1]])
    if k in ('opt', 'star'):
        return leads(g, e[1], seen) | {None}
    if k in ('plus',):
        return leads(g, e[1], seen)
    if k == 'rep':
        return leads(g, e[1], seen) | ({None} if not e[2] else set())
    if k in ('pos', 'neg'):
        return {None}
    if e[1] in ('SOI', 'EOI'):
        return {None}
    if e[1] in BUILTIN or e[1] in seen or e[1] not in g.rules:
        return {'other'}
    return leads(g, g.rules[e[1]][1], seen + (e[1],))

def word(al, w):
    return repr(al.word(w))

def boundaries(g, al):
    """Keywords some accepted text continues with a letter, digit or underscore."""
    ident = al.cls([(48, 57), (65, 90), (97, 122), (95, 95)])
    bad, n = [], 0
    seen_lit = set()
    for root in roots(g):
        a = Auto(g, al, cyclic=True)
        s, t = a.build(('ref', root))
        ends = {}
        for text, rule, line, st in a.lits:
            if keyword(text) and rule != SKIP:
                ends.setdefault(st, (text, rule, line))
        start = a.closure({(s, frozenset())})
        seen = {c: None for c in start}
        work = list(start)
        hit = {}
        while work:
            cfg = work.pop()
            by = {}
            for ed in a.edges[cfg[0]]:
                if ed[0] == 'c':
                    for c in ed[1]:
                        by.setdefault(c, []).append(ed[2])
            for c, tos in by.items():
                o = a.step_obs(cfg[1], c)
                if o is None:
                    continue
                for q in tos:
                    nx = (q, o)
                    if q in ends and ends[q] not in hit:
                        # what may follow the keyword here
                        lit = ends[q]
                        for p2, ob2 in a.closure({nx}):
                            for ed in a.edges[p2]:
                                if ed[0] == 'c':
                                    for d in sorted(ed[1] & ident):
                                        if a.step_obs(ob2, d) is not None:
                                            hit[lit] = al.show(d)
                                            break
                                if lit in hit:
                                    break
                            if lit in hit:
                                break
                    for n2 in a.closure({nx}):
                        if n2 not in seen:
                            seen[n2] = True
                            work.append(n2)
            if len(seen) > 400000:
                raise GrammarError("too many configurations")
        n += len(ends)
        for (text, rule, line), c in hit.items():
            bad.append(("%s:%d" % (g.path, line), "rule %s: the keyword %r matches the start of a longer word (%r)"
                        % (rule, text, text + c)))
    return bad, n

def prefix_conflict(ai, s, t, di, dj, rest):
    """Shortest word of dj of which the automaton ai matches a proper prefix, and not the whole.
    The cut has to fall inside a token: `rest` says that no white space follows it."""
    start = frozenset(ai.closure({(s, frozenset())}))
    def holds(obs):
        return all((q in d.acc or q in d.end) == pos for d, pos, q in obs)
    def nexts(x):
        S, done, q = x
        for c, r in dj.trans[q].items():
            nx = ai.step(S, c)
            nd = set()
            for obs in list(done) + [obs | rest for p, obs in S if p == t]:
                o = ai.step_obs(obs, c)
                if o is not None:
                    nd.add(o)
            nx = frozenset(ai.closure(nx)) if nx else frozenset()
            if nx or nd:
                yield c, (nx, frozenset(nd), r)
    def goal(x):
        S, done, q = x
        return (q in dj.acc and any(holds(o) for o in done)
                and not any(p == t and holds(o) for p, o in S))
    return search([(start, frozenset(), dj.start)], nexts, goal)

def alternatives(g, al):
    bad, n = [], 0
    k = g.skip()
    rest = frozenset()
    if k is not None:
        d = Auto(g, al).lookahead(k[1], True)
        rest = frozenset([(d, False, d.start)])
    for rule, at, alts in choices(g):
        ds = [lang(g, al, e, at) for e in alts]
        autos = []
        for e in alts:
            a = Auto(g, al)
            autos.append((a,) + a.build(e, at))
        where = "%s:%d" % (g.path, g.rules[rule][2])
        for j in range(len(alts)):
            for i in range(j):
                n += 1
                di, dj = ds[i], ds[j]
                only = witness_in_not(dj, di)
                if only is None:
                    back = witness_in_not(di, dj)
                    if back is not None:
                        bad.append((where, "rule %s: alternative %d (%s) is never tried: alternative %d (%s) takes all its text"
                                    % (rule, j + 1, show(alts[j]), i + 1, show(alts[i]))))
                    continue
                w = prefix_conflict(*autos[i], di, dj, rest)
                if w is not None:
                    bad.append((where, "rule %s: alternative %d (%s) stops inside %s, which alternative %d (%s) would take whole"
                                % (rule, i + 1, show(alts[i]), word(al, w), j + 1, show(alts[j]))))
                    continue
                if leads(g, alts[j]) == {'kw'} and 'other' in leads(g, alts[i]):
                    w = witness_both(di, dj)
                    if w is not None and witness_in_not(di, dj) is not None:
                        bad.append((where, "rule %s: alternative %d (%s) takes %s as an identifier before alternative %d (%s) sees its keyword"
                                    % (rule, i + 1, show(alts[i]), word(al, w), j + 1, show(alts[j]))))
    return bad, n

def show(e):
    k = e[0]
    if k == 'ref':
        return e[1]
    if k in ('str', 'ins'):
        return repr(e[1])
    if k == 'seq':
        return show(e[1][0]) + ' ~ ...' if len(e[1]) > 1 else show(e[1][0])
    if k == 'choice':
        return '(%s | ...)' % show(e[1][0])
    if k in ('opt', 'star', 'plus', 'rep', 'pos', 'neg'):
        return show(e[1]) + '...'
    return k

SPEC = '''
letter = { 'A'..'Z' | 'a'..'z' | "_" }
first = { 'A'..'Z' | 'a'..'z' }
ident = @{ first ~ ( letter | '0'..'9' )* }
'''

def check(rep, repo):
    g = find(repo)
    spec = Grammar(SPEC)
    al = Alphabet([g, spec])
    rep.count("grammar rules", len(g.rules))
    bad, n = boundaries(g, al)
    rep.count("keyword occurrences", n)
    rep.prove("a keyword is followed by no letter, digit or underscore in any accepted text", n - len(bad))
    for where, text in bad:
        rep.violation(text, where)
    bad, n = alternatives(g, al)
    rep.count("pairs of alternatives", n)
    rep.prove("the earlier alternative neither hides the later one nor stops inside its text", n - len(bad))
    for where, text in bad:
        rep.violation(text, where)
    if 'ident' not in g.rules:
        rep.undecide("no rule named ident")
        return
    d, s = lang(g, al, ('ref', 'ident'), True), lang(spec, al, ('ref', 'ident'), True)
    w = witness_in_not(d, s)
    if w is not None:
        rep.violation("rule ident: accepts %s" % word(al, w), "%s:%d" % (g.path, g.rules['ident'][2]))
    w = witness_in_not(s, d)
    if w is not None:
        rep.violation("rule ident: does not accept %s" % word(al, w), "%s:%d" % (g.path, g.rules['ident'][2]))
    rep.prove("identifiers are a letter followed by letters, digits and underscores")
