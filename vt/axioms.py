"""Preconditions of the analysed entry points.

A MessageRef, EnumRef or ServiceRef that occurs in a context, or is handed to it by
the caller, belongs to that context: it is in range of the item table and the item has
the kind the reference names (what C15 decides; the documented precondition of resolve_*).
"""
from .terms import I, mk, ge0, addc, sub, eq0, is_int

KINDS = {"MessageRef": "Message", "EnumRef": "Enum", "ServiceRef": None, "PackageRef": None}
TABLES = {"MessageRef": "TypeInfo", "EnumRef": "TypeInfo", "ServiceRef": "Service", "PackageRef": "Package"}


def last(n):
    return n.split("::")[-1]


def ref_kind(e, idx):
    """The reference type the index idx was taken out of."""
    if not is_int(idx) or len(idx.args[1]) != 1 or idx.args[0] or idx.args[1][0][1] != 1:
        return None
    a = idx.args[1][0][0]
    if a.tag != "int":
        return None
    n = a.args[0]
    while getattr(n, "tag", None) == "fld":
        n = n.args[0]
        t = e.symty.get(n)
        if t is not None and e.P.types[t]["k"] == "adt":
            k = last(e.P.types[t]["adt"])
            if k in TABLES:
                return k
    return None


def install(e):
    e.index_axioms.append(index)
    e.axioms.append(variant)


def adt_last(e, t):
    ty = e.P.types[t] if t is not None else None
    return last(ty["adt"]) if ty and ty["k"] == "adt" else None


def index(e, st, root, path, idx, n):
    idx = st.facts.norm(idx)
    k = ref_kind(e, idx)
    if k is None:
        return None
    try:
        s = e.read(st, root, path)
    except Exception:
        return None
    el = None
    if s.tag == "seq" and len(s.args[0]) == 1 and s.args[0][0].tag == "win":
        el = s.args[0][0].args[0].args[1]
    if el is None or adt_last(e, el) != TABLES[k]:
        return None
    return st.facts.assume(ge0(addc(sub(n, idx), -1)))


def variant(e, st, v, dom):
    """The kind of the item a reference leads to."""
    if adt_last(e, v.args[1]) != "TypeInfo" or getattr(v.args[0], "tag", None) != "el":
        return dom
    k = ref_kind(e, v.args[0].args[1])
    want = KINDS.get(k)
    if want is None:
        return dom
    vs = e.P.adts[e.P.types[v.args[1]]["adt"]]["variants"]
    keep = {x["discr"] for x in vs if x["name"] == want}
    return [d for d in dom if d in keep] or dom
