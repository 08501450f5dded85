#!/usr/bin/env python3
"""Writes MANIFEST.json; run after claiming or dropping a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the type-checked MIR (value-numbered symbolic terms, loop fixpoints, interval/linear facts)"
TRUST = " Trusts the models of std and bytes functions, rustc's MIR construction and the analyser."
CLAIM = {
    "C01": (AI + ": panic-site obligations", "Every panic site reachable from Context::decode is discharged on every path, for all contexts and all byte strings; assumes references in the context resolve (C15)." + TRUST),
    "C02": (AI + ": panic-site obligations", "Every panic site reachable from MessageValue::encode is discharged on every path for all values, including hand-built ones." + TRUST),
    "C04": (AI + ": ranking terms for every loop", "Every loop met while decoding has an integer state component that moves strictly towards a loop-invariant bound on every path of its body." + TRUST),
    "C05": (AI + ": recursion measure at every recursive call", "Every recursive call met while decoding passes an argument that moves towards a constant limit of at most 2000 levels." + TRUST),
    "C06": (AI + ": per-path comparison of decoder and encoder records with the wire-format specification", "Decides tags, wire types and numbers for every value variant and every wire type on every path." + TRUST),
    "C07": (AI + ": per-path comparison of scalar codecs with the wire-format specification", "Decides the exact value of every scalar as a term over the payload bytes, both directions." + TRUST),
    "C08": (AI + ": packed loops compared with the specification", "Decides element representation, coverage and order of packed payloads in both directions." + TRUST),
    "C09": (AI + ": retained bytes compared as exact input windows", "Decides that uninterpreted input is kept as the exact input window and written back unchanged." + TRUST),
    "C10": (AI + ": loop summary of the record reader compared with the specification", "Decides one field value per record, its number, its declared type, the next position and nested payload windows on every path." + TRUST),
    "C11": (AI + ": final state compared with the entry state on every error path", "Every error path of every modifying method, from an arbitrary state." + TRUST),
    "C12": (AI + ": table updates matched with each other on every successful path; lookups compared with the tables", "Inductive: each lookup and each modification is decided from an arbitrary consistent state; how a parse fills the tables is not part of it." + TRUST),
    "C13": (AI + ": inductive step over the modifications of a message", "Every successful path of every modification, from an arbitrary state in which the claim holds; parsed messages are not part of it." + TRUST),
    "C14": (AI + ": facts excluding or establishing a conflict on every path", "Every path of every modifying method, from an arbitrary state; parsing is not part of it." + TRUST),
    "C19": ("query over the type checker's facts: field visibility, signatures, trait implementations and interior mutability of every type inside a context", "Decides the encapsulation of the crate's own items for every safe program; trusts rustc's privacy checking. New mutators the rule does not know are reported as undecided in the evidence."),
    "C20": ("effect analysis over the call graph of the monomorphised MIR, with Send and Sync decided by the trait solver", "Every call leaving the crate from a public entry point is matched with a list of effectful or hash-ordered calls; trusts that other functions of std, bytes, pest and snafu are functions of their arguments."),
    "C21": ("enumeration of unsafe operations in the type-checked HIR, contracts discharged by types or by abstract interpretation", "Denies every unsafe operation whose contract is not established; trusts rustc's safety checking of the rest and the dependencies."),
    "C22": (AI + ": allocation sizes bounded by input windows", "Every explicitly sized allocation or copy met while decoding is bounded by the input." + TRUST),
    "C23": ("finite automata built from the pest grammar: language containment, prefix conflicts between alternatives, reachable continuations of every keyword", "Decides every keyword occurrence and every pair of alternatives of the compiled grammar for all texts; recursive rules are compared as symbols, and pest is trusted to implement its expressions."),
    "C03": (AI + ": panic-site obligations from text to context, discharged by path facts, token shapes of the compiled grammar and the contracts of the table-filling functions", "Every panic site on the way from a list of texts to a context or an error, for all texts; assumes that pest's own nesting limit ends the parse before the stack is used up." + TRUST),
    "C15": (AI + ": contracts of the functions that fill the name tables, take items out and build them, each proved from arbitrary contents; loops summarised", "Every table entry, reference, parent and child list, for all schemas; range and kind of every reference follow from the contracts." + TRUST),
    "C16": (AI + ": every function of the tree walk and every builder compared with the declaration it represents, loops summarised", "Decides each function of the tree walk and each builder from arbitrary contents; that the grammar recognises the right texts is not part of it." + TRUST),
    "C17": (AI + ": keyword function over the spellings of the compiled grammar; loop summary of the packing decision compared with the language's", "Every spelling the grammar admits, every label, type and option list." + TRUST),
    "C18": (AI + ": inductive summary of the scope walk compared with innermost-first search", "Every name, scope and cache: start, step and answer of the search. The first-component rule of protoc is not what the claim states." + TRUST),
    "C24": (AI + ": literal readers compared with the language's values for every token shape of the compiled grammar", "Every token of the literal rules; number parsing itself is std's (modelled)." + TRUST),
}
PENDING = "No check for this property has been built yet."
NA = {
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 -m vt.setup",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 -m vt.check %s" % i,
        "thorough_cmd": "python3 -m vt.check %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": CLAIM[i][0],
        "level": "other",
        "level_note": CLAIM[i][1],
    } for i in ids if i in CLAIM],
    "not_applicable": [{"property": i, "reason": NA.get(i, PENDING)} for i in ids if i not in CLAIM],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
