#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

GRAM = ("TLA+ specification of LL(1) analysis and of the parser as a pushdown machine, model checked with TLC; ")
T = {
 "C01": (GRAM + "all grammars of small scopes enumerated by TLC and replayed into the code, and generated grammars' outcomes validated against the specification",
         "Every grammar of the enumerated scopes (rules, alternatives and symbols as given in DESIGN.md) and thousands of larger ones are decided by the specification's own FIRST/FOLLOW fixpoints, which TLC checks against derivations on small grammars; the code must agree on table or error."),
 "C02": (GRAM + "all grammars and words of small scopes enumerated by TLC with their verdict and replayed, and recorded parses validated against derivability",
         "For each recorded parse TLC runs the specification's machine over the input and requires acceptance exactly when it accepts; the machine is checked against derivability in the small models. Inputs are sentences, mutations, truncations and extensions, any bytes."),
 "C03": (GRAM + "trees of all words of enumerated grammars replayed, and recorded trees validated node by node as the derivation",
         "Every node of every recorded tree is compared with the derivation the specification arrives at; big inputs with child lists."),
 "C04": (GRAM + "errors of all words of enumerated grammars replayed, and recorded errors validated against the viable-prefix condition",
         "The byte and position reported are compared with the first impossible byte by the specification; the wording is only read for the numbers and words in it."),
 "C05": ("TLA+ pushdown machine of hand-written tables; all tables of a small scope enumerated with their outcome and replayed, and recorded runs of random tables stepped through it by TLC",
         "Random tables, including missing rows and cells, negative and sparse numbers, builtin rules and absent names, over walks of the table and mutations of them."),
 "C06": ("TLA+ specification of sessions (calls as atomic, leaving objects as they were), model checked; all short histories of the whole library enumerated with every result and replayed, and recorded histories of calls validated by TLC",
         "Random histories of all calls with the caller overwriting objects in between; every object is fingerprinted after every call, some calls repeated alone in a fresh process, output of the process watched."),
 "C07": ("TLA+ specification of reading a source in chunks with faults, model checked; all short reader scripts enumerated and replayed, and recorded reads and results validated by TLC",
         "Scripted readers with empty reads, end of input with or after the last bytes and faults after any number of bytes, and all other kinds of source, compared with the parse of the string."),
 "C08": ("TLA+ specification of the notation (scanner with an unambiguous reading), model checked; all short texts enumerated with the grammar they denote and replayed, and recorded readings of texts validated by TLC",
         "Generated texts, mutations of them and every byte in every kind of place; the specification reads the text itself and gives the grammar or refuses."),
 "C09": ("TLA+ specification of the notation, model checked (printing then reading is the identity); all small grammars enumerated and replayed, and recorded printings validated by TLC",
         "The printed text is read by the specification, and the library's reading of it and its second printing are compared."),
 "C10": (GRAM + "outcomes of malformed, left-recursive and large grammars validated, with a watchdog on every call",
         "Panics, calls that do not return within 25 s or exceed 1 GiB, and missing refusals of malformed grammars are violations."),
 "C11": (GRAM + "recorded name maps, row numbers and node kinds validated",
         "Names of tables and parses for generated grammars and for parsers with partial, empty and absent name maps."),
 "C12": ("TLA+ machine of the walk, model checked against its declarative meaning; recorded visits stepped through it by TLC",
         "All trees up to a size with all patterns of cutting off, random and big trees, visitors that return others, themselves or nothing, depending on node or time."),
 "C13": ("TLA+ specification of sets of bytes and its refinement by words, model checked; recorded operation histories validated by TLC",
         "Random histories over several sets and a systematic pass over all 256 bytes."),
 "C14": ("TLA+ specification of presentations (permutations, renamings), model checked for invariance; every grammar of small scopes enumerated with all its presentations and replayed, and recorded pairs validated by TLC",
         "Both presentations are given to the code; outcome, acceptance and trees must correspond under the renumbering."),
 "C15": ("TLA+ specification of building a grammar from a tree and bindings; all small trees with bindings enumerated with their outcome and replayed, and recorded constructions validated by TLC",
         "Random trees and bindings, well and badly shaped, with ignored kinds, escapes and shared kinds."),
 "C16": ("TLA+ specification of overlapping calls, model checked over all interleavings (and refuted for a leaky variant); all interleavings of calls made inside calls enumerated and replayed, and recorded concurrent runs under the race detector validated by TLC",
         "Goroutines call on shared objects without synchronisation; results must be those of the calls alone, objects unchanged, and the race detector silent about the library."),
 "C17": ("TLA+ machine of the JSON example, model checked against the subset's grammar; all short documents enumerated with their outcome and replayed, and recorded runs of the built programs validated by TLC",
         "Documents, mutations, every byte in every kind of place and deep nesting, run by the real program in a scratch directory."),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks = []
    for p in props:
        t, note = T[p["id"]]
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 bin/check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 bin/check.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": t,
            "level": "model_checking",
            "level_note": note + " The models are exhaustive within small bounds; the recorded executions are a finite sample beyond them. Trusts TLC and the driver's record of what the library returned.",
        })
    json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": [],
               "notes": "No hooks in /repo: everything is observed through the public API and the built programs."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
