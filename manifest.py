#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a program under props/."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
DIFF = ("exhaustive bounded enumeration of texts on the real parser, each decided against an independently written "
        "executable model of the dialect (lexer, grammar, tree)")
TECH = {
    "C01": "model checking: all derivations, single-token changes and token/character sequences within bounds, model conformance of validity",
    "C02": "model checking: all SELECT derivations within bounds, model conformance of the tree",
    "C03": "model checking: all expression derivations and operator combinations within bounds, model conformance of the tree",
    "C04": "model checking: all DDL derivations within bounds, model conformance of the tree",
    "C05": "model checking: all data/session statement derivations within bounds, model conformance of the tree",
    "C06": "model checking: all literal and identifier spellings within bounds, model conformance of values",
    "C07": "model checking: all layouts, keyword-case and parenthesis variants within bounds, equality of outcomes and model conformance",
    "C08": "model checking: all character and token sequences within bounds, model conformance of token codes",
    "C09": "model checking: all texts of the enumerations x entry points, invariant of the result state",
    "C10": "model checking: all erroneous texts of the enumerations x layouts, model conformance of the error position",
    "C11": "model checking: exhaustive bounded enumeration of texts on the instrumented implementation (ASan/UBSan as monitor, allocation balance as invariant)",
    "C12": "model checking: all operation histories up to a depth over result objects, conformance to an ownership model",
    "C13": "model checking: all placements of placeholders within bounds, model conformance of the parameter list",
    "C14": "model checking: all statement lists within bounds, model conformance of split and string lengths",
    "C15": "model checking: all thread schedules within a preemption bound on the real code under a controlled scheduler, plus race detection",
    "C16": "model checking: all call histories up to a depth, outcome equal to that of a fresh process",
    "C17": "model checking: full cross product of process environments (streams, locales, errno, heap and stack contents), outcome equal in all",
    "C18": "model checking: all statement derivations within bounds, model conformance of the printed text",
    "C19": "model checking: every repetition count and nesting depth within bounds for every recursive or repeatable construct, model conformance",
    "C20": "model checking: all statement derivations x memory contents x later histories, equality of complete observations and disjointness of blocks",
    "C22": "model checking: all trees within bounds rebuilt through every constructor and factory, all parts left out or taken out, conformance to the parsed tree and an exact allocation balance",
    "C23": "model checking: all repeatable parts, lengths, numbers and call histories within bounds on the real code with every executed block, touched byte and allocated byte counted, invariant over the counts at n and 4n",
    "C24": "model checking: all allocation failure points of every call within bounds (fault injection into the real code under ASan/UBSan), outcome and later calls compared with those without failures",
    "C25": "model checking: all single-token changes, token sequences and contradictions within bounds, model conformance of the error message",
    "C21": "model checking: all nodes of all derivations and all column type pairs within bounds, invariants over accessors and fields",
}
NOTE = ("Exhaustive within the bounds stated in the evidence file and DESIGN.md; nothing is sampled. Trusts the "
        "reference model in mc/ref_*.cpp (compared with the implementation on every explored text), the observers in "
        "mc/impl.cpp, and the compiler.")
NOTES = {
    "C15": "All schedules of the stated calls with the stated number of preemptions at function entries and shared "
           "accesses; further races only as far as ThreadSanitizer sees them in the free-running program.",
    "C11": "Every execution within the bounds runs under AddressSanitizer and UndefinedBehaviorSanitizer with an exact "
           "allocation balance per call; trusts those monitors.",
}


def main():
    ids = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, missing = [], []
    for p in ids:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "props", i + ".cpp")):
            checks.append(dict(property=i, quick_cmd="python3 run.py " + i,
                               thorough_cmd="python3 run.py %s --tier thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=TECH[i], level="model_checking",
                               level_note=NOTES.get(i, NOTE)))
        else:
            missing.append(dict(property=i, reason="its check is not finished yet"))
    m = dict(version=1, setup_cmd="python3 run.py --build-only", checks=checks, not_applicable=missing,
             notes="See DESIGN.md. No hooks in /repo: the checks compile /repo's sources with their own flags.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
