#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification, TLC model checking, TLC-generated scenarios replayed in the real code, trace validation"
CORE = ("TLC checks the search machine against the declarative result on all programs with two (thorough: three) "
        "functions; the real analysis is run on all small and many random programs written by the generator and every "
        "recorded report is validated against the specification. Trusts go/types, x/tools and the source renderer.")
LEVELS = {}
for c in ("C01", "C02", "C03", "C04", "C05", "C06", "C07"):
    LEVELS[c] = ("model_checking", CORE)
LEVELS["C08"] = ("model_checking", "TLC checks the left-to-right reader against the declarative meaning; all selections with one item, pairs "
                 "over a small alphabet and random longer ones are given to the real parser, and a sample to the command.")
LEVELS["C09"] = ("model_checking", "TLC checks the line-by-line reader against the declarative meaning; all two-line maps over a small alphabet, "
                 "random maps, failing readers and overlong lines are given to the real loader and its classifier is questioned.")
LEVELS["C10"] = ("model_checking", "Random histories of loading and restricting classifiers, with every classifier questioned against the "
                 "specification that reads the built-in map itself; runs of the command with random maps on a program known to the built-in map.")
LEVELS["C17"] = ("model_checking", "The comparison is checked for all small reports; random programs are compared with random and damaged baselines "
                 "through the API and the command, and every list, path and status is validated.")
LEVELS["C18"] = ("model_checking", "Choosing examples is checked for all small reports; random pairs of reports are served to the tool as two "
                 "revisions, and everything that it prints is validated.")
LEVELS["C19"] = ("model_checking", "All runs on small repositories with failures are checked; random repositories, revision names, surroundings and "
                 "faults are run for real, and every call of git and capslock is validated, with the state of all files.")
LEVELS["C20"] = ("model_checking", "All orders of checking options, loading and writing are checked; random modules, files, patterns, options and "
                 "failures are run for real, and each ending is validated with the report and the state of the directory.")
LEVELS["C21"] = ("model_checking", "File selection by names and constraints, and the choice of module versions, are specified; random module graphs with "
                 "replacements, vendoring and workspaces are loaded by the command and both lists are validated.")
LEVELS["C22"] = ("model_checking", "Walking histories from both revisions is checked against the declared set on all histories with four (thorough: five) "
                 "commits; random short and long histories with branches, merges, odd names and messages are compared for real, and what "
                 "the tool says about them is validated.")
for c, what in (("C13", "conversion"), ("C14", "destination and way of storing"), ("C15", "declaration without a body")):
    LEVELS[c] = ("model_checking", f"The specification says which functions a {what} belongs to and where it is reported; all single items "
                 "(quick: most) and random programs of functions, methods, literals, initialisers and generics are analysed and "
                 "each report is validated. No separate algorithm is modelled.")
LEVELS["C12"] = ("model_checking", "The specification says what a call of a helper runs and how exactly it must be attributed; all kinds of calls that "
                 "differ from the plainest in at most two ways and random programs are analysed, and each report must lie between the two bounds.")
LEVELS["C11"] = ("model_checking", "The specification runs each generated program in every possible way (at most five active functions) and compares what "
                 "runs with the real report; the same programs are compiled and executed at random to show that the specification runs them as Go does.")
LEVELS["C16"] = ("model_checking", "A search that walks sets in any order is checked to depend on sorting; histories of analyses of generated programs "
                 "in two processes, with different loads, orders of packages and output modes, are run for real, and every output must be the one "
                 "that the request had before and in order. Orders are those that the runtime happens to produce.")
NA = []


def main():
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        ids = [json.loads(line)["id"] for line in f]
    done = set(LEVELS)
    m = {
        "version": 1,
        "setup_cmd": "bash bin/setup.sh",
        "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API and the binaries", "source_commits": []},
        "checks": [{
            "property": c,
            "quick_cmd": f"python3 bin/check.py {c}",
            "thorough_cmd": f"python3 bin/check.py {c}",
            "evidence_file": f"evidence/{c}.json",
            "technique": TECH,
            "level": LEVELS[c][0],
            "level_note": LEVELS[c][1],
        } for c in ids if c in done],
        "not_applicable": NA + [{"property": c, "reason": "check not built yet"} for c in ids if c not in done],
        "notes": "See DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
