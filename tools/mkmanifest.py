#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "TLA+ document semantics (WeedlePeg.ParseDoc); trace validation of parse() on derived, truncated, polluted and trivia-only documents",
 "C02": "TLA+ token-yield law (WeedleTokens) and PEG semantics; trace validation on derived sentences with arbitrary lexemes and trivia",
 "C03": "TLA+ derivation machine (WeedleDerive) enumerates the grammar with trees; replay into the library, trace validation",
 "C04": "TLA+ PEG semantics judges token and character edits of derived sentences",
 "C05": "TLA+ trivia semantics; exhaustive comment-character blocks and per-gap trivia, trace validation",
 "C06": "TLA+ terminal semantics; every terminal against followers, near misses and keyword-like names, trace validation",
 "C07": "TLA+ number scanners; exhaustive blocks over the number alphabet and sweeps, trace validation",
 "C08": "TLA+ string scanner; exhaustive blocks, content and context sweeps, trace validation",
 "C09": "TLA+ identifier scanner; exhaustive blocks, character and context sweeps, trace validation",
 "C10": "TLA+ totality predicate on recorded outcomes of arbitrary text for every entry point",
 "C11": "TLA+ concatenation law on recorded outcomes of parts and wholes",
 "C12": "TLA+ type grammar: exhaustive derivations, blocks and contexts, trace validation",
 "C13": "TLA+ argument grammar: derivations, blocks and edits, trace validation",
 "C14": "TLA+ extended-attribute grammar: derivations, blocks, attachment contexts, trace validation",
 "C15": "TLA+ interface-member grammar: derivations, keyword blocks, containers, trace validation",
 "C16": "TLA+ mixin/namespace/dictionary grammars: derivations, every member in every container, trace validation",
 "C17": "TLA+ definition grammar: derivations, keyword blocks, cross-kind reading, trace validation",
 "C18": "TLA+ combinator semantics on public compositions: exhaustive blocks and long lists, trace validation",
 "C19": "TLA+ semantics of chained calls: trace validation of sequences of calls, each on the previous remainder",
 "C20": "TLA+ session machine: TLC-generated histories replayed serially and on threads, trace validation against a learnt function",
 "C21": "TLA+ relational laws on recorded comparison matrices and conversions",
}
NOTE = ("Bounded model checking of an explicit TLA+ specification bound to the code by trace validation: every recorded "
        "outcome of the real library on the explored inputs is judged by TLC. Inputs beyond the explored bounds are not "
        "covered; trusts TLC, rustc, and the harness's reading of the public tree.")
checks = [dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
               evidence_file="evidence/%s.json" % p, technique=t, level="model_checking", level_note=NOTE) for p, t in T.items()]
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none (the checks use the public API only)", enable="not needed", source_commits=[]),
         checks=checks, not_applicable=[],
         notes="TLA+ checked with TLC. /repo carries four fix: commits (see known-findings.txt) and no hooks.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
