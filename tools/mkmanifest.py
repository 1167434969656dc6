#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
READER = "Trusts the independent reader in harness/lang (checked against the generator on every case) and Go's runtime; samples, does not enumerate."
T = {
 "C01": ("fuzzing with structured and byte-level generators (edited programs, token soups, bytes, deep nesting, long runs) against crash, time and memory oracles in watched worker processes", "Nesting and size are bounded (see DESIGN.md); deeper texts are not explored."),
 "C02": ("property-based testing: generated modules against an independent recursive-descent reader (reference model)", READER),
 "C03": ("property-based testing: generated expressions against an independent precedence reader (reference model)", READER),
 "C04": ("property-based testing: parse and print generated modules, marks read back by the independent reader (round trip)", READER),
 "C05": ("property-based testing: literal values against an independent scanner (reference model)", READER),
 "C06": ("property-based testing: generated declarations against the independent reader (reference model)", READER),
 "C07": ("metamorphic property-based testing: two renderings of one token sequence must agree", "The token sequences are checked equal by the independent scanner before the comparison."),
 "C08": ("property-based testing: generated names and members against the independent reader; mutated sources against an Earley recogniser of the grammar", READER),
 "C09": ("property-based testing: legal and violating modules against an independent validator of the context rules (reference model)", READER),
 "C10": ("mutation-based fuzzing of token sequences against an Earley recogniser of the grammar written out separately (differential)", "The recogniser's grammar is written by hand from the language and checked against every generated module."),
 "C11": ("fault injection into generated texts and mutated lexemes against an independent scanner (differential)", READER),
 "C12": ("mutation-based fuzzing; the error position against the first non-viable token computed by an Earley recogniser (reference model)", READER),
 "C13": ("round-trip property-based testing: printed text read by the independent reader equals the source's program", READER),
 "C14": ("property-based testing: idempotence of printing and layout predicates over the printed tokens", READER),
 "C15": ("property-based testing: visits of a walk as a multiset and order, and replacements, against a traversal written from the property (reference model)", "Order of branches and of operands among each other is not compared."),
 "C16": ("stateful property-based testing: random histories over several parsers, concurrent ones under the race detector, and fresh processes as baseline (differential)", "Interleavings are sampled by the scheduler."),
 "C17": ("property-based testing: decoded export against hand-written expected JSON, and edited pairs that must differ (metamorphic)", "Additional keys in the export are tolerated."),
 "C18": ("property-based testing with exhaustive short strings: differential against a byte-level specification, under the address sanitizer", "Overreads beyond the C heap block are caught by ASan; longer strings are sampled."),
 "C19": ("metamorphic property-based testing: subtrees of composed modules against the parts parsed alone", "Parts are compared with each other, so a fault present in both is left to C02-C06."),
 "C20": ("property-based testing: token stream and positions against an independent scanner (reference model)", READER),
 "C21": ("fault injection: one violation put into generated modules; the message's name and position against the independent validator (reference model)", "One token of slack behind the offending statement, which the parser may have read already."),
 "C22": ("stateful metamorphic property-based testing: trees edited by reflection or through Walk between uses, against the tree of the edited source", "Marks cannot be set from outside and are changed by replacing the node."),
 "C23": ("metamorphic property-based testing: cost of a source of n parts against one of 8n parts", "Processor time is measured; a change by less than a factor of about 4 beyond linear is not seen."),
 "C24": ("round-trip property-based testing: nodes of generated modules printed alone and read by the independent reader, against the piece of the source", READER),
 "C25": ("property-based testing: the memory reachable from several generated trees, lists with their spare room included, must not overlap (invariant)", "Memory is found by reflection over public fields."),
 "C26": ("metamorphic property-based testing: nodes marked through their methods, printed and read by the independent reader, against the negated piece of the source", READER),
 "C27": ("concurrent property-based testing: random read operations on shared trees under the race detector, against answers of a parser used alone (differential)", "Interleavings are sampled by the scheduler; only executed accesses are seen by the race detector."),
 "C28": ("stateful property-based testing: Parse called again after random uses and edits, against a parser used for nothing else (differential)", "Module names set by hand are not looked at."),
 "C30": ("fault injection: lexical faults put into generated modules and mutated token sequences; the error against the place an Earley recogniser and the independent scanner compute (reference model)", READER),
 "C31": ("metamorphic property-based testing: names replaced in the text against names replaced in the tree by reflection", "The name Выполнить is left out where it is a name: the tree holds the operator under the same text."),
 "C29": ("fuzzing with the generators of the other checks while the streams, files, goroutines and settings of the process are watched (invariant)", "What the process could do over the network or to files elsewhere is not watched."),
}
checks = []
for p in props:
    i = p["id"]
    if i not in T:
        continue
    tech, note = T[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note})
na = [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in T]
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na,
     "notes": "All checks are generated-input searches; see DESIGN.md. No hooks in /repo."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
