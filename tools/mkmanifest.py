#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("property-based testing: enumerated and random texts, differential against a reference model of the rules", "Every code point in surroundings that tell all property signatures apart, every short sequence of property atoms, runs and random texts, on both iterators and the split function. Trusts the embedded Unicode 17 tables and the reference rules (validated by the official tests and ICU)."),
"C02": ("property-based testing: enumerated and random texts, differential against a reference model of the rules", "As C01, for word rules."),
"C03": ("property-based testing: enumerated and random texts, differential against a reference model of the rules", "As C01, for sentence rules."),
"C04": ("property-based testing: differential against a reference model, and a metamorphic relation to the words package", "As C01, for the phrase variant of the word rules, with phrase boundaries a subset of word boundaries."),
"C05": ("property-based fuzzing of arbitrary bytes against lossless-partition invariants", "Exhaustive short byte strings over byte classes plus random damaged texts, for every tokenizer, option and interface; hangs and crashes are detected by a supervising process."),
"C06": ("property-based testing: differential between string and []byte instances", "Same texts through both instantiations, valid or not, with options and named types."),
"C07": ("property-based testing: metamorphic relation between chunkings of one text, with injected read faults", "Reads cut everywhere, empty reads, errors, small and just-fitting buffers; expectation from the whole-text iterator (which C01-C04 decide)."),
"C08": ("property-based testing: prefix-monotonicity of split functions over enumerated and random continuations", "Each prefix of each text is offered without the end flag and compared with the token under many continuations; bounded by the texts generated."),
"C09": ("property-based testing: structured generation of escape sequences, differential against a grammar model", "The grammar exists twice in the reference (hand-written and as regular expressions), checked against each other."),
"C10": ("property-based testing: structured generation of C1 sequences, differential against a grammar model", "As C09 for 8-bit sequences and both options at once."),
"C11": ("property-based testing: random joiner configurations, differential against a reference model", "Configured characters exclude line breaks and ignorables, for which joining has no defined meaning; those are covered by C05 and C06."),
"C12": ("stateful model-based testing of operation histories", "All short histories over small alphabets and random long ones against a cursor model."),
"C13": ("stateful interleaving and concurrent stress testing under the Go race detector", "Schedules are those the Go scheduler produces; the race detector generalises over unordered accesses."),
"C14": ("property-based testing: address identity, read-only memory and mutation histories", "Texts live in pages mapped read-only, so that any write, even one that is undone, faults."),
"C15": ("property-based testing: allocation counts over generated texts, a metamorphic relation between lengths", "Counts come from the Go runtime; texts of many shapes and both short and long."),
"C16": ("property-based testing: growth of executed basic blocks over generated text families", "Families prefix + unit^n + suffix at n, 2n, 4n; adversarial repetition over all atoms. One recorded finding (unterminated control strings)."),
"C17": ("property-based testing: enumerated and random tokens, differential against a regular-expression oracle", "Han characters newer than Unicode 15 are outside (the tables of the Go version that generated the trie)."),
"C18": ("stateful model-based testing with generated split functions; enumerated code points for the filter", "Random, faulty and stalling split functions over string, bytes and named types."),
"C19": ("property-based testing: random Unicode data files through the generator, generated packages compared with a reference model on the same data", "Every code point under every generated table, short sequences of property atoms, and the generated break tests read back."),
"C20": ("stateful model-based testing with generated split functions", "Random and faulty functions on words iterators, plain ASCII included."),
}
guided = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C14 C15 C17 C18 C20".split()
for k in guided:
    T[k] = (T[k][0] + "; coverage-guided fuzzing with the same oracle", T[k][1])
T["C16"] = (T["C16"][0] + "; fuzzing guided by the work done", T["C16"][1])
checks = [dict(property=k, quick_cmd=f"./check.sh {k}", thorough_cmd=f"./check.sh {k} thorough", evidence_file=f"evidence/{k}.json", technique=t, level="exploration", level_note=n) for k, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd="./check.sh --setup", checks=checks, not_applicable=[],
  notes="No hooks in /repo: its packages are driven through their public interface (C18: the internal packages, which a module path below /repo's may import). Replay a counterexample with ./check.sh --replay FILE. Findings: known_findings.json. See DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
