#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os
out = []
names = ["ESC ]", "ESC P", "ESC X", "ESC ^", "ESC _", "0x9D", "0x90", "0x98", "0x9E", "0x9F"]
for n in names:
    k = "7" if n.startswith("ESC") else "8"
    out.append(dict(property="C16", status="known", sub="unterminated", input=f"repeated {n} without a terminator",
        what=f"graphemes.Iterator with Ansi{k} on: {n} repeated n times with no terminator takes work in proportion to n*n (each opener scans to the end of the text for a terminator)"))
def fixed(p, commit, what):
    out.append(dict(property=p, status="fixed", sub="", input="", commit=commit, what=f"fixed: property={p} {commit} {what}"))
fixed("C11", "9c5aa97", "words iterator ignored joiners on plain ASCII text, e.g. joiner '/' in \"a/b\" (the reader honoured them); also C07")
fixed("C20", "9c5aa97", "words iterator ignored a custom split function on plain ASCII text")
fixed("C11", "c7b137f", "a leading joiner counted as a Hebrew letter, so that WB7a joined a following single quote, e.g. leading '#' in \"#'\"")
fixed("C10", "342d1dd", "with Ansi8, an 8-bit sequence after a Prepend character was not a token of its own, e.g. U+0600 0x9B 'm'")
fixed("C16", "5eb3455", "sentences: a run of closers or spaces after a terminator took work in proportion to its square")
fixed("C17", "f9ffa9f", "BleveNumeric was true for tokens without a number (\"_\", \".\") and false where an ignorable follows connector or mid-number punctuation")
fixed("C19", "264d67b", "the generator read a semicolon in a comment as a third field (losing the assignment), dropped a last line without a line feed, and failed on a blank line in a test file")
fixed("C16", "cd93d76", "words iterators of a named bytes type with joiners copied the rest of the text for every character: work in proportion to its square")
for k in ("C20", "C18"):
    fixed(k, "cd1faa5", "an advance of about the greatest int by a split function overflowed the position, which became negative, and Next returned true instead of a panic")
fixed("C19", "26ae9b3", "the trie generator took different blocks of 64 code points for the same when their CRC-64 was, so that one got the properties of the other")
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
with open(path, "w") as f:
    json.dump(out, f, indent=1); f.write("\n")
