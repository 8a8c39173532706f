"""Edits of single entries of the generated tables."""
import re
class Trie:
    def __init__(self, pkg, root="/repo"):
        self.file = pkg + "/trie.go"
        self.text = open(root + "/" + self.file).read()
        self.vals, self.vline = self.arr(pkg + "Values")
        self.idx, self.iline = self.arr(pkg + "Index")
        self.names = re.findall(r"^\t(_\w+)(?: property = 1 << iota)?$", self.text, re.M)
    def arr(self, name):
        m = re.search(r"^var %s = \[(\d+)\]property\{\n(.*?)^\}" % name, self.text, re.S | re.M)
        a = [0] * int(m.group(1)); lines = {}
        for line in m.group(2).split("\n"):
            for k, v in re.findall(r"0x([0-9a-f]+):\s*0x([0-9a-f]+)", line):
                a[int(k, 16)] = int(v, 16); lines[int(k, 16)] = line
        return a, lines
    def path(self, cp):
        b = chr(cp).encode()
        if len(b) == 1: return ["v", b[0]]
        i = self.idx[b[0]]; p = [b[0]]
        for c in b[1:-1]:
            o = (i << 6) + c; p.append(o); i = self.idx[o]
        return p + ["v", (i << 6) + b[-1]]
    def off(self, cp): return self.path(cp)[-1]
    def props(self, cp): return [n for i, n in enumerate(self.names) if self.vals[self.off(cp)] >> i & 1]
    def sharers(self, cp):
        o = self.off(cp) >> 6
        return [c for c in list(range(0x80, 0xD800)) + list(range(0xE000, 0x110000)) if (self.off(c) >> 6) == o]
    def edit(self, cp, props):
        off = self.off(cp)
        new = sum(1 << self.names.index(p) for p in props)
        line = self.vline[off]
        assert new, "give a nonzero value"
        nl = re.sub(r"(0x%x:\s*)0x[0-9a-f]+" % off, lambda m: m.group(1) + "0x%x" % new, line)
        assert nl != line
        return (self.file, "\n" + line + "\n", "\n" + nl + "\n")
    def drop(self, cp):
        off = self.off(cp); line = self.vline[off]
        nl = re.sub(r"0x%x:\s*0x[0-9a-f]+,\s*" % off, "", line).rstrip()
        assert nl != line
        return (self.file, "\n" + line + "\n", "\n" + nl + "\n")
SEEDS = []
