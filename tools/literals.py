#!/usr/bin/env python3
"""literals of the crate's non-test code per file: what the reference does not have guides the search"""
import collections, glob, json, os, re, sys
TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(#*)"(?P<raw>.*?)"\1|b?"(?P<s>(?:[^"\\]|\\.)*)"|b?'(?P<c>[^'\\\n]|\\.[^'\n]*)'|'\w+|(?<![\w.])(?P<n>0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?''', re.S)

def unesc(s):
    m = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", '"': '"', "'": "'"}
    def f(x):
        t = x.group(1)
        if t[0] == "x": return chr(int(t[1:], 16))
        if t[0] == "u": return chr(int(t[2:-1], 16))
        return m.get(t, "")
    return re.sub(r'\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)', f, s, flags=re.S)

def literals(repo):
    out = {}
    for f in sorted(glob.glob(os.path.join(repo, "src", "**", "*.rs"), recursive=True)):
        t = open(f, errors="replace").read()
        k = re.search(r"#\[cfg\(test\)\]\s*(pub )?mod ", t)
        if k: t = t[:k.start()]
        c = collections.Counter()
        for m in TOK.finditer(t):
            if m.group("n"):
                c["i" + str(int(m.group("n").replace("_", ""), 0) if not re.fullmatch(r"0\d+", m.group("n")) else int(m.group("n")))] += 1
            else:
                s = m.group("raw") if m.group("raw") is not None else m.group("s") if m.group("s") is not None else m.group("c")
                if s is not None and len(s) <= 80:
                    c["s" + (s if m.group("raw") is not None else unesc(s))] += 1
        out[os.path.relpath(f, repo)] = c
    return out

def new(repo, base):
    """{ints, strs} that occur more often in a file than in the reference"""
    ints, strs = set(), set()
    for f, c in literals(repo).items():
        b = base.get(f, {})
        for k, n in c.items():
            if n > b.get(k, 0) and len(k) > 1:
                (ints if k[0] == "i" else strs).add(k[1:])
    for s in list(strs):
        if len(s) == 1: ints.add(str(ord(s)))
    return {"ints": sorted(ints)[:60], "strs": sorted(strs)[:60]}

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    json.dump(literals(sys.argv[1] if len(sys.argv) > 1 else "/repo"), open(os.path.join(here, "literals.json"), "w"), indent=0, sort_keys=True)
