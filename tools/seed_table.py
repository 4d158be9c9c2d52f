"""Writes the table of planted bugs of DESIGN.md, section 4, from seeded/*/meta.json and the notes below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "c07-many-cases": "choices of several hundred cases",
    "c09-keyword-optional": "reserved words of both languages as names in every role",
    "c10-deep-supers": "namespaces up to a dozen deep",
    "c12-ascii-split": "letters of other alphabets in `NamePool`",
    "c19-alias-lower": "aliases that differ from the name of the file in case only",
    "c21-same-length": "existing outputs of the same length as the new ones",
    "c21-newer": "existing outputs that are newer than the schemas",
    "c22-other-extension": "unrelated files with the names of imported ones and other endings",
    "c05-many-required": "types of a hundred fields and more",
    "c06-wide-skip": "(found, but the log was not judged to its end: TLC ended with an error)",
    "c20-crlf-check": "texts that are formatted but for one thing",
    "c20-check-last": "texts that are formatted but for one thing",
    "c26-deleted-wrap": "declarations with many deleted indices",
    "c12-gap-deleted": "the exact set of errors about indices",
}


def main():
    rows = ["| planted bug | what it needs | what it breaks | missed at first, until the check had |", "|---|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
        rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {MISSED.get(d, '')} |")
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    a, b = "<!-- planted bugs -->\n", "\n<!-- end of planted bugs -->"
    if "SEEDTABLE" in s:
        s = s.replace("SEEDTABLE", a + b)
    i, j = s.index(a) + len(a), s.index(b)
    open(p, "w").write(s[:i] + "\n".join(rows) + s[j:])


main()
