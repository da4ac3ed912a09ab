#!/usr/bin/env python3
"""Fills the lists of DESIGN.md that come from other files (between markers)."""
import json
import os
import re

import mkmanifest

HERE = os.path.dirname(os.path.abspath(__file__))
RUNS = json.load(open(os.path.join(HERE, "caught.json")))


def main():
    path = os.path.join(HERE, "DESIGN.md")
    text = open(path).read()
    fixed = ["| property | commit | what failed |", "|---|---|---|"]
    fixed += [f"| {p} | {c} | {w} |" for p, c, w in mkmanifest.FIXED]
    seeds = ["| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
    base = os.path.join(HERE, "seeded")
    for n in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, n, "meta.json")))
        seeds.append(f"| {n} | {m['what_it_breaks']} | {m['needs']} | {RUNS.get(n, 'not caught')} |")
    for tag, lines in (("FIXED", fixed), ("SEEDS", seeds)):
        block = f"<!-- {tag} -->\n" + "\n".join(lines) + f"\n<!-- /{tag} -->"
        text = text.replace(f"@{tag}@", block)
        text = re.sub(rf"<!-- {tag} -->.*?<!-- /{tag} -->", lambda _: block, text, flags=re.S)
    open(path, "w").write(text)


if __name__ == "__main__":
    main()
