#!/usr/bin/env python3
"""Writes harness/data/fonts.txt: alphabet, character, styled character, from the Unicode Character
Database (compatibility decompositions of type <font>), not from the code under test."""
import os, unicodedata as u
A = ["BOLD SCRIPT","BOLD FRAKTUR","SANS-SERIF BOLD ITALIC","SANS-SERIF ITALIC","SANS-SERIF BOLD","BOLD ITALIC","DOUBLE-STRUCK ITALIC","DOUBLE-STRUCK","SANS-SERIF","MONOSPACE","SCRIPT","FRAKTUR","BLACK-LETTER","BOLD","ITALIC"]
out = []
for c in list(range(0x2100, 0x2150)) + list(range(0x1D400, 0x1D800)):
    d = u.decomposition(chr(c)).split()
    if not d or d[0] != "<font>" or len(d) != 2: continue
    n = u.name(chr(c)).replace("MATHEMATICAL ", "")
    base = chr(int(d[1], 16))
    if n == "PLANCK CONSTANT": n = "ITALIC SMALL H"
    if n.startswith("PLANCK"): continue
    a = next((a for a in A if n.startswith(a + " ")), None)
    if a is None: continue
    out.append((a.replace("BLACK-LETTER", "FRAKTUR").replace(" ", "-"), base, chr(c)))
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "data", "fonts.txt")
open(p, "w").write("".join(f"{a}\t{b}\t{c}\n" for a, b, c in sorted(out)))
