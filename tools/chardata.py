#!/usr/bin/env python3
"""Writes spec/CharData.tla from the case tables of the pinned commit, run once (with the
title-case letters that map to themselves, see KNOWN_FINDINGS).  The checks use the committed
module, not the tables of the tree they run against."""
import re, subprocess
s = subprocess.check_output(["git", "-C", "/repo", "show", "ce2262f:src/case_conversions.c"], text=True)
def body(name):
    b = s[s.index(name + "[]"):]
    return b[:b.index("};")]
def tab(name):
    return [(int(a, 16), int(b, 16), int(d)) for a, b, d in re.findall(r"\{\s*0x(\w+),\s*0x(\w+),\s*(-?\d+)\s*\}", body(name))]
def wrap(xs):
    out, line = [], "  "
    for x in xs:
        if len(line) + len(x) > 150:
            out.append(line); line = "  "
        line += x + ", "
    return "\n".join(out + [line.rstrip(", ")])
up, low = tab("UnicodeToUpper"), tab("UnicodeToLower")
title = [(int(a, 16), int(d)) for a, d in re.findall(r"\{\s*0x(\w+),\s*(-?\d+)\s*\}", body("UnicodeToTitle"))]
nocase = [int(x, 16) for x in re.findall(r"0x(\w+)", body("UnicodeNoCaseConvLetters"))]
with open("/verif/spec/CharData.tla", "w") as f:
    f.write("------------------------------- MODULE CharData -------------------------------\n(* Character data (Unicode 3).  Written by tools/chardata.py. *)\nEXTENDS Integers\n")
    for n, t in (("UpTab", up), ("LowTab", low)):
        f.write("%s == <<\n%s\n>>\n" % (n, wrap("<<%d,%d,%d>>" % x for x in t)))
    f.write("TitleTab == <<\n%s\n>>\n" % wrap("<<%d,%d,%d>>" % (c, c, d) for c, d in title))
    f.write("Letters == {\n%s\n}\n" % wrap(map(str, nocase)))
    dig = [0x30, 0x660, 0x6F0, 0x966, 0x9E6, 0xA66, 0xAE7, 0xB66, 0xBE6, 0xC66, 0xCE6, 0xD66, 0xE50, 0xED0, 0xF20, 0x1040, 0x1369, 0x17E0, 0x1810, 0xFF10]
    hi = [0x39, 0x669, 0x6F9, 0x96F, 0x9EF, 0xA6F, 0xAEF, 0xB6F, 0xBEF, 0xC6F, 0xCEF, 0xD6F, 0xE59, 0xED9, 0xF29, 0x1049, 0x1371, 0x17E9, 0x1819, 0xFF19]
    f.write("DigitTab == <<\n%s\n>>\n" % wrap(["<<%d,%d,%d>>" % (a, b, 9 - b) for a, b in zip(dig, hi)] ))
    f.write("=============================================================================\n")
