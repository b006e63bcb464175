#!/usr/bin/env python3
"""Generates harness/ref_width.h from DisplaySize.h, after comparing with
Python's own East Asian Width data (run once; the header is committed)."""
import re, unicodedata, sys
s = open('/repo/libs/kana/include/kt_kana/DisplaySize.h').read()
r = [(int(a, 16), int(b or a, 16)) for a, b in re.findall(r'makeBlock<0x([0-9A-F]+)(?:, 0x([0-9A-F]+))?>', s)]
wide = {c for a, b in r for c in range(a, b + 1)}
py = {c for c in range(0x110000) if unicodedata.east_asian_width(chr(c)) in 'WF'}
def runs(x):
    x = sorted(x); o = []
    for c in x:
        if o and o[-1][1] == c - 1: o[-1][1] = c
        else: o.append([c, c])
    return [f'{a:X}-{b:X}' for a, b in o]
print(len(r), 'python', unicodedata.unidata_version, 'only here', runs(wide - py), 'only python', runs(py - wide), file=sys.stderr)
print("// Frozen table of wide and fullwidth code points (Unicode 14 East Asian Width);\n// generated by tools/freeze_width.py and cross-checked with Python's data.\n#pragma once\n#include <cstdint>\n#include <utility>\n#include <vector>\nnamespace ref {\ninline const std::vector<std::pair<uint32_t, uint32_t>>& wideRanges() {\n  static const std::vector<std::pair<uint32_t, uint32_t>> r{")
for i in range(0, len(r), 6):
    print("      " + " ".join(f"{{0x{a:X}, 0x{b:X}}}," for a, b in r[i:i + 6]))
print("  };\n  return r;\n}\n} // namespace ref")
