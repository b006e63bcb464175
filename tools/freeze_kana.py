#!/usr/bin/env python3
"""One-off: freezes docs/KanaConversionChart.md as harness/ref_kana.h (the
oracle; not run by the checks).  Also cross-checks the chart with Unicode."""
import sys, unicodedata as u
rows=[]
for l in open(sys.argv[1]):
    c=[x.strip().strip('*') for x in l.strip().strip('|').split('|')]
    if len(c)==10 and c[0].isdigit(): rows.append(c)
out=[]
for no,ty,ro,hi,ka,hu,ku,he,kr,va in rows:
    if ty=='N': print('N row',no,ro,hi,ka,he,kr,va,file=sys.stderr); continue
    assert ''.join(chr(ord(x)+0x60) for x in hi)==ka,(hi,ka)
    if hu: assert int(hu,16)==ord(hi) and int(ku,16)==ord(ka)
    d=u.normalize('NFD',hi)
    mark={'\u3099':'D','\u309a':'H'}.get(d[1:2],'P')
    assert mark==ty,(hi,ty,mark)
    va=[x for x in va.split(', ') if x]
    out.append((ro,hi,ka,ty,he,kr,va))
names={r[1]:r for r in out}
print("// Frozen Kana conversion chart: generated by tools/freeze_kana.py from the\n// documentation, reviewed by hand.  Hepburn/Kunrei in () are output only.")
print("#pragma once\n#include <string>\n#include <vector>\nnamespace ref {\nstruct KanaRow {\n  const char *roma, *hira, *kata;\n  char type;\n  const char *hepburn, *kunrei;\n  std::vector<const char*> variants;\n};\ninline const std::vector<KanaRow>& kanaRows() {\n  static const std::vector<KanaRow> r{")
for ro,hi,ka,ty,he,kr,va in out:
    print('      {"%s", "%s", "%s", \'%s\', "%s", "%s", {%s}},'%(ro,hi,ka,ty,he,kr,', '.join('"%s"'%x for x in va)))
print("  };\n  return r;\n}\n} // namespace ref")
