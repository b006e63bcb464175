#!/usr/bin/env python3
"""Writes data/ucd.txt: a synthetic stand-in for the repository's data/ucd.txt,
which isn't shipped.  It has a row for every Kanji of the shipped lists plus a
few thousand others, and together the rows use every combination of optional
fields.  Everything is a fixed function of the code point."""
import glob, os, sys, unicodedata

REPO = sys.argv[1] if len(sys.argv) > 1 else "/repo"
OUT = sys.argv[2] if len(sys.argv) > 2 else os.path.join(os.path.dirname(os.path.abspath(__file__)), "../data/ucd.txt")
D = REPO + "/data/"


def h(c, salt):
    x = (ord(c) * 2654435761 + salt * 40503 + 12345) & 0xffffffff
    x ^= x >> 15
    x = x * 2246822519 & 0xffffffff
    x ^= x >> 13
    x = x * 3266489917 & 0xffffffff
    return x ^ x >> 16


def table(f):
    with open(D + f, encoding="utf-8") as fh:
        rows = [l.rstrip("\n").split("\t") for l in fh]
    return [dict(zip(rows[0], r)) for r in rows[1:]]


def listing(f):
    with open(f, encoding="utf-8") as fh:
        return fh.read().split()


VS = {chr(c) for c in range(0xfe00, 0xfe10)}
jouyou, jinmei, extra, radicals = (table(f + ".txt") for f in ("jouyou", "jinmei", "extra", "radicals"))
radical = {r["Name"].split()[0]: int(r["Number"]) for r in radicals}
linked = [tuple(l.split("\t")) for l in open(D + "linked-jinmei.txt", encoding="utf-8").read().splitlines()]
linked += [(r["Name"], o) for r in jinmei for o in r["OldNames"].split(",") if o]
freq = listing(D + "frequency.txt")
kentei = [k for f in sorted(glob.glob(D + "kentei/*.txt")) for k in listing(f)]

# compatibility characters by the standard character they decompose to
compat = {}
for c in [*range(0xfa30, 0xfa6b), *range(0xf900, 0xfa2e), *range(0xfa70, 0xfada), *range(0x2f800, 0x2fa1e)]:
    d = unicodedata.decomposition(chr(c))
    if d and " " not in d:
        compat.setdefault(chr(int(d, 16)), chr(c))

rows = {}


def put(name, **kw):
    assert len(name) == 1 and name not in rows, name
    rows[name] = kw


std = set()
for r in jouyou:
    put(r["Name"], joyo=True, rad=radical[r["Radical"]], strokes=int(r["Strokes"]), meaning=r["Meaning"])
    std.add(r["Name"])
for r in jinmei:
    put(r["Name"], jinmei=True, rad=radical[r["Radical"]])
    std.add(r["Name"])
back = {}
for s, l in linked:
    name = l
    if len(l) == 2:
        assert l[1] in VS and l[0] == s, (s, l)
        name = compat[s]
    assert s not in back, s
    back[s] = name
    put(name, jinmei=True, links=[s], ltype="Jinmei" if h(name, 1) % 2 else "Compatibility*")
for r in jouyou:
    for o in r["OldNames"].split(","):
        if o and len(o) == 1 and o not in rows:
            put(o, links=[r["Name"]], ltype="Simplified*")
        assert len(o) < 2 or back.get(o[0]), o
TYPES = ["Compatibility*", "Definition*", "Jinmei*", "Semantic*", "Simplified*", "Traditional*", "Compatibility",
         "Definition", "Jinmei", "Simplified", "Traditional"]
pool = sorted(std)


def links(c):
    t = h(c, 2) % 22
    if t >= 11:
        return {}
    n = 1 + h(c, 3) % 3 if h(c, 60) % 12 else 4 + h(c, 3) % 5
    l = []
    for i in range(n):
        k = pool[h(c, 4 + i if i < 3 else 61 + i) % len(pool)]
        if k not in l:
            l.append(k)
    return dict(links=l, ltype=TYPES[t])


for r in extra:
    put(r["Name"], rad=radical[r["Radical"]], strokes=int(r["Strokes"]), **links(r["Name"]))
for k in freq + kentei:
    k = k if len(k) == 1 else compat[k[0]]
    if k not in rows:
        put(k, **links(k))
groups = [m for f in ("meaning-groups", "pattern-groups") for r in table(f + ".txt") for m in r["Members"].split(",")]
groups += [r["Name"].split("：")[0] for r in table("pattern-groups.txt") if r["Name"].find("：") > 0]
for k in groups:
    if len(k) == 2:
        assert k[1] in VS and compat[k[0]] in rows, k
    elif k not in rows:
        put(k, **links(k))
BLOCKS = [(0x3400, 0x4dbf, 251, "CJK_Ext_A"), (0x4e00, 0x9fff, 43, "CJK"), (0xf900, 0xfa6d, 5, "CJK_Compat_Ideographs"), (0xfa70, 0xfad9, 11, "CJK_Compat_Ideographs"),
          (0x20000, 0x2a6df, 701, "CJK_Ext_B"), (0x2a700, 0x2b738, 403, "CJK_Ext_C"), (0x2b740, 0x2b81d, 31, "CJK_Ext_D"),
          (0x2b820, 0x2cea1, 599, "CJK_Ext_E"), (0x2ceb0, 0x2ebe0, 599, "CJK_Ext_F"), (0x2f800, 0x2fa1d, 23, "CJK_Compat_Ideographs_Sup"), (0x30000, 0x3134a, 599, "CJK_Ext_G")]
for lo, hi, step, _ in BLOCKS:
    for c in sorted({*range(lo, hi + 1, step), hi}):
        n = chr(c)
        if n not in rows and unicodedata.category(n) == "Lo":
            put(n, **links(n))

ON = "A I U E O KA KI KU KE KO SHI SU SE SO TAN CHI TSUU TEN TOU NAN NI MEI BOU KYOU SHUU CHUU RYOU GYOKU JA JUN ZETSU HAKU FUU HEN PON PYAKU WA YUU RAI GEKI".split()
KUN = "YAMA KAWA TSUKI HIKARU OTOKO UMARERU MIZU HITO TSUCHI KUNI WATASHI ASHI TE ME MIMI KUCHI KOKORO CHIKARA HANA FUNE SORA AOI AKAI SHIROI NAGAI TAKAI MATSU TATSU KIKU MIRU SHINBUN KIPPU OOKII".split()
HEAD = ("Code Name Block Version Radical Strokes VStrokes Pinyin MorohashiId NelsonIds Sources JSource Joyo Jinmei "
        "LinkCodes LinkNames LinkType Meaning On Kun Japanese").split()


def words(c, salt, pool, n):
    return " ".join(pool[h(c, salt + i) % len(pool)] for i in range(n))


def row(c, r):
    o = ord(c)
    block = next(b for lo, hi, _, b in BLOCKS if lo <= o <= hi)
    rad = r.get("rad", 1 + h(c, 10) % 214)
    strokes = r.get("strokes", 1 + h(c, 11) % 30)
    if h(c, 12) % 9 == 0:  # Unicode and the list files differ for some
        rad = 1 + (rad + 5) % 214
        strokes = 1 + (strokes + 3) % 30
    vs = ""
    if strokes > 1 and h(c, 13) % 7 == 0 and 3 <= strokes + 1 <= 33:
        vs = str(strokes + 1)
    moro = ""
    if h(c, 14) % 5:
        moro = str(1 + h(c, 15) % 9000)  # about half are shared
        k = h(c, 16) % 12
        moro = moro + "P" if k == 0 else moro + "''" if k == 1 else "H" + moro if k == 2 else "0" + moro if k == 3 else moro
    elif h(c, 14) % 50 == 0:
        moro = "00000"
    nelson = ""
    if h(c, 17) % 3 == 0:
        ids = [1 + h(c, 18 + i) % 5446 for i in range(1 + h(c, 21) % 3)]
        if h(c, 70) % 12 == 0:  # many, some of them shared by many
            ids += [1 + h(c, 71 + i) % (30 if i % 2 else 5446) for i in range(2 + h(c, 80) % 6)]
        nelson = ",".join(map(str, dict.fromkeys(ids)))
    sources = "".join(s for i, s in enumerate("GHJKTV") if h(c, 22) >> i & 1)
    on = words(c, 30, ON, h(c, 23) % 4 if h(c, 81) % 12 else 4 + h(c, 23) % 5) if h(c, 24) % 4 else ""
    kun = words(c, 40, KUN, h(c, 25) % 4 if h(c, 82) % 12 else 4 + h(c, 25) % 5) if h(c, 26) % 4 else ""
    js = f"J{h(c, 27) % 4}-{h(c, 28) % 0x8000:04X}" if h(c, 29) % 2 or not (on or kun or moro) else ""
    meaning = r.get("meaning", "") and f"{r['meaning']} (ucd)"
    if not meaning and h(c, 50) % 6:
        meaning = f"meaning {h(c, 51) % 1000}" + ("; other, one" if h(c, 52) % 2 else "")
    l = r.get("links", [])
    return [f"{o:04X}", c, block, ["1.1", "3.0", "3.1", "5.2", "13.0"][h(c, 53) % 5], rad, strokes, vs,
            ["", "yī", "hàn", "shuǐ", "lǜ"][h(c, 54) % 5], moro, nelson, sources, js, "Y" if r.get("joyo") else "", "Y" if r.get("jinmei") else "",
            ",".join(f"{ord(k):04X}" for k in l), ",".join(l), r.get("ltype", "") if l else "", meaning, on, kun, ""]


with open(OUT, "w", encoding="utf-8") as f:
    f.write("\t".join(HEAD) + "\n")
    for c in sorted(rows):
        f.write("\t".join(map(str, row(c, rows[c]))) + "\n")
print(len(rows), "rows")
