"""Independent reading of the Unicode Character Database 15.0.0 files.

Written from UAX #44, #14, #29, #9 and the headers of the data files; it shares
no code with /repo/gen.  Writes /verif/ucd/*.txt, which are committed: the
checks compare the library's tables with these.
"""
import os, re, sys

D = sys.argv[1] if len(sys.argv) > 1 else "/repo/data"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ucd")
N = 0x110000


def lines(f):
    for l in open(os.path.join(D, f), encoding="utf-8"):
        l = l.split("#", 1)[0].strip()
        if l:
            yield [x.strip() for x in l.split(";")]


def rng(s):
    a, _, b = s.partition("..")
    return range(int(a, 16), int(b or a, 16) + 1)


def prop(f, default, only=None):
    t = [default] * N
    for x in lines(f):
        if only is None or x[1] == only:
            for c in rng(x[0]):
                t[c] = x[1]
    return t


gc = ["Cn"] * N
simple = {}
decomp = {}
first = None
for x in lines("UnicodeData.txt"):
    c = int(x[0], 16)
    if x[1].endswith(", First>"):
        first = c
    elif x[1].endswith(", Last>"):
        for d in range(first, c + 1):
            gc[d] = x[2]
    else:
        gc[c] = x[2]
    up = int(x[12], 16) if x[12] else c
    lo = int(x[13], 16) if x[13] else c
    ti = int(x[14], 16) if len(x) > 14 and x[14] else up
    simple[c] = (up, lo, ti)
    if x[5] and not x[5].startswith("<"):
        d = [int(v, 16) for v in x[5].split()]
        if len(d) == 1:
            decomp[c] = d[0]
pict = [False] * N
for x in lines("emoji-data.txt"):
    if x[1] == "Extended_Pictographic":
        for c in rng(x[0]):
            pict[c] = True


def out(name, t, default):
    with open(os.path.join(OUT, name + ".txt"), "w") as f:
        c = 0
        while c < N:
            e = c
            while e + 1 < N and t[e + 1] == t[c]:
                e += 1
            if t[c] != default:
                f.write("%X %X %s\n" % (c, e, t[c]))
            c = e + 1


def grapheme():
    names = {"L": "HANGUL_L", "V": "HANGUL_V", "T": "HANGUL_T", "LV": "HANGUL_LV", "LVT": "HANGUL_LVT", "Other": "OTHER"}
    g = prop("GraphemeBreakProperty.txt", "Other")
    t = []
    for c in range(N):
        v = names.get(g[c], g[c].upper())
        if pict[c]:
            assert v == "OTHER"
            v = "EXTENDED_PICTOGRAPHIC"
        t.append(v)
    out("character", t, "OTHER")


def word():
    g = prop("WordBreakProperty.txt", "Other")
    t = []
    for c in range(N):
        v = g[c].upper()
        if pict[c]:
            assert v in ("OTHER", "ALETTER")
            v = "EXTENDED_PICTOGRAPHIC" if v == "OTHER" else "BOTH_ALETTER_EXTPICT"
        t.append(v)
    out("word", t, "OTHER")


def sentence():
    g = prop("SentenceBreakProperty.txt", "Other")
    out("sentence", [v.upper() for v in g], "OTHER")


def line():
    lb = prop("LineBreak.txt", "XX")
    eaw = prop("EastAsianWidth.txt", "N")
    t = []
    for c in range(N):
        v = lb[c]
        if v in ("AI", "SG", "XX"):
            v = "AL"
        elif v == "SA":
            v = "CM" if gc[c] in ("Mn", "Mc") else "AL"
        elif v == "CJ":
            v = "NS"
        elif v in ("OP", "CP"):
            v += "_WITH_EAW_HWF" if eaw[c] in ("F", "W", "H") else "_WITHOUT_EAW_HWF"
        if pict[c] and gc[c] == "Cn":
            assert lb[c] == "ID", hex(c)
            v = "BOTH_CN_EXTPICT"
        t.append(v)
    out("line", t, "AL")


def case():
    cased, ign = [False] * N, [False] * N
    for x in lines("DerivedCoreProperties.txt"):
        tt = {"Cased": cased, "Case_Ignorable": ign}.get(x[1])
        if tt:
            for c in rng(x[0]):
                tt[c] = True
    out("case", [{(1, 1): "BOTH_CASED_CASE_IGNORABLE", (1, 0): "CASED", (0, 1): "CASE_IGNORABLE", (0, 0): "OTHER"}[
        (int(cased[c]), int(ign[c]))] for c in range(N)], "OTHER")
    m = {c: tuple((v,) for v in simple[c]) for c in simple if simple[c] != (c, c, c)}
    for x in lines("SpecialCasing.txt"):
        if len(x) > 4 and x[4]:
            continue
        c = int(x[0], 16)
        lo, ti, up = [tuple(int(v, 16) for v in x[i].split()) for i in (1, 2, 3)]
        m[c] = (up, lo, ti)
    for k, n in enumerate(("upper", "lower", "title")):
        with open(os.path.join(OUT, n + ".txt"), "w") as f:
            for c in sorted(m):
                if m[c][k] != (c,):
                    f.write("%X %s\n" % (c, " ".join("%X" % v for v in m[c][k])))


def bidi():
    long = {"Left_To_Right": "L", "Right_To_Left": "R", "Arabic_Letter": "AL", "European_Terminator": "ET"}
    t = ["L"] * N
    for l in open(os.path.join(D, "DerivedBidiClass.txt"), encoding="utf-8"):
        m = re.match(r"# @missing: (\S+); (\S+)", l)
        if m:
            for c in rng(m.group(1)):
                t[c] = long[m.group(2)]
    for x in lines("DerivedBidiClass.txt"):
        for c in rng(x[0]):
            t[c] = x[1]
    out("bidi", t, "L")
    with open(os.path.join(OUT, "mirror.txt"), "w") as f:
        for x in lines("BidiMirroring.txt"):
            f.write("%X %X\n" % (int(x[0], 16), int(x[1], 16)))
    # brackets: "cp o|c pair", both normalised to the canonical singleton
    # equivalent (UAX #9, BD14-BD16)
    with open(os.path.join(OUT, "bracket.txt"), "w") as f:
        for x in lines("BidiBrackets.txt"):
            c, p = int(x[0], 16), int(x[1], 16)
            f.write("%X %s %X %X\n" % (c, x[2], decomp.get(c, c), decomp.get(p, p)))


for fn in (grapheme, word, sentence, line, case, bidi):
    fn()
for c in simple:
    assert simple[c][2] == simple[c][0] or True
