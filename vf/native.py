"""Native programs: the real sources with sanitizers, next to the executable
specification; used to replay and to search for failing inputs."""
import os, subprocess, json, re
import tables
from work import VERIF, BuildError

N = os.path.join(VERIF, "native")
SAN = ["-std=gnu99", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=pointer-overflow"]
SEG = {
    # algorithm: (table, generated header, spec header, prefix, history type, count, function)
    "character": ("character", "character.h", "uax29c.h", "cb", "NUM_CHAR_BREAK_PROPS", "grapheme_next_character_break"),
    "word": ("word", "word.h", "uax29w.h", "wb", "NUM_WORD_BREAK_PROPS", "grapheme_next_word_break"),
    "sentence": ("sentence", "sentence.h", "uax29s.h", "sb", "NUM_SENTENCE_BREAK_PROPS", "grapheme_next_sentence_break"),
    "line": ("line", "line.h", "uax14.h", "lb", "NUM_LINE_BREAK_PROPS", "grapheme_next_line_break"),
}
SRCS = ["bidirectional", "case", "character", "line", "sentence", "utf8", "util", "word"]


def cc(args, cwd):
    p = subprocess.run(["gcc"] + args, cwd=cwd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("gcc %s: %s" % (" ".join(args), p.stderr[-1500:]))


def lib(work):
    """objects of the real sources (needs all generated headers)"""
    d = work.dir + "/nat"
    os.makedirs(d, exist_ok=True)
    objs, ps = [], []
    for s in SRCS:
        o = "%s/%s.o" % (d, s)
        objs.append(o)
        if not os.path.exists(o):
            ps.append((s, subprocess.Popen(["gcc"] + SAN + ["-c", "-o", o, work.dir + "/src/" + s + ".c"],
                                           stderr=subprocess.PIPE, text=True)))
    for s, p in ps:
        _, e = p.communicate()
        if p.returncode:
            raise BuildError("src/%s.c: %s" % (s, e[-1500:]))
    return objs


def class_reps(name):
    pre = tables.SPECS[name][2]
    by = {}
    for a, b, c in tables.ranges(name):
        by.setdefault(c, []).append((a, b))
    d = tables.SPECS[name][3]
    # gaps belong to the default class
    gaps, last = [], 0
    for a, b, c in sorted(tables.ranges(name)):
        if a > last:
            gaps.append((last, a - 1))
        last = b + 1
    if last < 0x110000:
        gaps.append((last, 0x10FFFF))
    by.setdefault(d, []).extend(gaps)
    return pre, by


def enum_order(work, gen, pre, num):
    """numeric value of every class of the library"""
    t = open("%s/gen/%s.h" % (work.dir, gen)).read()
    names = re.findall(r"^\s*(%s\w+|%s)\s*,?\s*$" % (pre, num), t, re.M)
    seen = []
    for n in names:
        if n not in seen:
            seen.append(n)
    return seen


def ucd_header(work, algo, d):
    tab, gh, sh_, pre, num, fn = SEG[algo]
    cpre, by = class_reps(tab)
    order = [n for n in enum_order(work, tab, cpre, num) if n != num]
    o = [tables.class_table(tab, "U")]
    first, rg = [], []
    for n in order:
        first.append(len(rg))
        # codepoint 0 ends terminated strings
        rg += [(max(a, 1), b) for a, b in by.get(n[len(cpre):], []) if b >= 1]
    first.append(len(rg))
    missing = [c for c in by if cpre + c not in order]
    if missing:
        raise BuildError("classes %s do not exist in %s" % (missing, gh))
    o.append("static const unsigned cls_first[] = {%s};\n" % ",".join(map(str, first)))
    o.append("static const u32 cls_range[][2] = {%s};\n" % ",".join("{0x%X,0x%X}" % r for r in rg))
    open("%s/ucd_%s.h" % (d, algo), "w").write("".join(o))


def segstate(work, algo):
    return seg(work, algo, "state", ["-DONLY_STATE"])


def segforms(work, algo):
    return seg(work, algo, "forms", ["-DMODE_FORMS"])


def segprogress(work, algo):
    return seg(work, algo, "progress", ["-DMODE_PROGRESS"])


def seg(work, algo, tag="", defs=()):
    objs = lib(work)
    tab, gh, sh_, pre, num, fn = SEG[algo]
    d = work.dir + "/nat"
    cpre = tables.SPECS[tab][2]
    ucd_header(work, algo, d)
    exe = "%s/seg_%s%s" % (d, algo, tag)
    cc(SAN + ["-I", work.dir, "-I", d, "-I", VERIF + "/native", "-o", exe, N + "/seg.c",
              '-DGENH="gen/%s"' % gh, '-DUCDH="ucd_%s.h"' % algo, '-DSPEC="%s/spec/%s"' % (VERIF, sh_),
              "-DPRE=" + pre, "-DHIST=struct %s_hist" % pre, "-DNUMCLASS=" + num, "-DDEFCLASS=" + cpre + tables.SPECS[tab][3],
              "-DFUNC=" + fn, "-DFUNC8=" + fn + "_utf8", "-DALGO_" + algo, '-DALGO="%s"' % fn] + list(defs) + objs, d)
    return exe


def states(work, d):
    """relation between state words and histories, found by execution"""
    os.makedirs(d, exist_ok=True)
    tab, gh, sh_, pre, num, fn = SEG["character"]
    ucd_header(work, "character", d)
    exe = d + "/states"
    cc(["-std=gnu99", "-O1", "-w", "-I", work.dir, "-I", d, "-I", VERIF + "/native", "-o", exe, N + "/states.c", '-DGENH="gen/%s"' % gh,
        '-DUCDH="ucd_character.h"', '-DSPEC="%s/spec/%s"' % (VERIF, sh_), "-DNUMCLASS=" + num] +
       ["%s/src/%s.c" % (work.dir, s) for s in ("character", "util", "utf8", "word")], d)
    p = subprocess.run([exe], capture_output=True, text=True, timeout=60)
    if p.returncode:
        raise BuildError("states: " + p.stderr[-800:])
    open(d + "/states.h", "w").write(p.stdout)


def case_header(d):
    o = [tables.two_level(tables.classes("case"), "UCASE", "unsigned char",
                          lambda c: str(["OTHER", "CASED", "CASE_IGNORABLE", "BOTH_CASED_CASE_IGNORABLE"].index(c)))]
    sp, mp = set(), set()
    for n in ("upper", "lower", "title"):
        o.append(tables.map_table(n, "U" + n))
        for c, v in tables.mappings(n).items():
            (sp if len(v) > 1 else mp).add(c)
    for n, s in (("special", sp), ("mapped", mp)):
        o.append("static const u32 case_%s[] = {%s};\n" % (n, ",".join("0x%X" % c for c in sorted(s))))
    open(d + "/ucd_case.h", "w").write("".join(o))


def case(work, mode):
    objs = lib(work)
    d = work.dir + "/nat"
    case_header(d)
    exe = "%s/case_%s" % (d, mode)
    cc(SAN + ["-I", work.dir, "-I", d, "-I", VERIF + "/native", "-DMODE_" + mode, "-o", exe, N + "/case.c"] + objs, d)
    return exe


def tab(work, name):
    """the table programs, compiled natively: every codepoint"""
    lib(work)
    d = work.dir + "/nat"
    p = "%s/tab_%s.c" % (d, name)
    src = {"map": "case", "bracket": "bidirectional"}.get(name) or tables.SPECS[name][1][:-2]
    if name == "map":
        tables.map_program(work, p)
    elif name == "bracket":
        tables.bidi_program(work, p)
    else:
        tables.class_program(work, name, p)
    exe = "%s/tab_%s" % (d, name)
    cc(SAN + ["-I", work.dir, "-I", work.dir + "/src", "-o", exe, p] + ["%s/%s.o" % (d, s) for s in SRCS if s != src], d)
    return exe


EXHAUSTIVE = {"tab"}


def utf8(work, arg):
    return simple(work, "utf8")


def simple(work, name, defs=()):
    objs = lib(work)
    exe = "%s/nat/%s" % (work.dir, name)
    if not os.path.exists(exe):
        cc(SAN + ["-I", work.dir, "-I", work.dir + "/nat", "-I", VERIF + "/native", "-o", exe, "%s/%s.c" % (N, name)] + list(defs) + objs, work.dir)
    return exe


BIDI_ORDER = "AL AN B BN CS EN ES ET FSI L LRE LRI LRO NSM ON PDF PDI R RLE RLI RLO S WS".split()


def bidi_header(d):
    t = tables.classes("bidi")
    o = [tables.two_level(t, "UCLS", "unsigned char", lambda c: str(BIDI_ORDER.index(c)))]
    by = {}
    for c in range(1, tables.N):
        r = by.setdefault(t[c], [])
        if r and r[-1][1] == c - 1:
            r[-1][1] = c
        else:
            r.append([c, c])
    first, rg = [], []
    for n in BIDI_ORDER:
        first.append(len(rg))
        rg += by[n]
    first.append(len(rg))
    o.append("static const unsigned cls_first[] = {%s};\n" % ",".join(map(str, first)))
    o.append("static const u32 cls_range[][2] = {%s};\n" % ",".join("{0x%X,0x%X}" % tuple(r) for r in rg))
    t, d_, br = tables.bidi_tables()
    o += [tables.two_level(t, "UB", "unsigned char", str), tables.two_level(d_, "UM", "int", str)]
    first = [0x28, 0x29, 0x5B, 0x5D, 0x2329, 0x3009]
    o.append("static const u32 brackets[] = {%s};\n#define NBRACKETS %d\n" % (",".join("0x%X" % c for c in first + sorted(br)), 6 + len(br)))
    open(d + "/ucd_bidi.h", "w").write("".join(o))


def bidi(work, mode):
    objs = lib(work)
    d = work.dir + "/nat"
    bidi_header(d)
    exe = "%s/bidi_%s" % (d, mode)
    cc(SAN + ["-I", work.dir, "-I", d, "-I", VERIF + "/native", "-DMODE_" + mode, "-o", exe, N + "/bidi.c"] + objs, d)
    return exe
