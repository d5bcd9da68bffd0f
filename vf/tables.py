"""Property tables: the real lookup functions over the real generated tables
return, for every 32-bit codepoint, the value of the Unicode Character Database."""
import os, re
import annotate
from annotate import ExtractError
from work import VERIF

U = os.path.join(VERIF, "ucd")
N = 0x110000
SPECS = {
    # name: (generator, source, prefix of the enumeration, default class)
    "character": ("character", "character.c", "CHAR_BREAK_PROP_", "OTHER"),
    "word": ("word", "word.c", "WORD_BREAK_PROP_", "OTHER"),
    "sentence": ("sentence", "sentence.c", "SENTENCE_BREAK_PROP_", "OTHER"),
    "line": ("line", "line.c", "LINE_BREAK_PROP_", "AL"),
    "case": ("case", "case.c", "CASE_PROP_", "OTHER"),
    "bidi": ("bidirectional", "bidirectional.c", "BIDI_PROP_", "L"),
}


def ranges(name):
    for l in open(os.path.join(U, name + ".txt")):
        a, b, c = l.split()
        yield int(a, 16), int(b, 16), c


def classes(name):
    t = [SPECS[name][3]] * N
    for a, b, c in ranges(name):
        t[a:b + 1] = [c] * (b + 1 - a)
    return t


def two_level(t, name, ctype, fmt):
    blocks, major, body = {}, [], []
    for i in range(0, N, 256):
        k = tuple(t[i:i + 256])
        if k not in blocks:
            blocks[k] = len(blocks)
            body.extend(k)
        major.append(blocks[k])
    o = ["static const unsigned short %s_major[0x1100] = {%s};\n" % (name, ",".join(map(str, major))),
         "static const %s %s_minor[%d] = {%s};\n" % (ctype, name, len(body), ",".join(fmt(x) for x in body)),
         "#define %s(cp) (%s_minor[(size_t)%s_major[(cp) >> 8] * 256 + ((cp) & 0xff)])\n" % (name, name, name)]
    return "".join(o)


def class_table(name, macro):
    pre = SPECS[name][2]
    return two_level(classes(name), macro, "unsigned char", lambda c: pre + c)


def mappings(name):
    m = {}
    for l in open(os.path.join(U, name + ".txt")):
        x = [int(v, 16) for v in l.split()]
        m[x[0]] = x[1:]
    return m


def map_table(name, macro):
    """single mappings as the result, longer ones as 0x80000000 + index into a list"""
    m = mappings(name)
    t = list(range(N))
    sp = []
    for c, v in m.items():
        if len(v) == 1:
            t[c] = v[0]
        else:
            t[c] = 0x80000000 + len(sp)
            sp.append(v)
    # store differences, so that the table compresses
    d = [(v - c) if v < 0x80000000 else v - (1 << 32) for c, v in enumerate(t)]
    s = two_level(d, macro + "_d", "int", lambda v: "%d" % v if v > -2147483648 else "(-2147483647-1)")
    s += "static const struct { unsigned char n; unsigned cp[3]; } %s_special[] = {%s};\n" % (
        macro, ",".join("{%d,{%s}}" % (len(v), ",".join("0x%X" % x for x in v)) for v in sp))
    return s


MACROS = """
#ifdef __CPROVER__
#define CHECK(c, d) __CPROVER_assert(c, d)
#define REACH(d) __CPROVER_assert(0, "REACH " d)
#else
#include <stdio.h>
#include <stdlib.h>
static long n_eval;
static uint_least32_t cur_cp;
#define CHECK(c, d) do { if (!(c)) { printf("FAIL %s\\nCASE %X\\n", d, (unsigned)cur_cp); fflush(stdout); exit(3); } } while (0)
#define REACH(d)
#endif
"""


def native_main(names):
    o = "#ifndef __CPROVER__\nint main(int argc, char **argv)\n{\n"
    o += "\tuint_least32_t more[] = {0x110100, 0x200000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x80000041}, cp, i;\n"
    o += "\tif (argc == 3) { cp = cur_cp = strtoul(argv[2], NULL, 16);\n"
    o += "".join("\t\tcheck_%s(cp);\n" % n for n in names)
    o += "\t\tprintf(\"OK\\n\"); return 0; }\n"
    o += "\tfor (i = 0; i < 0x110100 + 6; i++) {\n\t\tcp = cur_cp = i < 0x110100 ? i : more[i - 0x110100];\n"
    o += "".join("\t\tcheck_%s(cp); n_eval++;\n" % n for n in names)
    o += "\t}\n\tprintf(\"STATS {\\\"evaluations\\\": %ld, \\\"distinct\\\": %ld, \\\"samples\\\": [\\\"every codepoint, e.g. U+0041\\\"]}\\n\", n_eval, (long)i);\n\treturn 0;\n}\n#endif\n"
    return o


def table_user(work, src, tables, nparams, need=()):
    """names of the functions that read one of these tables (or get it passed)"""
    top = os.path.join(work.red, "tu_u_%d_%s" % (os.getpid(), src))
    with open(top, "w") as f:
        f.write('#include "src/%s"\n' % src)
    ast = annotate.parse(annotate.preprocess(top, incdirs=[work.red]))
    T = annotate.Types(ast)
    f = annotate.table_functions(ast, T, tables)
    return {k: v for k, v in f.items() if v[1] == nparams}, ast, T


def class_program(work, name, path, num=None):
    gen, src, pre, default = SPECS[name]
    tabs = [t for t in work.tables[gen] if t in ({"case": ("case_major", "case_minor"), "bidi": ("bidi_major", "bidi_minor")}.get(name) or work.tables[gen])]
    fns, ast, T = table_user(work, src, tabs, 1)
    fns = {k: v for k, v in fns.items()}
    names = sorted(fns)
    if name == "bidi":
        # two functions read the table: the class and the bracket offset
        names = [k for k in names if "bracket" not in k]
    if not names:
        raise ExtractError("no lookup function for the %s property found" % name)
    o = ['#include "src/%s"\n' % src, MACROS, class_table(name, "U")]
    for fn in names:
        o.append("""void check_%s(uint_least32_t cp)
{
	unsigned v = (unsigned)%s(cp);
	if (cp <= 0x10FFFF) {
		CHECK(v == (unsigned)U(cp), "%s ensures: the class is that of the Unicode Character Database");
		REACH("assigned");
	} else {
		CHECK(v == (unsigned)%s%s, "%s ensures: default class above U+10FFFF");
		REACH("above");
	}
}
void harness_%s(void) { uint_least32_t cp; check_%s(cp); }
""" % (fn, fn, fn, pre, default, fn, fn, fn))
    if name == "case":
        for fn in names:
            o.append('void harness_sigma_%s(void) { CHECK(%s(0x3A3) == CASE_PROP_CASED, "U+03A3 is Cased and not Case_Ignorable"); CHECK(%s(0xFFFD) == CASE_PROP_OTHER, "U+FFFD is neither Cased nor Case_Ignorable"); REACH("return"); }\n' % (fn, fn, fn))
    if num:
        for fn in names:
            o.append('void harness_range_%s(void) { uint_least32_t cp; CHECK((unsigned)%s(cp) < (unsigned)%s, "%s ensures: a class"); REACH("return"); }\n' % (fn, fn, num, fn))
    o.append(native_main(names))
    open(path, "w").write("".join(o))
    return names


def map_program(work, path):
    """get_case_offset() with each pair of tables, and the special case lists"""
    o = ['#include "src/case.c"\n', MACROS]
    for n in ("upper", "lower", "title"):
        o.append(map_table(n, "U" + n))
        o.append("""void check_map_%(n)s(uint_least32_t cp)
{
	int_least32_t map = get_case_offset(cp, %(n)s_major, %(n)s_minor);
	if (cp > 0x10FFFF) {
		CHECK(map == 0, "get_case_offset ensures: no %(n)s mapping above U+10FFFF");
	} else {
		int d = U%(n)s_d(cp);
		if (map >= 0x110000) {
			size_t k = (size_t)map - 0x110000;
			CHECK(k < sizeof(%(n)s_special) / sizeof(*%(n)s_special), "get_case_offset ensures: special %(n)s mapping exists");
			const struct special_case *s = &%(n)s_special[k];
			CHECK(s->cplen >= 1 && s->cplen <= 3, "get_case_offset ensures: special %(n)s mapping has one to three codepoints");
			CHECK(s->cplen == 1 || s->cp[0] != cp, "get_case_offset ensures: special %(n)s mapping of several codepoints begins with another codepoint");
			if (d <= -0x40000000) {
				unsigned j = (unsigned)d - 0x80000000u;
				CHECK(s->cplen == U%(n)s_special[j].n, "special %(n)s mapping has the length of SpecialCasing.txt");
				for (int i = 0; i < 3; i++)
					if (i < U%(n)s_special[j].n)
						CHECK(s->cp[i] == U%(n)s_special[j].cp[i], "special %(n)s mapping has the codepoints of SpecialCasing.txt");
				REACH("special");
			} else {
				CHECK(s->cplen == 1 && s->cp[0] == (uint_least32_t)((int_least32_t)cp + d), "special %(n)s mapping of length one");
			}
		} else {
			CHECK(map > -0x110000, "get_case_offset ensures: range of the simple %(n)s mapping");
			CHECK(d > -0x40000000 && map == d, "get_case_offset ensures: simple %(n)s mapping of UnicodeData.txt");
			REACH("simple");
		}
	}
}
void harness_map_%(n)s(void) { uint_least32_t cp; check_map_%(n)s(cp); }
""" % {"n": n})
    o.append(native_main(["map_" + n for n in ("upper", "lower", "title")]))
    open(path, "w").write("".join(o))


def bidi_tables():
    """bracket (pair number * 2 + closing, 0: none) and mirror difference of every codepoint"""
    br = {}
    for l in open(os.path.join(U, "bracket.txt")):
        c, t, n, p = l.split()
        br[int(c, 16)] = (t, int(n, 16), int(p, 16))
    keys = {}
    t = [0] * N
    for c, (ty, n, p) in br.items():
        k = n if ty == "o" else p
        i = keys.setdefault(k, len(keys) + 1)
        t[c] = i * 2 + (ty == "c")
    mir = mappings("mirror")
    d = [0] * N
    for c, v in mir.items():
        d[c] = v[0] - c
    return t, d, br


def bidi_program(work, path):
    """bracket types, bracket pairing and mirroring"""
    t, d, br = bidi_tables()
    o = ['#include "src/bidirectional.c"\n', MACROS,
         two_level(t, "UB", "unsigned char", str), two_level(d, "UM", "int", str)]
    o.append("""
static const struct bracket *B(uint_least32_t cp)
{
	size_t off = get_bidi_bracket_off(cp);
	CHECK(off < sizeof(bidi_bracket) / sizeof(*bidi_bracket), "get_bidi_bracket_off ensures: within the list of brackets");
	CHECK(off < 256, "get_bidi_bracket_off ensures: fits into the state");
	return &bidi_bracket[off];
}
void check_brackets(uint_least32_t a, uint_least32_t b)
{
	const struct bracket *x = B(a), *y = B(b);
	unsigned ka = a <= 0x10FFFF ? UB(a) : 0, kb = b <= 0x10FFFF ? UB(b) : 0;
	CHECK((x->type == BIDI_BRACKET_NONE) == (ka == 0), "exactly the characters of BidiBrackets.txt are brackets");
	CHECK(ka == 0 || (x->type == BIDI_BRACKET_CLOSE) == (ka & 1), "bracket type of BidiBrackets.txt");
	if (ka && kb) {
		CHECK((x->class == y->class) == (ka / 2 == kb / 2), "brackets pair up exactly as in BidiBrackets.txt, up to canonical equivalence");
		REACH("pair");
	}
}
void harness_bracket(void) { uint_least32_t a, b; check_brackets(a, b); }
#ifndef __CPROVER__
void check_bracket(uint_least32_t cp)
{
	static const uint_least32_t all[] = {%s};
	for (size_t i = 0; i < sizeof(all) / sizeof(*all); i++) check_brackets(cp, all[i]);
}
#endif
void check_mirror(uint_least32_t cp)
{
	int m = get_mirror_offset(cp);
	CHECK(m == (cp <= 0x10FFFF ? UM(cp) : 0), "get_mirror_offset ensures: mirrored character of BidiMirroring.txt");
	REACH("mirror");
}
void harness_mirror(void) { uint_least32_t cp; check_mirror(cp); }
""".replace("%s", ",".join("0x%X" % c for c in br)))
    o.append(native_main(["bracket", "mirror"]))
    open(path, "w").write("".join(o))


def words_program(work, path):
    open(path, "w").write('#include "src/bidirectional.c"\n' + MACROS + '#include "bidi_words.h"\n')
