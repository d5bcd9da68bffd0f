"""Case conversion and detection proofs."""
import os, re
from pycparser import c_ast
import annotate, engine
from annotate import ExtractError
from work import VERIF

H = os.path.join(VERIF, "harness")
KINDS = {"upper": "K_UPPER", "lower": "K_LOWER", "title": "K_TITLE"}


def contracts(work):
    """lookup functions of src/case.c, recognised by their tables"""
    top = os.path.join(work.red, "tu_casetab_%d.c" % os.getpid())
    open(top, "w").write('#include "src/case.c"\n')
    ast = annotate.parse(annotate.preprocess(top, incdirs=[work.red]))
    T = annotate.Types(ast)
    out = {}
    tabs = {"case_major", "case_minor"}
    maps = {"%s_%s" % (k, m) for k in KINDS for m in ("major", "minor")}
    for e in ast.ext:
        if not isinstance(e, c_ast.FuncDef):
            continue
        ids = {n.name for n in T.walk(e.body) if isinstance(n, c_ast.ID)}
        params = [p for p in (e.decl.type.args.params if e.decl.type.args else []) if isinstance(p, c_ast.Decl)]
        ptrs = [p.name for p in params if T.resolve(p.type)[0] == "ptr"]
        nested = [n for n in T.walk(e.body) if isinstance(n, c_ast.ArrayRef) and any(isinstance(s, c_ast.ArrayRef) for s in T.walk(n.subscript))]
        loops = any(type(n).__name__ in ("For", "While", "DoWhile") for n in T.walk(e.body))
        if ids & tabs:
            if loops or len(params) != 1:
                raise ExtractError("table lookup %s has an unexpected shape" % e.decl.name)
            out[e.decl.name] = "{ return VF_prop(%s); }" % params[0].name
        elif nested:
            if loops or len(params) != 3 or len(ptrs) != 2:
                raise ExtractError("mapping lookup %s has an unexpected shape" % e.decl.name)
            major = [p.name for p in params if p.name in ptrs and T.resolve(T.resolve(p.type)[1])[1] == (16, False)]
            minor = [p.name for p in params if p.name in ptrs and T.resolve(T.resolve(p.type)[1])[1] == (32, True)]
            cp = [p.name for p in params if p.name not in ptrs]
            if len(major) != 1 or len(minor) != 1:
                raise ExtractError("mapping lookup %s has an unexpected shape" % e.decl.name)
            out[e.decl.name] = "{ return VF_offset(%s, %s, %s); }" % (cp[0], major[0], minor[0])
    if len(out) < 2:
        raise ExtractError("no lookup functions found in src/case.c")
    return out


def specials(work):
    t = open(work.dir + "/gen/case.h").read()
    o = []
    for k in KINDS:
        m = re.search(r"static const struct special_case %s_special\[(\d*)\] = (\{.*?\n\});" % k, t, re.S)
        if m is None:
            m = re.search(r"%s_special\[(\d*)\] = (\{.*?\n\});" % k, t, re.S)
        if m is None:
            raise ExtractError("no list of special %s mappings" % k)
        o.append("const struct special_case %s_special[] = %s;\n" % (k, m.group(2)))
        o.append("#define VF_N%s (sizeof(%s_special) / sizeof(*%s_special))\n" % (k.upper(), k, k))
    p = work.dir + "/case_specials.h"
    open(p + ".%d" % os.getpid(), "w").write("".join(o))
    os.replace(p + ".%d" % os.getpid(), p)
    return p


def case_ghost(is_, title, nostd, part=None):
    g = dict(
        offs=["G.o"], bools=["G.lvl"] + ([] if nostd or is_ else ["G.lvl && VF_CA(G.o)"]), ints=[], nvals=0, keyvals=[],
        lookahead=[] if nostd or is_ else ["VF_CA"],
        reader_preds=["VF_rdr_nolimit"],
        loop_preds=["G.k == 0", "G.o == G.wend"],
        ghost_preds=["VF_ghost_eqo(&$G)", "G.wend == $G.wend"],
        writer_preds=["$L->off == G.out", "$L->first_unwritable_offset == G.fu"],
        writer_eqs=[("$L->%s == $E->%s" % (f, f), "$L." + f) for f in ("type", "dest", "destlen")])
    if is_:
        g["pure_cond"] = True
    if title:
        g["reader_preds"] += ["VF_lim_wend", "VF_abs($L) <= VF_lim($L)", "VF_lim($L) == VF_lim($E)",
                              "VF_abs($L) != VF_lim($L) || (G.mode == 1 && G.lvl)",
                              "VF_abs($L) == VF_lim($L) || (VF_abs($L) == VF_abs($E) && VF_ghost_eqo(&$G))",
                              "VF_abs($L) != VF_lim($L) || G.mode == 1",
                              "$G.mode == 1 || VF_abs($L) == VF_lim($L) || (VF_abs($L) == VF_abs($E) && VF_ghost_eqo(&$G))",
                              "VF_abs($L) != VF_abs($E) || VF_ghost_eqo(&$G)", "VF_abs($L) == VF_abs($E) || G.mode == 1",
                              "$G.mode == 1 || VF_abs($L) != VF_lim($L) || (G.mode == 1 && G.lvl)"]
        g["loop_preds"] += ["G.mode == 1 || !G.lvl", "!G.lvl", "G.o < G.wend"]
        g["loop_preds"] += ["G.mode == 0", "G.mode == 1", "G.lvl"]
    if part in ("lead", "rest"):
        g["reader_preds"] = ["VF_rdr_nolimit", "VF_abs($L) <= VF_lim($L)", "VF_lim($L) == VF_lim($E)"]
        g["loop_preds"] = ["G.k == 0", "G.o == G.wend", "G.mode == 0", "G.mode == 1", "G.lvl", "!G.lvl", "G.o < G.wend"]
        if part == "lead":
            g["reader_preds"] += ["VF_abs($L) != VF_lim($L) || (G.mode == 1 && G.lvl)", "VF_abs($L) == VF_lim($L) || (VF_abs($L) == VF_abs($E) && VF_ghost_eqo(&$G))"]
        else:
            g["reader_preds"] += ["VF_lim_wend"]
    return g


def converter(work):
    """the function that converts up to the limit of the reader: its name and the places of its parameters"""
    top = os.path.join(work.red, "tu_caseconv_%d.c" % os.getpid())
    open(top, "w").write('#include "src/case.c"\n')
    ast = annotate.parse(annotate.preprocess(top, incdirs=[work.red]))
    T = annotate.Types(ast)
    for e in ast.ext:
        if not isinstance(e, c_ast.FuncDef) or not e.decl.type.args or T.resolve(e.decl.type.type) != ("int", (64, False)):
            continue
        role = {}
        for p in e.decl.type.args.params:
            if not isinstance(p, c_ast.Decl):
                break
            k, i = T.resolve(p.type)
            if k == "ptr":
                tn = T.typename(i) or ""
                r = {"HERODOTUS_READER": "r", "HERODOTUS_WRITER": "w", "struct special_case": "sc"}.get(tn)
                r = r or {(16, False): "major", (32, True): "minor"}.get(T.resolve(i)[1] if T.resolve(i)[0] == "int" else None)
            else:
                r = "level" if (k, i) == ("int", (8, False)) else None
            if r is None or r in role:
                break
            role[r] = p.name
        else:
            if len(role) == 6:
                return e.decl.name, role
    return None


PARTS = {"lead": 1, "rest": 2, "words": 3}


def case_program(work, kind, utf8, is_=False, nostd=False, part=None):
    title = kind == "title"
    c = contracts(work)
    for f in ("herodotus_read_codepoint", "herodotus_write_codepoint", "herodotus_writer_nul_terminate", "herodotus_reader_next_codepoint_break"):
        c[f] = None
    tag = "%s%s%d%s" % ("is" if is_ else "to", kind, utf8, "u" if nostd else "")
    sp = specials(work)
    fn = "grapheme_%s_%scase%s" % ("is" if is_ else "to", kind, "_utf8" if utf8 else "")
    p = engine.Program(work, ["case.c", "util.c"], H + "/case_pre.h", H + "/case_post.h", case_ghost(is_, title, nostd, part), c,
                       ["herodotus_read_codepoint"], tag,
                       defs=["VF_UTF8=%d" % utf8, "KIND=" + KINDS[kind], "VF_TITLE=%d" % title, "VF_IS=%d" % is_, "FUNC=" + fn,
                             "VF_CHAR=%s" % ("char" if utf8 else "uint_least32_t")] + (["VF_NOSTD=1"] if nostd else []))
    p.specials = sp
    p.defs.append('VF_SPECIALS_H="%s"' % sp)
    if is_:
        p.main_sel = (fn, "r")
    p.entry_fn = fn
    if part:
        name, role = converter(work)
        order = ["r", "w", "level", "major", "minor", "sc"]
        p.defs.append("VF_PART=%d" % PARTS[part])
        p.name += part
        if part == "words":
            c[name] = "{ return VF_to_case(%s); }" % ", ".join(role[x] for x in order)
        else:
            p.defs.append("VF_CALL(r,w,level,major,minor,sc)=%s(%s)" % (name, ",".join(role)))
            p.entry_fn = name
    return p
