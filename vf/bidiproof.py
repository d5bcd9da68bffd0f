"""Bidirectional algorithm."""
import os
from pycparser import c_ast
import annotate, engine
from annotate import ExtractError
from work import VERIF

H = os.path.join(VERIF, "harness")
SAFE = dict(
    heap=True, array_ptrs=("buf", "output"), arrays=True,
    pairs=["$A <= $B", "$A < $B", "$A == SIZE_MAX || $A < $B"],
    ptr_preds=["$L == VF_buf"],
    size_preds=["$L <= VF_N", "$L <= VF_N + 1", "$L < VF_N", "$L == SIZE_MAX || $L < VF_N", "$L == SIZE_MAX", "$L >= $E"],
    size_variants=["VF_N - $L", "VF_N + 2 - $L", "($L == SIZE_MAX ? 0 : VF_N - $L)"],
    snaps=["VF_WJ", "VF_plain(VF_WJ)"],
    nvals=0)


def params(ast, fn):
    for e in ast.ext:
        if isinstance(e, c_ast.FuncDef) and e.decl.name == fn:
            return [p.name for p in e.decl.type.args.params]
    raise ExtractError("no function %s" % fn)


def each_header(work):
    """facts about the elements of an array that are in use"""
    o = []
    for n in (63, 127):
        o.append("#define VF_EACH_%d(a, f, n) (%s)\n" % (n, " && ".join("((a)[%d].f < VF_N || %d >= (n))" % (k, k) for k in range(n))))
        o.append("#define VF_RISING_%d(a, f, p) (%s)\n" % (n, " && ".join("(((a)[%d].f >= %d && (a)[%d].f <= %d) || (size_t)__CPROVER_POINTER_OFFSET(p) < %d * sizeof(*(a)))" % (k, k, k, n - 2, k) for k in range(n))))
    n = 127
    o.append("#define VF_SAME_%d(a, fl, fo, fi) (%s)\n" % (n, " && ".join("(%d > G.n || ((a)[%d].fl == G.lv[%d] && (a)[%d].fo == G.ov[%d] && (a)[%d].fi == G.is[%d]))" % ((k,) * 7) for k in range(n))))
    o.append("#define VF_ISO_%d(p) (%s)\n" % (n, " && ".join("((size_t)__CPROVER_POINTER_OFFSET(p) != %d * sizeof(*(p)) || G.iso[%d] == G.iso[G.n])" % (k, k) for k in range(n))))
    o.append("#define VF_STACK_%d (G.lv[0] == VF_PL && %s)\n" % (n, " && ".join("(%d > G.n || (G.lv[%d] >= %d && G.lv[%d] <= 125 && G.iso[%d] == (G.is[%d] ? %d : G.iso[%d])))" % (k, k, k, k, k, k, k, k - 1) for k in range(1, n))))
    p = work.dir + "/each.h"
    open(p + ".%d" % os.getpid(), "w").write("".join(o))
    os.replace(p + ".%d" % os.getpid(), p)


IRC = {"ir_init": "{ VF_ir_init(%s); }", "ir_advance": "{ return VF_ir_advance(%s); }", "ir_get_current_bracket_prop": "{ return VF_ir_bracket(%s); }"}
SAFE_TASKS = {
    # name: (define, function, callees under contract)
    "ir-init": ("T_IR_INIT", "ir_init", {}),
    "ir-advance": ("T_IR_ADVANCE", "ir_advance", {}),
    "last-strong": ("T_LAST_STRONG", "ir_get_last_strong_prop", IRC),
    "last-number": ("T_LAST_NUMBER", "ir_get_last_strong_or_number_prop", IRC),
    "pair": ("T_PAIR", "preprocess_bracket_pair", IRC),
    "pairs": ("T_PAIRS", "preprocess_bracket_pairs", IRC),
    "seq": ("T_SEQ", "preprocess_isolating_run_sequence", IRC),
    "isolated": ("T_ISOLATED", "get_isolated_paragraph_level", {}),
    "para": ("T_PARA", "preprocess_paragraph", {
        "preprocess_isolating_run_sequence": "{ return VF_any_seq(%s); }", "get_isolated_paragraph_level": "{ return VF_any_isolated(%s); }"}),
    "level": ("T_LEVEL", "get_paragraph_level", {}),
    "preprocess": ("T_PREPROCESS", "preprocess", {
        "get_paragraph_level": "{ return VF_any_level(%s); }", "preprocess_paragraph": "{ VF_any_paragraph(%s); }"}),
    "line": ("T_LINE", "get_line_embedding_levels", {}),
    "reorder": ("T_REORDER", "grapheme_bidirectional_reorder_line", {"get_mirror_offset": "{ return VF_any_mirror(%s); }"}),
}
ENTRY = {"preprocess": "grapheme_bidirectional_preprocess_paragraph", "line": "grapheme_bidirectional_get_line_embedding_levels"}
ALSO = {"reorder": ("get_line_embedding_levels",)}
TEXT = ("level", "preprocess")


def lookups(ast, T):
    """the lookups in the tables, told apart by what they do with the entry"""
    out = {}
    for f, (hit, np, e) in annotate.table_functions(ast, T, ["bidi_minor", "bidi_major"]).items():
        if np != 1 or any(type(n).__name__ in ("For", "While", "DoWhile") for n in T.walk(e.body)):
            continue
        consts = {T.const(n) for n in T.walk(e.body) if isinstance(n, c_ast.Constant)}
        shift = [n for n in T.walk(e.body) if isinstance(n, c_ast.BinaryOp) and n.op == ">>" and isinstance(n.right, c_ast.Constant) and T.const(n.right) == 5]
        if shift:
            out[f] = "{ return VF_bracket_off(%s); }"
        elif 0x1F in consts:
            out[f] = "{ return VF_prop(%s); }"
    return out


def safe_program(work, name):
    define, fn, callees = SAFE_TASKS[name]
    each_header(work)
    sources = ["bidirectional.c", "util.c"] if name in TEXT else ["bidirectional.c"]
    top = os.path.join(work.red, "tu_bd_%d.c" % os.getpid())
    open(top, "w").write('#include "src/bidirectional.c"\n')
    ast = annotate.parse(annotate.preprocess(top, incdirs=[work.red]))
    T = annotate.Types(ast)
    c = dict(callees)
    c.update(MORE.get(name, {}))
    c.update(lookups(ast, T))
    c = {k: v % ", ".join(params(ast, k)) for k, v in c.items()}
    ghost = dict(SAFE)
    defs = [define]
    if name in TEXT:
        defs += ["T_TEXT", "VF_UTF8=0"]
        c["herodotus_read_codepoint"] = None
        ghost["reader_preds"] = ["VF_rdr_nolimit"]
    if name == "preprocess":
        ghost["snaps"] = []
        ghost["all_sizes"] = ["VF_J >= $L || VF_J >= VF_N || VF_word_ok(VF_buf[VF_J])"]
        ghost["reader_offs"] = True
        ghost["pairs"] = SAFE["pairs"] + ["$A == $B"]
    if name in ("line", "reorder"):
        ghost["snaps"] = []
        ghost["byte_preds"] = ["$L >= 0", "$L >= 1"]
        ghost["byte_variants"] = True
    cut = (fn,) + ALSO.get(name, ())
    p = engine.Program(work, sources, H + "/bidi_pre.h", H + "/bidi_post.h", ghost, c, [], "bidi_" + name,
                       defs=defs, cut_extra=lambda f, n, T: f in cut)
    p.entry_fn = ENTRY.get(name, fn)
    p.after = ("isolate_runner", H + "/bidi_ir.h")
    return p


MORE = {
    "pair": {"ir_get_last_strong_or_number_prop": "{ return VF_any_prop(%s); }"},
    "pairs": {"preprocess_bracket_pair": "{ VF_any_pair(%s); }"},
    "seq": {"ir_get_last_strong_prop": "{ return VF_any_prop(%s); }", "preprocess_bracket_pairs": "{ VF_any_pairs(%s); }"},
}


# ---------------------------------------------------------------- embedding levels
LEVELS = {
    # name: (define, function, callees under contract, ghost description)
    "level": ("L_LEVEL", "get_paragraph_level", {}, dict(
        offs=["G.off"], size_preds=["$L == G.depth"], ghost_preds=["!G.done"], reader_preds=["VF_rdr_nolimit"], heap=False, nvals=0)),
    "isolated": ("L_ISOLATED", "get_isolated_paragraph_level", {}, dict(
        pairs=["VF_I($A, $B) == VF_I(0, 0)", "$A <= $B"], size_variants=["VF_statelen - $L"], unfold=["VF_unfold($A, $B)"], alloffs=True, heap=False, nvals=0, ptr_preds=["$L == VF_states"])),
    "preprocess": ("L_PREPROCESS", "preprocess", {"get_paragraph_level": "{ return VF_level(%s); }", "preprocess_paragraph": "{ VF_paragraph(%s); }"}, dict(
        heap=True, array_ptrs=("buf",), offs=["VF_PE"], size_preds=["$L <= VF_PE", "$L <= VF_N", "$L < VF_PE", "$L == (VF_PE < VF_N ? VF_PE : VF_N)", "$L <= (VF_PE < VF_N ? VF_PE : VF_N)"],
        reader_preds=["VF_rdr_nolimit", "VF_before"], reader_offs=True, size_variants=["VF_PE - $L"], pairs=["$A <= $B", "$A == $B", "$B == 0 || $A < $B"], nvals=0, maxval=0, ptr_preds=["$L == VF_buf"],
        unfold=["VF_on_peek($L, VF_cp($L))"],
        forall=["VF_J >= $L || VF_J >= VF_N || VF_w_text(VF_buf[VF_J], VF_J)", "VF_J >= VF_PE || VF_J >= VF_N || VF_w_text(VF_buf[VF_J], VF_J)"])),
    "para": ("L_PARA", "preprocess_paragraph", {
        "preprocess_isolating_run_sequence": "{ return VF_sequence(%s); }", "get_isolated_paragraph_level": "{ return VF_isolated(%s); }"}, dict(
        heap=True, array_ptrs=("buf",), arrays=True, stack=True, ghost_only=True, sync=True, live=True, pairs_offs=True, nvals=0, maxval=0, ptr_preds=["$L == VF_buf"],
        size_preds=["$L == G.off", "$L <= VF_PLEN", "$L < VF_PLEN", "$L == G.ovi", "$L == G.ove", "$L == G.valid", "$L == SIZE_MAX || $L < VF_PLEN"],
        pairs=["$A <= $B", "$A < $B", "$A == SIZE_MAX || $A < $B"],
        ghost_preds=["G.off == VF_PLEN"],
        size_variants=["VF_PLEN - $L"], byte_variants=True, unfold=["VF_Tunf($L)"],
        forall=["VF_J >= $L || VF_at(X, VF_J)", "VF_J < $L || VF_at(start, VF_J)",
                "VF_at(keep, VF_J)", "VF_at(seq, VF_J)", "VF_at(resolved, VF_J)", "VF_at(implicit, VF_J)", "VF_at(final, VF_J)",
                "VF_J >= $L || VF_at(resolved, VF_J)", "VF_J < $L || VF_at(resolved, VF_J)",
                "VF_J >= $L || VF_at(implicit, VF_J)", "VF_J < $L || VF_at(implicit, VF_J)", "VF_J <= $L || VF_at(implicit, VF_J)",
                "VF_J >= $L || VF_at(final, VF_J)", "VF_J != $L || VF_at(final, VF_J)",
                "VF_J >= $A || VF_J >= $B || VF_at(final, VF_J)", "VF_J < $A || VF_J >= $B || VF_at(implicit, VF_J)",
                "VF_J < $A || VF_J >= $B || (VF_pend(VF_J) && VF_T(VF_J) == VF_T($B))",
                "VF_J < VF_PLEN || VF_J >= VF_N || VF_buf[VF_J] == __CPROVER_uninterpreted_w0(VF_J)"])),
}


def level_program(work, name):
    define, fn, callees, ghost = LEVELS[name]
    each_header(work)
    text = name in TEXT
    sources = ["bidirectional.c", "util.c"] if text else ["bidirectional.c"]
    top = os.path.join(work.red, "tu_bl_%d.c" % os.getpid())
    open(top, "w").write('#include "src/bidirectional.c"\n')
    ast = annotate.parse(annotate.preprocess(top, incdirs=[work.red]))
    T = annotate.Types(ast)
    c = dict(callees)
    c.update(lookups(ast, T))
    c = {k: v % ", ".join(params(ast, k)) for k, v in c.items()}
    defs = [define]
    if text:
        defs += ["VF_UTF8=0"]
        c["herodotus_read_codepoint"] = None
    p = engine.Program(work, sources, H + "/lvl_pre.h", H + "/lvl_post.h", dict(ghost), c, [], "lvl_" + name,
                       defs=defs, cut_extra=lambda f, n, T: f == fn)
    p.entry_fn = ENTRY.get(name, fn)
    p.entered_once = True
    p.split = name == "para"
    p.after = ("isolate_runner", H + "/lvl_ir.h")
    return p
