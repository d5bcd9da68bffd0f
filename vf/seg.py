"""Segmentation proofs."""
import os
import annotate, engine, native
from annotate import ExtractError
from work import VERIF

H = os.path.join(VERIF, "harness")


def table_contracts(work, sources, gens, body):
    """contracts for the functions that look properties up in the tables"""
    top = os.path.join(work.red, "tu_tab_%s_%d.c" % ("_".join(gens), os.getpid()))
    with open(top, "w") as f:
        for s in sources:
            f.write('#include "src/%s"\n' % s)
    ast = annotate.parse(annotate.preprocess(top, incdirs=[work.red]))
    T = annotate.Types(ast)
    tabs = [t for g in gens for t in work.tables[g]]
    out = {}
    for fn, (hit, np, ext) in annotate.table_functions(ast, T, tabs).items():
        b = body(fn, hit, np, ext, T)
        if b is None:
            raise ExtractError("table lookup %s has an unexpected shape" % fn)
        out[fn] = b
    if not out:
        raise ExtractError("no table lookup function found")
    return out


def simple_lookup(fn, hit, np, ext, T):
    if np != 1:
        return None
    ret = ext.decl.type.type
    kind, info = T.resolve(ret)
    pk, pinfo = T.resolve(ext.decl.type.args.params[0].type)
    if kind not in ("enum", "int") or pk != "int" or pinfo[0] != 32:
        return None
    for n in T.walk(ext.body):
        if type(n).__name__ in ("For", "While", "DoWhile"):
            return None
    return "{ return VF_prop(%s); }" % ext.decl.type.args.params[0].name


SEG = {
    "character": dict(
        gens=["character"], src="character.c", num="NUM_CHAR_BREAK_PROPS", func="grapheme_next_character_break", states=True,
        main=("grapheme_next_character_break%s", "r"),
        ghost=dict(guard=True, offs=["G.cur"], state16=["VF_R"], cps=["G.last"], bools=[], ints=["G.h.prev"], loop_preds=["VF_no_boundary_here()"], nvals=0)),
    "line": dict(
        gens=["line"], src="line.c", num="NUM_LINE_BREAK_PROPS", func="grapheme_next_line_break",
        main=("grapheme_next_line_break%s", "r"),
        ghost=dict(
            guard=True, lookahead=["VF_nua"], offs=["G.cur"],
            bools=["G.hp.hl", "G.hp.ri", "G.hp.num", "G.hp.numcl", "G.h.hl", "G.h.ri", "G.h.num", "G.h.numcl"],
            ints=["G.h.prev", "G.h.res", "G.h.base", "G.h.lastns", "G.hp.prev", "G.hp.res", "G.hp.base", "G.hp.lastns"],
            cps=["G.last"], nvals=56)),
    "word": dict(
        gens=["word"], src="word.c", num="NUM_WORD_BREAK_PROPS", func="grapheme_next_word_break", proper=True,
        main=("next_word_break", "p.mid_reader"),
        ghost=dict(
            offs=["G.cur"], loop_preds=["VF_no_boundary_here()"], ignore=["p.raw_reader", "p.skip_reader"],
            bools=["G.h.ri"],
            ints=["G.h.prev", "G.h.p1", "G.h.p2", "VF_P(G.cur)", "VF_P(VF_RN(G.cur))", "VF_NS(G.cur)", "VF_NS(VF_NP(G.cur))"],
            cps=["G.last"], nvals=23)),
    "sentence": dict(
        gens=["sentence"], src="sentence.c", num="NUM_SENTENCE_BREAK_PROPS", func="grapheme_next_sentence_break", proper=True,
        main=("next_sentence_break", "p.mid_reader"),
        ghost=dict(
            lookahead=["VF_LOW"],
            offs=["G.cur"], loop_preds=["VF_no_boundary_here()"], ignore=["p.raw_reader", "p.skip_reader"],
            bools=[], int_escapes=["sb_is_parasep(G.h.prev)"],
            ints=["G.h.prev", "G.h.p1", "G.h.p2", "G.h.a", "G.h.s",
                  "VF_P(G.cur)", "VF_P(VF_RN(G.cur))", "VF_NS(G.cur)", "VF_NS(VF_NP(G.cur))"],
            cps=["G.last"], nvals=17)),
}
PROPER_GHOST = dict(
    lookahead=["VF_NS", "VF_NP"],
    offs=["G.cur", "VF_NP(G.cur)", "VF_NP(VF_NP(G.cur))"],
    ints=["VF_NS(G.cur)", "VF_NS(VF_NP(G.cur))"],
    case_offs=["G.cur", "VF_NP(G.cur)", "VF_NP(VF_NP(G.cur))", "VF_RN(G.cur)", "VF_RN(VF_RN(G.cur))"],
    case_ints=["VF_NS(G.cur)", "VF_NS(VF_NP(G.cur))", "VF_P(G.cur)", "VF_P(VF_RN(G.cur))", "NPROPS"],
    case_look=["G.cur", "VF_NP(G.cur)"],
    nvals=0)


def proper_program(work, utf8):
    ghost = dict(PROPER_GHOST)
    ghost["reader_preds"] = ["VF_rdr_nolimit"]

    def bounded(fn, node, T):
        return False
    p = engine.Program(work, ["util.c"], H + "/proper_pre.h", H + "/proper_post.h", ghost,
                       {"herodotus_read_codepoint": None}, ["herodotus_read_codepoint"], "proper%d" % utf8,
                       defs=["VF_UTF8=%d" % utf8])
    return p


def bounds_program(work, which, utf8):
    """the same function, but nothing about where the boundaries are"""
    ghost = dict(guard=False, offs=["G.cur"], nvals=0, ignore=SEG[which]["ghost"].get("ignore", []),
                 state16=SEG[which]["ghost"].get("state16", []))
    p = seg_program(work, which, utf8, ghost=ghost, tag="bounds")
    p.defs.append("VF_NOSTD=1")
    return p


def seg_program(work, which, utf8, main=None, ghost=None, tag=""):
    S = SEG[which]
    contracts = table_contracts(work, [S["src"]], S["gens"], simple_lookup)
    contracts["herodotus_read_codepoint"] = None
    if S.get("proper"):
        contracts["proper_init"] = contracts["proper_advance"] = None
    ghost = dict(ghost or S["ghost"])
    ghost["reader_preds"] = ["VF_rdr_nolimit"]
    u = "_utf8" if utf8 else ""
    p = engine.Program(work, [S["src"], "util.c"], H + "/seg_pre.h", H + "/seg_post.h", ghost, contracts,
                       ["herodotus_read_codepoint", "proper_advance"], "%s%d%s" % (which, utf8, tag),
                       defs=["VF_UTF8=%d" % utf8, 'SPEC="spec_%s.h"' % which, "NPROPS=%s" % S["num"],
                             "FUNC=%s" % S["func"], "FUNC_UTF8=%s_utf8" % S["func"]])
    if S.get("proper"):
        p.defs.append("VF_PROPER=1")
    if S.get("states"):
        d = work.dir + "/states_%s%d%s" % (which, utf8, tag)
        native.states(work, d)
        p.defs.append('VF_STATES="%s/states.h"' % d)
    fn, path = S["main"]
    p.main_sel = main or (fn % u if "%s" in fn else fn, path)
    p.entry_fn = S["func"] + u
    return p


def state_program(work):
    S = SEG["character"]
    contracts = table_contracts(work, [S["src"]], S["gens"], simple_lookup)
    d = work.dir + "/states_state"
    native.states(work, d)
    p = engine.Program(work, [S["src"]], H + "/seg_pre.h", H + "/state_post.h", dict(S["ghost"]), contracts,
                       ["herodotus_read_codepoint"], "state",
                       defs=["VF_UTF8=0", 'SPEC="spec_character.h"', "NPROPS=%s" % S["num"], 'VF_STATES="%s/states.h"' % d])
    p.entry_fn = "grapheme_is_character_break"
    return p
