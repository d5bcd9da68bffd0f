"""The proof tasks.  Every task proves contracts of functions of /repo's current
source; it runs in a process of its own."""
import json, os, re, shutil, subprocess, sys, time, traceback
import annotate, bidiproof, caseproof, engine, forms, seg, tables, native
from annotate import ExtractError
from engine import SolverLimit
from work import VERIF, BuildError

HINTS = os.path.join(VERIF, "hints")
PLAIN = ["--slice-formula", "--sat-solver", "cadical", "--drop-unused-functions",
         "--no-standard-checks"] + engine.SAFETY + ["--unwinding-assertions"]
BACKEND = "CBMC 6.11 (symbolic execution to SAT, CaDiCaL)"
TASKS = {}


class Ctx:
    def __init__(self, work, deadline, tier, cold=False):
        self.work, self.deadline, self.tier, self.cold = work, deadline, tier, cold

    def log(self, *a):
        print(*a, file=sys.stderr, flush=True)


def task(name, functions, what, gens=(), bounded=None):
    def deco(f):
        TASKS[name] = dict(run=f, functions=functions, what=what, gens=list(gens), bounded=bounded)
        return f
    return deco


def blank(name):
    return dict(task=name, status="undecided", failed=[], obligations=0, discharged=0, solver_s=0.0, backend=BACKEND,
                loops={}, invariants=0, functions=TASKS[name]["functions"], what=TASKS[name]["what"],
                bounded=TASKS[name]["bounded"], cmd="", reach=[], notes=[])


def plain(name, ctx, runs, unwind=12, timeout=700):
    """runs: [(file, entry, flags)]; the functions are loop-free or their loops
    are bounded by constants: complete unwinding"""
    R = blank(name)
    R["status"] = "ok"
    for path, entry, flags in runs:
        tmo = max(5, min(timeout, ctx.deadline - time.time()))
        args = [path, "--function", entry, "-I", ctx.work.dir, "-I", ctx.work.dir + "/src", "-I", VERIF + "/harness",
                "-I", os.path.join(VERIF, "vf", "fakeinc"), "--unwind", str(unwind)] + PLAIN + list(flags)
        R["cmd"] = "cbmc " + " ".join(args)
        try:
            res, s = engine.run_cbmc(args, timeout=tmo, cwd=ctx.work.dir)
        except SolverLimit as e:
            R["status"] = "undecided"
            R["failed"].append("%s: %s" % (entry, e))
            continue
        R["solver_s"] += s
        cand, spec, reach = engine.classify(res)
        bad = [(d, r) for d, st, r in spec if st != "SUCCESS"]
        R["obligations"] += len(spec)
        R["discharged"] += len(spec) - len(bad)
        R["reach"] += ["%s: %s" % (entry, k) for k, v in reach.items() if v]
        for d, r in bad:
            R["failed"].append("%s [%s]" % (d, r["property"]))
        for k, v in reach.items():
            if not v and not any(st != "SUCCESS" for _, st, _ in spec):
                R["failed"].append("vacuity guard: %s: %s is not reachable" % (entry, k))
        if not spec or not reach:
            R["failed"].append("vacuity guard: %s: no obligation" % entry)
    if R["failed"] and R["status"] == "ok":
        R["status"] = "failed"
    return R


# ---------------------------------------------------------------- tables
def class_task(n):
    gen, src, pre, _ = tables.SPECS[n]

    @task("table-" + n, ["lookup of the %s class in src/%s" % (n, src)],
          "the lookup function over the real generated tables returns the UCD class of every 32-bit codepoint", [gen])
    def run(ctx, n=n):
        p = "%s/tab_%s.c" % (ctx.work.dir, n)
        fns = tables.class_program(ctx.work, n, p)
        R = plain("table-" + n, ctx, [(p, "harness_" + f, []) for f in fns] + [(p, "harness_sigma_" + f, []) for f in fns if n == "case"], unwind=5)
        R["functions"] = ["src/%s: %s" % (src, f) for f in fns]
        return R


for _n in tables.SPECS:
    class_task(_n)


def range_task(n):
    gen, src, pre, _ = tables.SPECS[n]

    @task("range-" + n, ["lookup of the %s class in src/%s" % (n, src)],
          "the lookup function over the real generated tables returns a class for every 32-bit value and reads within its tables", [gen])
    def run(ctx):
        p = "%s/range_%s.c" % (ctx.work.dir, n)
        fns = tables.class_program(ctx.work, n, p, native.SEG[n][4])
        R = plain("range-" + n, ctx, [(p, "harness_range_" + f, []) for f in fns], unwind=5)
        R["functions"] = ["src/%s: %s" % (src, f) for f in fns]
        return R


for _n in native.SEG:
    range_task(_n)


@task("table-map", ["src/case.c: get_case_offset", "upper/lower/title special case lists"],
      "get_case_offset() over the real tables is the full case mapping of the UCD for every 32-bit codepoint", ["case"])
def _map(ctx):
    p = ctx.work.dir + "/tab_map.c"
    tables.map_program(ctx.work, p)
    return plain("table-map", ctx, [(p, "harness_map_" + n, []) for n in ("upper", "lower", "title")], unwind=5)


@task("bidi-words", ["src/bidirectional.c: get_state, set_state, ir_get_current_bracket_prop, get_bidi_bracket_off, get_bidi_property"],
      "the values packed into a state are independent of each other and can be read again; the lookups stay within the lists", ["bidirectional"])
def _words(ctx):
    p = ctx.work.dir + "/words.c"
    tables.words_program(ctx.work, p)
    return plain("bidi-words", ctx, [(p, "harness_words", [])], unwind=5)


@task("table-bracket", ["src/bidirectional.c: get_bidi_bracket_off, get_mirror_offset"],
      "brackets, their pairing and the mirrored characters are those of the UCD for every 32-bit codepoint", ["bidirectional"])
def _bracket(ctx):
    p = ctx.work.dir + "/tab_bidi2.c"
    tables.bidi_program(ctx.work, p)
    return plain("table-bracket", ctx, [(p, "harness_bracket", []), (p, "harness_mirror", [])], unwind=5)


# ---------------------------------------------------------------- utf8, reader
@task("utf8-decode", ["src/utf8.c: grapheme_decode_utf8"], "decoder contract: every buffer, every length; bounds")
def _dec(ctx):
    return plain("utf8-decode", ctx, [(VERIF + "/harness/utf8.c", h, []) for h in ("harness_decode", "harness_decode_nul")])


@task("utf8-encode", ["src/utf8.c: grapheme_encode_utf8"], "encoder contract: every codepoint, buffer and length; bounds, frame")
def _enc(ctx):
    return plain("utf8-encode", ctx, [(VERIF + "/harness/utf8.c", "harness_encode", [])])


@task("utf8-roundtrip", ["src/utf8.c: grapheme_encode_utf8, grapheme_decode_utf8"], "round trips in both directions")
def _rt(ctx):
    return plain("utf8-roundtrip", ctx, [(VERIF + "/harness/utf8.c", "harness_roundtrip", [])])


for _h in ("cps", "utf8", "null"):
    @task("reader-" + _h, ["src/util.c: herodotus_read_codepoint"],
          "contract of herodotus_read_codepoint(): every buffer, position, limit and length")
    def _rd(ctx, h=_h):
        return plain("reader-" + h, ctx, [(VERIF + "/harness/reader.c", "harness_reader_" + h, [])])


for _u in (0, 1):
    @task("readerops-" + ("utf8" if _u else "cps"), ["src/util.c: herodotus_reader_init, herodotus_reader_copy, herodotus_reader_push_advance_limit, herodotus_reader_pop_limit, herodotus_reader_number_read"],
          "contracts of the other reader functions: every reader within any text")
    def _ro(ctx, u=_u):
        return plain("readerops-" + ("utf8" if u else "cps"), ctx, [(VERIF + "/harness/readerops.c", h, ["-DVF_UTF8=%d" % u]) for h in ("harness_init", "harness_copy", "harness_limits")])


for _h in ("cps", "utf8"):
    @task("cpbreak-" + _h, ["src/util.c: herodotus_reader_next_codepoint_break"],
          "contract of herodotus_reader_next_codepoint_break(): every buffer, position and limit")
    def _cb(ctx, h=_h):
        return plain("cpbreak-" + h, ctx, [(VERIF + "/harness/reader.c", "harness_cpbreak_" + h, [])])


for _h in ("to", "is"):
    @task("case-null-" + _h, ["src/case.c: grapheme_%s_*case, grapheme_%s_*case_utf8" % (_h, _h)], "a NULL text is an empty text", ["case"])
    def _cn(ctx, h=_h):
        return plain("case-null-" + h, ctx, [(VERIF + "/harness/casenull.c", "harness_" + h, [])], unwind=11)


for _h in ("cps", "utf8"):
    @task("writer-" + _h, ["src/util.c: herodotus_writer_init, herodotus_write_codepoint, herodotus_writer_nul_terminate, herodotus_writer_number_written"],
          "contract of the writer: every buffer (any size, none), position and codepoint; invariant: the buffer holds the result as far as whole codepoints and a terminator fit")
    def _wr(ctx, h=_h):
        return plain("writer-" + h, ctx, [(VERIF + "/harness/writer.c", "harness_%s_%s" % (f, h), []) for f in ("write", "nul", "nul0", "winit")])


# ---------------------------------------------------------------- loop proofs
def load_hints(name):
    try:
        return {tuple(x) for x in json.load(open("%s/%s.json" % (HINTS, name)))}
    except OSError:
        return None


def loop_task(name, ctx, build, entry, need_reach=("return",), flags=engine.SAFETY, unwind=12, invariant_of=None):
    """loop rule with the committed invariants first; on failure Houdini"""
    R = blank(name)
    hints = None if ctx.cold else load_hints(name)
    stages = ([("hints", 1)] if hints else []) + [("patterns", 1)] * bool(hints) + [("stage1", 1), ("stage2", 2)]
    best = None
    for label, stage in stages:
        if ctx.deadline - time.time() < 10:
            R["notes"].append("%s: no time left" % label)
            break
        try:
            prog = build()
            prog.stage = stage
            if label == "hints":
                r = engine.prove(prog, entry, flags, unwind, hints=hints, only_hints=True, need_reach=need_reach, deadline=ctx.deadline, log=ctx.log)
            elif label == "patterns":
                prog.patterns = engine.patterns(hints)
                r = engine.prove(prog, entry, flags, unwind, need_reach=need_reach, deadline=ctx.deadline, log=ctx.log)
            else:
                r = engine.prove(prog, entry, flags, unwind, need_reach=need_reach, deadline=ctx.deadline, log=ctx.log)
        except SolverLimit as e:
            R["notes"].append("%s: %s" % (label, str(e)[:300]))
            continue
        R["solver_s"] += r.solver_s
        R["notes"].append("%s: %s" % (label, "all obligations discharged" if r.ok else "%d obligations not discharged" % len(r.failed)))
        best = r
        ctx.log("[%s] %s ok=%s %s" % (name, label, r.ok, r.failed[:5]))
        if r.ok:
            break
    if best is not None:
        R["status"] = "ok" if best.ok else "failed"
        R["failed"] = best.failed
        R["obligations"], R["discharged"] = best.obligations, best.discharged
        R["loops"] = best.loops
        R["invariants"] = sum(l["invariants"] for l in best.loops.values())
        R["functions"] = best.functions
        R["cmd"] = best.cmd
        R["reach"] = [k for k, v in best.reach.items() if v]
        R["enabled"] = sorted(best.enabled)
    else:
        R["failed"] = ["no invariant could be decided in the time available"]
    return R


def seg_task(which, utf8):
    S = seg.SEG[which]
    name = "%s-%s" % (which, "utf8" if utf8 else "cps")

    @task(name, ["src/%s: %s%s" % (S["src"], S["func"], "_utf8" if utf8 else "")],
          "every text (unbounded), explicit or NUL-terminated: the result is the first boundary of the standard or the end", S["gens"])
    def run(ctx):
        R = loop_task(name, ctx, lambda: seg.seg_program(ctx.work, which, utf8), "harness",
                      need_reach=("return", "return at the end", "return at a boundary"))
        return R

    @task(name + "-null", ["src/%s: %s%s" % (S["src"], S["func"], "_utf8" if utf8 else "")], "a NULL text has length 0", S["gens"])
    def run_null(ctx):
        p = ctx.work.dir + "/null_%s.c" % name
        fn = S["func"] + ("_utf8" if utf8 else "")
        srcs = [S["src"], "util.c", "utf8.c"]
        open(p, "w").write("".join('#include "src/%s"\n#undef BETWEEN\n' % s for s in srcs) +
                           'void harness_null(void) { size_t n; __CPROVER_assert(%s(NULL, n) == 0, "a NULL text has no boundary, the result is 0"); __CPROVER_assert(0, "REACH return"); }\n' % fn)
        return plain(name + "-null", ctx, [(p, "harness_null", [])], unwind=11)


    bname = "bounds-%s-%s" % (which, "utf8" if utf8 else "cps")

    @task(bname, ["src/%s: %s%s" % (S["src"], S["func"], "_utf8" if utf8 else "")],
          "every text (unbounded), explicit or NUL-terminated, whatever the classes: termination, progress, result at most the length and at a codepoint boundary; only read within the text", S["gens"])
    def run_bounds(ctx):
        return loop_task(bname, ctx, lambda: seg.bounds_program(ctx.work, which, utf8), "harness",
                         need_reach=("return", "return at the end", "return at a boundary"))


for _w in ("character", "line", "word", "sentence"):
    for _u in (0, 1):
        seg_task(_w, _u)


def case_task(kind, utf8, is_, nostd):
    name = "%s-%s-%s" % ({(0, 0): "to", (1, 0): "is", (0, 1): "out"}[is_, nostd], kind, "utf8" if utf8 else "cps")
    fn = "grapheme_%s_%scase%s" % ("is" if is_ else "to", kind, "_utf8" if utf8 else "")
    what = {(0, 0): "every text (unbounded), every destination: the result is the mapping of every codepoint in order, complete and terminated; returned length",
            (1, 0): "every text (unbounded): true exactly if no codepoint is changed by the conversion, reported length is that before the first that is",
            (0, 1): "every text, whatever the mappings: termination; returned length is that of everything written, terminated at the end, only by the writer"}[is_, nostd]

    @task(name, ["src/case.c: " + fn], what, ["case"])
    def run(ctx):
        R = loop_task(name, ctx, lambda: caseproof.case_program(ctx.work, kind, utf8, bool(is_), bool(nostd)), "harness",
                      need_reach=("return", "return true", "return false") if is_ else ("return",))
        return R


for _k in ("upper", "lower", "title"):
    for _u in (0, 1):
        for _i, _s in ((0, 0), (1, 0), (0, 1)):
            case_task(_k, _u, _i, _s)


def title_task(part, utf8):
    name = "to-title-%s-%s" % (part, "utf8" if utf8 else "cps") if part != "words" else "to-title-%s" % ("utf8" if utf8 else "cps")
    fn = "grapheme_to_titlecase" + ("_utf8" if utf8 else "")

    @task(name, ["src/case.c: " + (fn if part == "words" else "to_case")],
          {"words": "every text (unbounded), every destination: the result is the title case of every codepoint in its word, in order, complete and terminated; returned length",
           "lead": "contract of the converter, first use in a word: the first cased codepoint is converted to title case",
           "rest": "contract of the converter, second use in a word: the rest of the word is converted to lower case, with Final_Sigma"}[part], ["case"])
    def run(ctx):
        conv = caseproof.converter(ctx.work)
        if conv is None and part != "words":
            R = blank(name)
            R["status"] = "ok"
            R["notes"].append("there is no such function: to-title proves the whole")
            return R
        return loop_task(name, ctx, lambda: caseproof.case_program(ctx.work, "title", utf8, part=part if conv else None), "harness")


for _p in caseproof.PARTS:
    for _u in (0, 1):
        title_task(_p, _u)


def forms_task(which):
    S = seg.SEG[which]

    @task("forms-" + which, ["src/%s: %s, %s_utf8" % (S["src"], S["func"], S["func"])],
          "frame: the algorithm depends on the text only through the reader functions, whose contracts do not mention the form", S["gens"])
    def run(ctx):
        R = blank("forms-" + which)
        fns, bad = forms.forms(ctx.work, S["src"], S["func"])
        R["backend"] = "syntax tree of the preprocessed source (pycparser)"
        R["functions"] = fns
        R["obligations"] = 4 * len(fns) + 2
        R["reach"] = fns
        R["discharged"] = R["obligations"] - len(bad)
        if not bad:
            R["status"] = "ok"
            return R
        # the text is looked at in another way: both forms against the same standard
        R["notes"] += bad[:5]
        R["failed"] = bad
        for u in (0, 1):
            r = TASKS["%s-%s" % (which, "utf8" if u else "cps")]["run"](ctx)
            R["solver_s"] += r["solver_s"]
            R["notes"] += r["notes"]
            if r["status"] != "ok":
                R["status"] = "failed"
                R["failed"] += r["failed"][:5]
                return R
        R["status"], R["failed"], R["discharged"] = "ok", [], R["obligations"]
        R["notes"].append("decided by the proofs of both forms against the standard instead")
        return R


for _w in ("character", "line", "word", "sentence"):
    forms_task(_w)


@task("character-state", ["src/character.c: grapheme_is_character_break"],
      "for every history: a state that stands for it gives the boundary of the standard and becomes a state for the longer history; base: reset state; no state", ["character"])
def _state(ctx):
    return loop_task("character-state", ctx, lambda: seg.state_program(ctx.work), "harness",
                     need_reach=("return", "a boundary", "no boundary", "emoji sequence", "odd number of regional indicators"))


def proper_task(which, utf8):
    name = "proper-%s-%s" % (which, "utf8" if utf8 else "cps")

    @task(name, ["src/util.c: proper_" + which, "src/util.c: herodotus_reader_copy"],
          "contract of proper_%s(): every text, position, class function and set of skipped classes" % which)
    def run(ctx):
        def build():
            p = seg.proper_program(ctx.work, utf8)
            p.entry_fn = "proper_" + which
            p.name += which
            return p
        return loop_task(name, ctx, build, "harness_proper_" + which, need_reach=("return", "return at the end"))


for _w in ("init", "advance"):
    for _u in (0, 1):
        proper_task(_w, _u)


# ---------------------------------------------------------------- bidirectional
def bidi_safe(n):
    define, fn, callees = bidiproof.SAFE_TASKS[n]

    @task("bidi-" + n, ["src/bidirectional.c: " + (fn or "get_state, set_state, bracket lookups")],
          "every buffer (any size, any contents): accesses within the arrays, termination, no overflow; frame", ["bidirectional"])
    def run(ctx):
        return loop_task("bidi-" + n, ctx, lambda: bidiproof.safe_program(ctx.work, n), "harness", unwind=5 if n == "para" else 130)


for _n in bidiproof.SAFE_TASKS:
    bidi_safe(_n)


def bidi_level(n):
    define, fn, callees, _ = bidiproof.LEVELS[n]

    @task("lvl-" + n, ["src/bidirectional.c: " + fn],
          {"level": "every text: the level is that of HL1, P1-P3", "isolated": "any states: the level is that of P2, P3 up to the matching PDI",
           "preprocess": "every text, every buffer: paragraph end, direction, and the state of every character when the rules begin",
           "para": "every paragraph: the level of every character is that of X1-X10, I1-I2, L1 (1-3), with the classes that the sequence contract gives"}[n], ["bidirectional"])
    def run(ctx):
        need = {"level": ("return", "return ltr", "return rtl"), "preprocess": ("return", "return without a buffer", "return with a small buffer")}.get(n, ("return",))
        return loop_task("lvl-" + n, ctx, lambda: bidiproof.level_program(ctx.work, n), "harness", flags=[], need_reach=need, unwind=5 if n == "para" else 12)


for _n in bidiproof.LEVELS:
    bidi_level(_n)


def main(argv):
    """tasks.py <name> <workdir> <out.json> <deadline> <tier> <cold>"""
    from work import Work
    name, wd, out, deadline, tier, cold = argv[:6]
    t = time.time()
    ctx = Ctx(Work(TASKS[name]["gens"], keep=wd), float(deadline), tier, cold == "1")
    try:
        R = TASKS[name]["run"](ctx)
    except (ExtractError, BuildError, SolverLimit) as e:
        R = blank(name)
        R["failed"] = ["%s: %s" % (type(e).__name__, e)]
    except Exception as e:
        R = blank(name)
        R["failed"] = ["internal error: " + traceback.format_exc()[-1500:]]
    R["wall_s"] = round(time.time() - t, 2)
    R["solver_s"] = round(R["solver_s"], 2)
    json.dump(R, open(out + ".tmp", "w"))
    os.replace(out + ".tmp", out)


if __name__ == "__main__":
    main(sys.argv[1:])
