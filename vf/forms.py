"""Frame condition of the text form: the algorithms touch a text only through
the reader's functions, whose contracts speak about the sequence of codepoints
and not about its form.  Decided on the syntax tree of the current source."""
import os, re
from pycparser import c_ast, c_generator
import annotate
from annotate import ExtractError

READER_FNS = {"herodotus_reader_init", "herodotus_reader_copy", "herodotus_read_codepoint", "herodotus_reader_number_read",
              "herodotus_reader_push_advance_limit", "herodotus_reader_pop_limit"}
FIELDS = {"type", "src", "srclen", "off", "terminated_by_null", "soft_limit"}


def forms(work, src, func):
    """-> (functions in the frame, list of conditions that do not hold)"""
    top = os.path.join(work.red, "tu_forms_%s" % src)
    open(top, "w").write('#include "src/%s"\n#include "src/util.c"\n' % src)
    ast = annotate.parse(annotate.preprocess(top, incdirs=[work.red]))
    T = annotate.Types(ast)
    defs = {e.decl.name: e for e in ast.ext if isinstance(e, c_ast.FuncDef)}
    funcs = {e.name for e in ast.ext if isinstance(e, c_ast.Decl) and isinstance(e.type, c_ast.FuncDecl)} | set(defs)
    bad = []
    for f in (func, func + "_utf8"):
        if f not in defs:
            raise ExtractError("%s is not defined in src/%s" % (f, src))
    gen = c_generator.CGenerator()
    b = [re.sub(r"HERODOTUS_TYPE_\w+", "TYPE", gen.visit(defs[f].body)) for f in (func, func + "_utf8")]
    if b[0] != b[1]:
        bad.append("%s and its UTF-8 form differ in more than the type of the text" % func)
    kinds = [set(re.findall(r"HERODOTUS_TYPE_\w+", gen.visit(defs[f].body))) for f in (func, func + "_utf8")]
    if kinds != [{"HERODOTUS_TYPE_CODEPOINT"}, {"HERODOTUS_TYPE_UTF8"}]:
        bad.append("%s: the types of the two forms are not what they should be" % func)
    seen, todo = set(), [func, func + "_utf8"]
    while todo:
        f = todo.pop()
        if f in seen or f in READER_FNS:
            continue
        seen.add(f)
        if f not in defs:
            bad.append("%s is called and has no contract" % f)
            continue
        for n in T.walk(defs[f].body):
            if isinstance(n, c_ast.ID) and n.name in funcs:
                todo.append(n.name)
    # functions that return an offset
    num = {"herodotus_reader_number_read"}
    entry = {func, func + "_utf8"}
    parent_ok = set()

    def returns(f):
        for n in T.walk(defs[f].body):
            if isinstance(n, c_ast.Return) and isinstance(n.expr, c_ast.FuncCall) and isinstance(n.expr.name, c_ast.ID):
                yield n.expr
    ch = True
    while ch:
        ch = False
        for f in seen & set(defs):
            if f not in num and any(c.name.name in num for c in returns(f)):
                num.add(f)
                ch = True
    for f in sorted(seen & set(defs)):
        ok = {id(c.name) for c in returns(f)}
        for n in T.walk(defs[f].body):
            if isinstance(n, c_ast.StructRef) and n.field.name in FIELDS:
                bad.append("%s: looks at the field %s" % (f, n.field.name))
            if isinstance(n, c_ast.ID) and n.name in num and id(n) not in ok:
                bad.append("%s: uses an offset (%s) for something else than its result" % (f, n.name))
            if isinstance(n, c_ast.ID) and n.name.startswith("HERODOTUS_TYPE_") and f not in entry:
                bad.append("%s: refers to the type of the text" % f)
            if isinstance(n, c_ast.Cast) and f not in entry:
                k, i = T.resolve(n.to_type.type)
                if k == "ptr" and T.resolve(i)[0] not in ("struct", "other"):
                    bad.append("%s: pointer cast" % f)
    return sorted(seen & set(defs)), bad
