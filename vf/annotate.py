"""Mechanical loop annotation of the real C code.

Reads preprocessed C (the text of /repo's source with this tree's fake
standard headers), and prints the same program in which every loop that is to
be decided by an invariant is replaced by the textbook loop rule:

    base:  assert INV
           havoc everything the loop may modify; assume INV
           if (cond) { body; step; assert INV (and progress); assume(0); }
    after the loop

INV is a conjunction of candidate facts which are generated from the types of
the variables that are visible at the loop (never from their names) and from
the ghost specification state of the harness; each candidate is a named
obligation, the ones that are not inductive are dropped by the driver
(Houdini), and the surviving conjunction is what the verifier proves.

Nothing is dropped from the executable text; the only bodies that are replaced
are the ones listed by the caller (callee contracts).
"""
import re, subprocess, os
from pycparser import c_parser, c_ast, c_generator

HERE = os.path.dirname(os.path.abspath(__file__))


class ExtractError(Exception):
    pass


def preprocess(path, incdirs=(), defs=()):
    cmd = ["gcc", "-E", "-P", "-std=c99", "-nostdinc", "-D__builtin_expect(a,b)=(a)",
           "-D__attribute__(x)=", "-D__restrict=", "-D__inline=inline"]
    cmd += ["-D" + d for d in defs]
    for d in incdirs:
        cmd += ["-I", d]
    cmd += ["-I", os.path.join(HERE, "fakeinc"), path]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise ExtractError("preprocess %s: %s" % (path, p.stderr[-800:]))
    return p.stdout


INT_BITS = {"char": 8, "short": 16, "int": 32, "long": 64}


class Types:
    def __init__(self, ast):
        self.typedefs, self.structs, self.enums = {}, {}, {}
        self.enumconst = {}
        for ext in ast.ext:
            self.scan(ext)

    def scan(self, node):
        for sub in self.walk(node):
            if isinstance(sub, c_ast.Typedef):
                self.typedefs[sub.name] = sub.type
            elif isinstance(sub, (c_ast.Struct, c_ast.Union)) and sub.decls is not None and sub.name:
                self.structs[sub.name] = sub
            elif isinstance(sub, c_ast.Enum) and sub.values is not None:
                if sub.name:
                    self.enums[sub.name] = sub
                cur = 0
                for e in sub.values.enumerators:
                    if e.value is not None:
                        v = self.const(e.value)
                        cur = v if v is not None else cur
                    self.enumconst[e.name] = cur
                    cur += 1

    def walk(self, node):
        yield node
        for _, c in node.children():
            yield from self.walk(c)

    def const(self, e):
        if e is None:
            return None
        if isinstance(e, c_ast.Constant):
            try:
                return int(re.sub(r"[uUlL]+$", "", e.value), 0)
            except ValueError:
                return None
        if isinstance(e, c_ast.ID):
            return self.enumconst.get(e.name)
        if isinstance(e, c_ast.BinaryOp):
            a, b = self.const(e.left), self.const(e.right)
            if a is None or b is None:
                return None
            try:
                return {"+": a + b, "-": a - b, "*": a * b, "/": a // b if b else None,
                        "<<": a << b if b < 64 else None}.get(e.op)
            except Exception:
                return None
        return None

    def resolve(self, t):
        """-> (kind, info). kinds: int, bool, enum, ptr, struct, array, other"""
        seen = 0
        while True:
            seen += 1
            if seen > 50:
                return ("other", None)
            if isinstance(t, c_ast.TypeDecl):
                q = t.quals
                t2 = t.type
                if isinstance(t2, c_ast.IdentifierType):
                    names = t2.names
                    if len(names) == 1 and names[0] in self.typedefs:
                        t = self.typedefs[names[0]]
                        continue
                    if "_Bool" in names:
                        return ("bool", (1, False))
                    if "void" in names or "float" in names or "double" in names:
                        return ("other", None)
                    bits = 32
                    for n in names:
                        if n in ("char", "short", "long"):
                            bits = INT_BITS[n]
                    signed = "unsigned" not in names
                    return ("int", (bits, signed))
                if isinstance(t2, c_ast.Enum):
                    return ("enum", (32, False))
                if isinstance(t2, c_ast.Struct):
                    s = t2 if t2.decls is not None else self.structs.get(t2.name)
                    return ("struct", s) if s is not None else ("other", None)
                return ("other", None)
            if isinstance(t, c_ast.PtrDecl):
                return ("ptr", t.type)
            if isinstance(t, c_ast.ArrayDecl):
                return ("array", (t.type, self.const(t.dim)))
            return ("other", None)

    def is_const(self, t):
        if isinstance(t, (c_ast.TypeDecl, c_ast.PtrDecl)):
            return "const" in (t.quals or [])
        if isinstance(t, c_ast.ArrayDecl):
            return self.is_const(t.type)
        return False

    def typename(self, t):
        if isinstance(t, c_ast.TypeDecl) and isinstance(t.type, c_ast.IdentifierType):
            return " ".join(t.type.names)
        if isinstance(t, c_ast.TypeDecl) and isinstance(t.type, c_ast.Struct):
            return "struct " + (t.type.name or "?")
        return None

    def flatten(self, expr, t, depth=0):
        """list of (expr, kind, info, typenode) scalar lvalues"""
        kind, info = self.resolve(t)
        tn = self.typename(t)
        if tn == "HERODOTUS_READER" or tn == "struct herodotus_reader":
            return [(expr, "reader", None)]
        if tn == "HERODOTUS_WRITER" or tn == "struct herodotus_writer":
            return [(expr, "writer", None)]
        if kind in ("int", "bool", "enum"):
            return [(expr, kind, info)]
        if kind == "ptr":
            return [(expr, "ptr", None)]
        if kind == "struct" and depth < 4:
            out = []
            for d in info.decls or []:
                if d.name:
                    out += self.flatten("%s.%s" % (expr, d.name), d.type, depth + 1)
            return out
        if kind == "array" and depth < 4:
            et, n = info
            if n is not None and n <= 4:
                out = []
                for i in range(n):
                    out += self.flatten("%s[%d]" % (expr, i), et, depth + 1)
                return out
            return [(expr, "blob", None)]
        return [(expr, "blob", None)]


class Gen(c_generator.CGenerator):
    """code generator that applies the loop rule"""

    def __init__(self, types, ghost, select, contract_bodies, decls_only=False):
        super().__init__(reduce_parentheses=False) if False else super().__init__()
        self.T = types
        self.ghost = ghost            # Ghost description (dict)
        self.select = select          # (fname, node) -> bool : cut this loop?
        self.contract_bodies = contract_bodies
        self.fn = None
        self.scopes = []
        self.stack = []               # break/continue targets
        self.loops = []               # metadata
        self.loopcount = {}
        self.cands = []               # (id, loop id, text)
        self.addr_taken = set()
        self.replaced = []
        self.enabled = None
        self.stage = 2
        self.main_sel = None
        self.patterns = None
        self.gid = 0
        self.labgid = {}
        self.lids = []                # per loop: function, enclosing loops, calls in its body, can be left out

    def canon(self, c, lab):
        return re.sub(r"\b%s_([egs]\d+|G)\b" % re.escape(lab), r"@\1", c)

    # ---- scopes
    def visit_FuncDef(self, n):
        name = n.decl.name
        if name in self.contract_bodies:
            self.replaced.append(name)
            body = self.contract_bodies[name]
            if body is None:      # drop the definition, keep a prototype
                return self.visit(n.decl) + ";\n"
            return self.visit(n.decl) + "\n" + body + "\n"
        self.fn, self.fn_body = name, n.body
        self.loopcount[name] = 0
        scope = {}
        ftype = n.decl.type
        self.params = set()
        if ftype.args:
            for p in ftype.args.params:
                if isinstance(p, c_ast.Decl) and p.name:
                    t = p.type
                    if isinstance(t, c_ast.ArrayDecl):
                        t = c_ast.PtrDecl([], t.type)
                    scope[p.name] = t
                    self.params.add(p.name)
        self.scopes = [scope]
        self.addr_taken = set()
        for sub in self.T.walk(n.body):
            if isinstance(sub, c_ast.UnaryOp) and sub.op == "&":
                r = self.root(sub.expr)
                if r:
                    self.addr_taken.add(r)
        if self.main_sel and self.main_sel[0] == name:
            self.insert_main(n.body, self.main_sel[1])
        out = super().visit_FuncDef(n)
        self.fn = None
        self.scopes = []
        return out

    def insert_main(self, comp, path):
        var = re.split(r"[.\[]", path)[0]
        items, done = [], False
        for it in comp.block_items or []:
            items.append(it)
            if not done and isinstance(it, c_ast.Decl) and it.name == var:
                items.append(c_ast.Assignment("=", c_ast.ID("VF_main"), c_ast.UnaryOp("&", c_ast.ID(path))))
                done = True
        self.main_done = done
        comp.block_items = items

    def visit_Compound(self, n):
        self.scopes.append({})
        out = super().visit_Compound(n)
        self.scopes.pop()
        return out

    def visit_Decl(self, n, no_type=False):
        if self.fn and self.scopes and n.name and not isinstance(n.type, c_ast.FuncDecl):
            if "static" not in (n.storage or []) or True:
                self.scopes[-1][n.name] = n.type
        return super().visit_Decl(n, no_type)

    def visit_DeclList(self, n):
        for d in n.decls:
            if d.name and self.fn and self.scopes:
                self.scopes[-1][d.name] = d.type
        return super().visit_DeclList(n)

    # ---- helpers
    def root(self, e):
        while True:
            if isinstance(e, c_ast.ID):
                return e.name
            if isinstance(e, c_ast.StructRef):
                if e.type == "->":
                    return None
                e = e.name
            elif isinstance(e, c_ast.ArrayRef):
                e = e.name
            elif isinstance(e, c_ast.Cast):
                e = e.expr
            elif isinstance(e, c_ast.UnaryOp) and e.op == "*":
                return None
            else:
                return None

    def assigned(self, nodes):
        out = set()
        for node in nodes:
            if node is None:
                continue
            for sub in self.T.walk(node):
                if isinstance(sub, c_ast.Assignment):
                    r = self.root(sub.lvalue)
                    if r:
                        out.add(r)
                elif isinstance(sub, c_ast.UnaryOp) and sub.op in ("++", "--", "p++", "p--"):
                    r = self.root(sub.expr)
                    if r:
                        out.add(r)
                elif isinstance(sub, c_ast.Decl) and sub.name:
                    pass
        return out

    def mentions(self, nodes, v):
        return any(isinstance(s, c_ast.ID) and s.name == v for x in nodes if x is not None for s in self.T.walk(x))

    def visible(self):
        vis = {}
        for s in self.scopes:
            vis.update(s)
        return vis

    def visit_Return(self, n):
        cuts = [lab for kind, lab in self.stack if kind == "cut"]
        out = super().visit_Return(n)
        if not cuts:
            return out
        stop = " ".join("if (VF_CUT_%s) __CPROVER_assume(0);" % self.labgid[x] for x in cuts)
        if n.expr is None:
            return "{ vf_in = %s_in; %s return; }" % (cuts[0], stop)
        x = self.visit(n.expr)
        return "{ __typeof__(%s) vf_ret = %s; vf_in = %s_in; %s return vf_ret; }" % (x, x, cuts[0], stop)

    def visit_Break(self, n):
        if self.stack and self.stack[-1][0] == "cut":
            return "goto %s_brk;" % self.stack[-1][1]
        return "break;"

    def visit_Continue(self, n):
        for kind, lab in reversed(self.stack):
            if kind == "cut":
                return "goto %s_cont;" % lab
            if kind == "loop":
                return "continue;"
        return "continue;"

    def visit_Switch(self, n):
        self.stack.append(("switch", None))
        out = super().visit_Switch(n)
        self.stack.pop()
        return out

    def _loop(self, n, sup):
        if self.fn is None or not self.select(self.fn, n):
            self.stack.append(("loop", None))
            out = sup(n)
            self.stack.pop()
            return out
        return self.cut(n)

    def visit_For(self, n):
        self.scopes.append({})
        out = self._loop(n, super().visit_For)
        self.scopes.pop()
        return out

    def visit_While(self, n):
        return self._loop(n, super().visit_While)

    def visit_DoWhile(self, n):
        return self._loop(n, super().visit_DoWhile)

    def reader_cands(self, R, E):
        """R reader lvalue, E name of the snapshot struct"""
        c = ["VF_rdr_ok(&%s)" % R]
        for f in ("src", "srclen", "type", "terminated_by_null", "off"):
            c.append("%s.%s == %s.%s" % (R, f, E, f))
        c += ["VF_same_limits(&%s, &%s)" % (R, E),
              "VF_abs(&%s) >= VF_abs(&%s)" % (R, E)]
        for f in self.ghost.get("lookahead", []):
            c.append("%s(VF_abs(&%s)) == %s(VF_abs(&%s))" % (f, R, f, E))
        for g in self.ghost.get("offs", []):
            c.append("VF_abs(&%s) == %s" % (R, g))
        for f in self.ghost.get("reader_preds", []):
            if "$" in f:
                c.append(f.replace("$L", "(&%s)" % R).replace("$E", "(&%s)" % E).replace("$G", E.rsplit("_", 1)[0] + "_G"))
            else:
                c.append("%s(&%s)" % (f, R))
        return c

    def cands_for(self, lv, lab, idx):
        expr, kind, info = lv
        e = "%s_e%d" % (lab, idx)
        G = self.ghost
        c = []
        if kind == "reader":
            return self.reader_cands(expr, e)
        if kind in ("writer", "proper"):
            for f in G.get(kind + "_preds", []):
                c.append(f.replace("$L", "(&%s)" % expr).replace("$E", "(&%s)" % e))
            return c
        if kind == "blob":
            return []
        c.append("%s == %s" % (expr, e))
        if kind == "ptr":
            c += [x.replace("$L", expr).replace("$E", e) for x in G.get("ptr_preds", [])]
            return c
        bits, signed = info
        g0 = len(c)
        if kind == "bool":
            for b in G.get("bools", []):
                c.append("(!(%s)) || (%s)" % (expr, b))
                c.append("(!(%s)) || !(%s)" % (expr, b))
                c.append("(%s) || (%s)" % (expr, b))
                c.append("(%s) || !(%s)" % (expr, b))
            c.append("!(%s)" % expr)
            c.append("(%s)" % expr)
        elif kind == "enum" or bits == 8:
            for g in G.get("ints", []):
                c.append("%s == %s" % (expr, g))
                for x in G.get("int_escapes", []):
                    c.append("%s == %s || %s" % (expr, g, x))
            local = not re.search(r"[.\[*>]", expr)
            if local or self.stage > 1:
                for b in G.get("bools", []):
                    for v in range(0, 5):
                        c.append("%s != %d || (%s)" % (expr, v, b))
                        c.append("%s != %d || !(%s)" % (expr, v, b))
                for v in range(0, max(G.get("nvals", 6), len(self.T.enumconst) and G.get("maxval", 6))):
                    if self.stage > 1 or v <= 4 or v in G.get("keyvals", range(64)):
                        c.append("%s != %d" % (expr, v))
            c.append("%s <= 4" % expr)
            c += [x.replace("$L", expr).replace("$E", e) for x in G.get("byte_preds", [])]
        elif bits == 16:
            for f in G.get("state16", []):
                c.append("%s(%s)" % (f, expr))
        elif bits == 32:
            for g in G.get("cps", []):
                c.append("%s == %s" % (expr, g))
        elif bits == 64:
            for g in G.get("offs", []):
                c.append("%s == %s" % (expr, g))
            c += [x.replace("$L", expr).replace("$E", e) for x in G.get("size_preds", [])]
        c += [x.replace("$L", expr).replace("$E", e) for x in G.get("any_preds", [])]
        if G.get("guard"):
            c[g0:] = ["VF_G(%s)" % x for x in c[g0:]]
        return c

    def before(self, node):
        """variables that are set in the text before the loop"""
        out = set()

        def go(x):
            if x is node:
                return True
            if isinstance(x, c_ast.Assignment):
                r = self.root(x.lvalue)
                if r:
                    out.add(r)
            elif isinstance(x, c_ast.Decl) and x.init is not None and x.name:
                out.add(x.name)
            return any(go(c) for _, c in x.children())
        go(self.fn_body)
        if isinstance(node, c_ast.For) and node.init is not None:
            out.update(self.assigned([node.init]))
            out.update(x.name for x in self.T.walk(node.init) if isinstance(x, c_ast.Decl))
        return out

    def offsets(self, vis):
        """sizes that are offsets: subscripts, and what is compared with or assigned from those"""
        sizes = {v for v, t in vis.items() if self.T.resolve(t) == ("int", (64, False))}
        rel, offs = [], set()
        for x in self.T.walk(self.fn_body):
            if isinstance(x, c_ast.ArrayRef):
                offs |= {y.name for y in self.T.walk(x.subscript) if isinstance(y, c_ast.ID)} & sizes
                continue
            if isinstance(x, c_ast.BinaryOp) and x.op in ("<", "<=", ">", ">=", "==", "!="):
                rel.append((x.left, x.right))
            elif isinstance(x, c_ast.Assignment):
                rel.append((x.lvalue, x.rvalue))
            elif isinstance(x, c_ast.Decl) and x.init is not None and x.name:
                rel.append((c_ast.ID(x.name), x.init))
        rel = [{y.name for z in r for y in self.T.walk(z) if isinstance(y, c_ast.ID)} & sizes for r in rel]
        if self.ghost.get("alloffs"):
            offs = set(sizes)
        while True:
            n = len(offs)
            for r in rel:
                if r & offs:
                    offs |= r
            if len(offs) == n:
                return sorted(offs)

    def array_cands(self, vis, lvals):
        """local arrays of structures: bounds for what indexes them, facts about the elements in use"""
        c = []
        for v, t in sorted(vis.items()):
            if self.T.resolve(t)[0] != "array" or v in self.params:
                continue
            et, n = self.T.resolve(t)[1]
            if n is None or n <= 4:
                continue
            used = set()
            for x in self.T.walk(self.fn_body):
                if isinstance(x, c_ast.ArrayRef) and isinstance(x.name, c_ast.ID) and x.name.name == v:
                    used |= {y.name for y in self.T.walk(x.subscript) if isinstance(y, c_ast.ID)}
            sz = [e for e, k, i in lvals if k == "int" and i[0] == 64 and e in used]
            ptrs = [e for e, k, i in lvals if k == "ptr" and e in vis and self.T.resolve(self.T.resolve(vis[e])[1])[1] is self.T.resolve(et)[1]]
            c += ["%s <= %d" % (s, n) for s in sz]
            c += ["%s <= %s" % (s, q) for s in sz for q in sz if s != q]
            ok = ["__CPROVER_same_object(%s, %s) && VF_elem(%s, %s, %d)" % (p, v, p, v, n - 1) for p in ptrs]
            c += ok
            if self.ghost.get("stack"):
                fs = [(fe[3:], fk, fi) for fe, fk, fi in self.T.flatten("@@", et)]
                l8 = [f for f, k, i in fs if k == "int" and i[0] == 8]
                en = [f for f, k, i in fs if k == "enum"]
                bo = [f for f, k, i in fs if k == "bool"]
                c += ["VF_SAME_%d(%s, %s, %s, %s)" % (n, v, a, b, d) for a in l8 for b in en for d in bo]
                for p in ptrs:
                    c += ["(size_t)__CPROVER_POINTER_OFFSET(%s) %s G.n * sizeof(*(%s))" % (p, op, p) for op in ("==", "<=")]
                    c += ["VF_ISO_%d(%s)" % (n, p)]
            for fe, fk, fi in self.T.flatten("@@", et):
                f = fe[3:]
                if fk == "int" and fi[0] == 64:
                    c += ["VF_EACH_%d(%s, %s, %s)" % (n, v, f, s) for s in sz]
                elif fk == "int" and fi[0] == 8:
                    c += ["VF_RISING_%d(%s, %s, %s)" % (n, v, f, p) for p in ptrs]
        return c

    def array_variants(self, vis, lvals):
        o = []
        for v, t in sorted(vis.items()):
            if self.T.resolve(t)[0] == "array" and v not in self.params:
                et = self.T.resolve(t)[1][0]
                o += ["(size_t)__CPROVER_POINTER_OFFSET(%s)" % e for e, k, i in lvals if k == "ptr" and e in vis and self.T.resolve(self.T.resolve(vis[e])[1])[1] is self.T.resolve(et)[1]]
        return o

    def case_cands(self, lv):
        expr, kind, info = lv
        G = self.ghost
        c = []
        if kind == "reader":
            for g in G.get("case_offs", G.get("offs", [])):
                c.append("VF_abs(&%s) == %s" % (expr, g))
            for g in G.get("case_look", []):
                c += ["%s(VF_abs(&%s)) == %s(%s)" % (f, expr, f, g) for f in G.get("lookahead", [])]
        elif kind == "enum" or (kind == "int" and info[0] == 8):
            for g in G.get("case_ints", []):
                c.append("%s == %s" % (expr, g))
        return c

    def leaf(self, v, t):
        out = []
        for expr, kind, info in self.T.flatten(v, t):
            if kind == "reader":
                out += ["%s.%s" % (expr, f) for f in ("src", "srclen", "type", "terminated_by_null", "off", "soft_limit")]
            elif kind in ("writer", "proper") and self.ghost.get(kind + "_eqs"):
                out += [fld.replace("$L", expr) for _, fld in self.ghost[kind + "_eqs"]]
            elif kind in ("writer", "proper", "blob"):
                out.append(expr + "@")   # never frozen
            else:
                out.append(expr)
        return out

    def dead_after(self, node, vis):
        """variables which the text after the loop does not mention"""
        seen, later = [False], set()

        def go(x):
            if x is node:
                seen[0] = True
                return
            if seen[0] and isinstance(x, c_ast.ID):
                later.add(x.name)
            for _, c in x.children():
                go(c)
        if any(isinstance(x, (c_ast.Goto,)) for x in self.T.walk(self.fn_body)) and not self.leaves_ok():
            return set()
        go(self.fn_body)
        cond = {x.name for x in self.T.walk(node.cond) if isinstance(x, c_ast.ID)} if node.cond is not None else set()
        return {v for v in vis if v not in later and v not in self.addr_taken and v not in self.params and v not in cond}

    def leaves_ok(self):
        """every goto stays within the innermost loop around it"""
        def go(x, loop):
            if isinstance(x, c_ast.Goto):
                return loop is not None and x.name in {y.name for y in self.T.walk(loop) if isinstance(y, c_ast.Label)}
            if isinstance(x, (c_ast.For, c_ast.While, c_ast.DoWhile)):
                loop = x
            return all(go(c, loop) for _, c in x.children())
        return go(self.fn_body, None)

    def leaves(self, n, depth=0, top=True):
        """can the body of the loop leave it (other than by its condition)?"""
        if n is None:
            return False
        if isinstance(n, c_ast.Return):
            return True
        if top:
            gotos = {x.name for x in self.T.walk(n) if isinstance(x, c_ast.Goto)}
            labels = {x.name for x in self.T.walk(n) if isinstance(x, c_ast.Label)}
            if gotos - labels or labels - gotos:
                return True
        if isinstance(n, c_ast.Break):
            return depth == 0
        d = depth + isinstance(n, (c_ast.For, c_ast.While, c_ast.DoWhile, c_ast.Switch))
        return any(self.leaves(c, d, False) for _, c in n.children())

    def stores(self, nodes):
        """may the code change memory that is not one of the variables it names?"""
        def plain(x):
            while isinstance(x, c_ast.StructRef) and x.type == ".":
                x = x.name
            return isinstance(x, c_ast.ID)
        for y in nodes:
            for x in self.T.walk(y) if y is not None else ():
                if isinstance(x, c_ast.FuncCall):
                    return True
                if isinstance(x, c_ast.Assignment) and not plain(x.lvalue):
                    return True
                if isinstance(x, c_ast.UnaryOp) and x.op in ("++", "--", "p++", "p--") and not plain(x.expr):
                    return True
        return False

    def cut(self, n):
        k = self.loopcount[self.fn]
        self.loopcount[self.fn] += 1
        lab = "vf_%s_%d" % (self.fn, k)
        lid = "%s.%d" % (self.fn, k)
        gid = self.gid
        self.gid += 1
        self.labgid[lab] = gid
        self.lids.append({"gid": gid, "fn": self.fn, "outer": [self.labgid[l] for kd, l in self.stack if kd == "cut"],
                          "calls": {x.name for y in (n.cond, n.stmt, getattr(n, "next", None)) if y is not None for x in self.T.walk(y) if isinstance(x, c_ast.ID)},
                          "leaves": isinstance(n, c_ast.DoWhile) or self.leaves(n.stmt), "uncut": any(kd == "loop" for kd, _ in self.stack)})
        ind = self._make_indent()
        pre = ""
        init = step = None
        if isinstance(n, c_ast.For):
            cond, body, step, init = n.cond, n.stmt, n.next, n.init
            if init is not None:
                pre = self.visit(init) + ";\n"
        else:
            cond, body = n.cond, n.stmt
        vis = self.visible()
        mod = self.assigned([cond, body, step])
        if self.ghost.get("live"):
            # variables that have got no value before the end of this loop
            have = self.before(n) | mod | self.addr_taken | self.params
            vis = {v: t for v, t in vis.items() if v in have or self.T.resolve(t)[0] not in ("int", "bool", "enum")}
        # variables whose address is taken may be modified by callees
        lvals, havocs, blobs = [], [], []
        for v, t in sorted(vis.items()):
            if self.T.is_const(t):
                continue
            k_, info_ = self.T.resolve(t)
            if v in mod or v in self.addr_taken or k_ == "array":
                havocs.append((v, t, k_))
                lvals += self.T.flatten(v, t)
            if k_ == "ptr" and v not in mod and not self.T.is_const(info_):
                pk, pinfo = self.T.resolve(info_)
                key = self.fn + ":" + v
                arr = self.ghost.get("array_ptrs", ())
                if key in arr or v in arr:
                    continue
                if pk in ("int", "bool", "enum") and not self.mentions([cond, body, step], v):
                    continue
                if any(self.T.resolve(t2)[0] == "array" and self.T.resolve(self.T.resolve(t2)[1][0])[1] is pinfo for t2 in vis.values()):
                    continue      # into a local array, which is havocked as a whole
                if pk in ("struct", "int", "bool", "enum"):
                    havocs.append(("(*%s)" % v, info_, pk))
                    lvals += self.T.flatten("(*%s)" % v, info_)
        offs = self.offsets(vis) if self.ghost.get("forall") or self.ghost.get("unfold") or self.ghost.get("sync") else []
        gl = self.ghost.get("ghost_lvals", [])
        eqs = {}      # candidate text -> lvalue it freezes
        out = ["{ /* loop %s */" % lid, pre]
        snap, cands = [], []
        ign = set(self.ghost.get("ignore", []))
        decl = []
        nv = []
        for i, lv in enumerate(lvals):
            expr, kind, info = lv
            if kind == "blob" or expr in ign:
                continue
            decl.append("__typeof__(%s) %s_e%d = %s;" % (expr, lab, i, expr))
            for c in self.cands_for(lv, lab, i):
                cands.append(c)
            e = "%s_e%d" % (lab, i)
            if kind == "reader":
                for f in ("src", "srclen", "type", "terminated_by_null", "off"):
                    eqs["%s.%s == %s.%s" % (expr, f, e, f)] = "%s.%s" % (expr, f)
                eqs["VF_same_limits(&%s, &%s)" % (expr, e)] = "%s.soft_limit" % expr
            elif kind not in ("writer", "proper"):
                eqs["%s == %s" % (expr, e)] = expr
            else:
                for c, fld in self.ghost.get(kind + "_eqs", []):
                    c = c.replace("$L", "(&%s)" % expr).replace("$E", "(&%s)" % e)
                    cands.append(c)
                    eqs[c] = fld.replace("$L", expr)
        for i, (expr, kind, bits) in enumerate(gl):
            decl.append("__typeof__(%s) %s_g%d = %s;" % (expr, lab, i, expr))
            cands.append("%s == %s_g%d" % (expr, lab, i))
        for sv in sorted(mod):
            if sv in vis and self.T.resolve(vis[sv])[0] == "int" and self.T.resolve(vis[sv])[1][0] == 64:
                cands.append("%s <= 2" % sv)
                for i, lv in enumerate(lvals):
                    for c in self.case_cands(lv):
                        for kk in range(3):
                            cands.append("%s != %d || (%s)" % (sv, kk, c))
        if cond is not None and self.ghost.get("pure_cond") and not any(
                isinstance(x, (c_ast.FuncCall, c_ast.Assignment)) or (isinstance(x, c_ast.UnaryOp) and x.op in ("++", "--", "p++", "p--"))
                for x in self.T.walk(cond)):
            # nothing has changed, or the loop is about to end
            ct = self.visit(cond)
            cands.append("!(%s) || VF_ghost_eq(&%s_G)" % (ct, lab))
            for i, (expr, kind, info) in enumerate(lvals):
                if kind == "int" and expr in mod:
                    cands.append("!(%s) || %s == %s_e%d" % (ct, expr, lab, i))
                elif kind == "reader":
                    cands.append("(%s) || VF_abs(&%s) > VF_abs(&%s_e%d)" % (ct, expr, lab, i))
        if self.ghost.get("pairs"):
            only = set(offs) if self.ghost.get("pairs_offs") else None
            sz = [expr for expr, kind, info in lvals if kind == "int" and info[0] == 64 and (only is None or expr in only)]
            sz += [expr + ".off" for expr, kind, info in lvals if kind == "reader" and self.ghost.get("reader_offs")]
            rest = [v for v, t in sorted(vis.items()) if v not in sz and not self.T.is_const(t) and self.T.resolve(t) == ("int", (64, False)) and (only is None or v in only)]
            for a in sz + rest:
                for b in sz + rest:
                    if a != b and (a in sz or b in sz):
                        cands += [x.replace("$A", a).replace("$B", b) for x in self.ghost["pairs"]]
            for a in sz + rest:
                cands += [x.replace("$L", a) for x in self.ghost.get("all_sizes", [])]
        if self.ghost.get("arrays"):
            inl = vis if not self.ghost.get("stack") else {v: t for v, t in vis.items() if self.mentions([cond, body, step], v) or any(
                self.T.resolve(t)[0] == "array" and self.T.resolve(t2)[0] == "ptr" and self.T.resolve(self.T.resolve(t2)[1])[1] is self.T.resolve(self.T.resolve(t)[1][0])[1]
                and self.mentions([cond, body, step], v2) for v2, t2 in vis.items())}
            cands += self.array_cands(inl, lvals)
        for i, x in enumerate(self.ghost.get("snaps", [])):
            decl.append("__typeof__(%s) %s_s%d = %s;" % (x, lab, i, x))
            cands.append("%s == %s_s%d" % (x, lab, i))
        for c in self.ghost.get("loop_preds", []):
            cands.append(c)
        for c in self.ghost.get("ghost_preds", []):
            cands.append(c.replace("$G", lab + "_G"))
        foralls = set()
        insts = {y.name for x0 in (cond, body, step) if x0 is not None for x in self.T.walk(x0) if isinstance(x, c_ast.ArrayRef) for y in self.T.walk(x.subscript) if isinstance(y, c_ast.ID)}
        insts = [x for x in offs if x in insts]
        for x in self.ghost.get("forall", []):
            if "$A" in x:
                for a in offs:
                    foralls |= {x.replace("$A", a).replace("$B", b) for b in offs if a != b}
            elif "$L" in x:
                foralls |= {x.replace("$L", a) for a in offs}
            else:
                foralls.add(x)
        cands += sorted(foralls)
        decl.append("VF_ghost_t %s_G = G;" % lab)
        gfreeze = "VF_ghost_eq(&%s_G)" % lab
        cands.append(gfreeze)
        seen = set()
        mycands = []
        for c in cands:
            if c in seen:
                continue
            seen.add(c)
            key = (lid, self.canon(c, lab))
            if self.enabled is not None and key not in self.enabled:
                continue
            if self.patterns is not None and self.pattern(key[1]) not in self.patterns:
                continue
            mycands.append((key[1], c))
        self.cands += [(lid, k2) for k2, _ in mycands]

        on = {c for _, c in mycands}
        frozen = {l for c, l in eqs.items() if c in on}
        # the ghost invariant speaks of ghost variables only, and these have not changed
        noghost = self.ghost.get("ghost_only") and gfreeze in on
        dead = self.dead_after(n, vis) if not any(kd in ("cut", "loop") for kd, _ in self.stack) else set()

        def emit(what):
            o = ["VF_GHOST_%s(\"%s\")" % (what, lid)] if not noghost else []
            if what == "ASSUME" and self.ghost.get("ghost_only") and o and dead:
                o = ["#if !VF_DROP_%d" % gid] + o + ["#endif"]
            for k2, c in mycands:
                if what == "ASSUME" and any(re.search(r"(?<![\w.>])%s\b" % re.escape(v), c) for v in dead):
                    # says something of a variable that is not used any more
                    o += ["#if !VF_DROP_%d" % gid, "VF_ASSUME((%s), \"\")" % c, "#endif"]
                    continue
                o.append("VF_%s((%s), \"CAND %s %s %s\")" % (
                    what, c if what == "ASSUME" else re.sub(r"^VF_SAME_\d+\(", "VF_SAME_K(", c), lid, what.lower(), re.sub(r'["\\]', "'", k2)))
                if what == "ASSUME" and c in foralls:
                    # proved for an arbitrary offset: holds for these as well
                    o += ["__CPROVER_assume(%s);" % re.sub(r"\bVF_J\b", x, c) for x in insts]
            if what == "ASSUME":
                for x in self.ghost.get("unfold", []):
                    if "$A" in x:
                        o += [x.replace("$A", a).replace("$B", b) + ";" for a in offs for b in offs if a != b]
                    else:
                        o += [x.replace("$L", a) + ";" for a in offs]
            return o
        out += decl
        out += emit("BASE")
        stores = self.stores([cond, body, step])
        for i, (v, t, kk) in enumerate(havocs):
            if kk == "array" and not stores:
                continue
            if kk == "array":
                fl = [x for x in self.leaf(v, t)]
                if fl and all(x in frozen for x in fl):
                    continue
                out.append("__CPROVER_havoc_object(%s);" % v)
                continue
            leaves = self.leaf(v, t)
            if leaves and all(x in frozen for x in leaves):
                continue
            h = "%s_h%d" % (lab, i)
            o = "{ __typeof__(%s) %s;" % (v, h)
            for x in leaves:
                if x in frozen:
                    hx = h + x[len(v):]
                    if x.endswith(".soft_limit"):
                        o += " for (int vf_i = 0; vf_i < (int)(sizeof(%s) / sizeof(*%s)); vf_i++) %s[vf_i] = %s[vf_i];" % (x, x, hx, x)
                    else:
                        o += " %s = %s;" % (hx, x)
            for fe, fk, _ in self.T.flatten(v, t):
                fh = h + fe[len(v):]
                if fk == "bool":
                    o += " %s = %s ? 1 : 0;" % (fh, fh)
                elif fk == "reader":
                    o += " %s.terminated_by_null = %s.terminated_by_null ? 1 : 0;" % (fh, fh)
                elif fk == "ptr" and fe not in frozen:
                    # a pointer whose object is an invariant: say so by an assignment,
                    # as the symbolic execution takes objects from assignments only
                    for x in self.ghost.get("ptr_preds", []):
                        x = x.replace("$L", fe)
                        if x in on and x.startswith(fe + " == "):
                            o += " %s = %s;" % (fh, x[len(fe) + 4:])
                    for x in on:
                        m = re.match(r"__CPROVER_same_object\((\S+), (\w+)\) && VF_elem\(.*, (\d+)\)$", x)
                        if m and m.group(1) == fe:
                            o += " { size_t vf_k; __CPROVER_assume(vf_k <= %s); %s = %s + vf_k; }" % (m.group(3), fh, m.group(2))
            o += " %s = %s; }" % (v, h)
            out.append(o)
        if gfreeze not in on:
            out.append("VF_havoc_ghost();")
        if self.ghost.get("heap") and stores:
            out.append("VF_havoc_heap();")
        out += emit("ASSUME")
        # variants
        rdrs = [lv[0] for lv in lvals if lv[1] == "reader"]
        sizes = [lv[0] for lv in lvals if lv[1] == "int" and lv[2][0] == 64]
        var = []
        for i, r in enumerate(rdrs):
            out.append("size_t %s_v%d = VF_abs(&%s);" % (lab, i, r))
            var.append(("VF_variant(&%s, %s_v%d)" % (r, lab, i), r))
        for i, r in enumerate(sizes):
            out.append("size_t %s_w%d = %s;" % (lab, i, r))
            var.append(("%s < %s_w%d" % (r, lab, i), r + " down"))
        for x in self.ghost.get("size_variants", []):
            for i, r in enumerate(sizes):
                g = x.replace("$L", r)
                out.append("size_t %s_z%d = %s;" % (lab, len(var), g))
                var.append(("%s < %s_z%d" % (g, lab, len(var)), g + " down"))
        extra = list(self.ghost.get("variants", []))
        if self.ghost.get("byte_variants"):
            extra += ["(size_t)((int)(%s) + 129)" % lv[0] for lv in lvals if lv[1] == "int" and lv[2][0] == 8]
        if self.ghost.get("arrays"):
            extra += self.array_variants(vis, lvals)
        for i, g in enumerate(extra):
            out.append("size_t %s_y%d = %s;" % (lab, i, g))
            var.append(("%s < %s_y%d" % (g, lab, i), g + " down"))
        if self.enabled is not None:      # the variant that is known to do
            known = {c[8:] for l, c in self.enabled if l == lid and c.startswith("variant ")}
            if known:
                var = [x for x in var if re.sub(r'["\\]', "'", x[1]) in known] or var
        self.stack.append(("cut", lab))
        self.scopes.append({})
        condtext = self.visit(cond) if cond is not None else "1"
        bodytext = self._generate_stmt(body, add_indent=True)
        self.scopes.pop()
        self.stack.pop()
        steptext = (self.visit(step) + ";") if step is not None else ";"
        steps = emit("STEP")
        if self.ghost.get("sync") and gfreeze not in on or self.enabled is None and self.ghost.get("sync"):
            steps = ["VF_sync(%s);" % x for x in offs if x in mod] + steps
        for c, d in var:
            steps.append("VF_VARIANT((%s), \"VAR %s %s\")" % (c, lid, re.sub(r'["\\]', "'", d)))
        reach = "VF_REACH(\"%s body\");" % lid
        out.append("const _Bool %s_in = vf_in;" % lab)
        reach = "vf_in = VF_ONLY == %d; " % gid + reach
        leave = "vf_in = %s_in; if (VF_CUT_%d) __CPROVER_assume(0);" % (lab, gid)
        if isinstance(n, c_ast.DoWhile):
            out += [reach, bodytext, "%s_cont: ;" % lab, "if (%s) {" % condtext] + steps + \
                   ["__CPROVER_assume(0); }", "%s_brk: ;" % lab, leave, "VF_REACH(\"%s exit\");" % lid, "}"]
        else:
            out += ["#if VF_DROP_%d\nif (%s) __CPROVER_assume(0);\n#else" % (gid, condtext), "if (%s) {" % condtext, reach, bodytext, "%s_cont: ;" % lab, steptext] + steps + \
                   ["__CPROVER_assume(0);", "}", "#endif", "%s_brk: ;" % lab, leave, "VF_REACH(\"%s exit\");" % lid, "}"]
        self.loops.append({"id": lid, "cands": len(mycands), "variants": len(var)})
        return "\n".join(out) + "\n" + ind


def parse(text):
    return c_parser.CParser().parse(text)


def table_functions(ast, T, tables):
    """functions whose body reads a lookup table directly -> {fname: (table, nparams)}"""
    out = {}
    for ext in ast.ext:
        if isinstance(ext, c_ast.FuncDef):
            ids = {s.name for s in T.walk(ext.body) if isinstance(s, c_ast.ID)}
            hit = [t for t in tables if t in ids]
            if hit:
                np = len(ext.decl.type.args.params) if ext.decl.type.args else 0
                out[ext.decl.name] = (hit, np, ext)
    return out


def reader_locals(ast, T, skip=()):
    """(function, lvalue path) of every reader that lives in a local variable"""
    out = []
    for ext in ast.ext:
        if isinstance(ext, c_ast.FuncDef) and ext.decl.name not in skip:
            for it in ext.body.block_items or []:
                if isinstance(it, c_ast.Decl) and it.name and not isinstance(it.type, c_ast.FuncDecl):
                    for e, k, _ in T.flatten(it.name, it.type):
                        if k == "reader":
                            out.append((ext.decl.name, e))
    return out
