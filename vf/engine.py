"""Runs CBMC on annotated sources; Houdini over candidate invariants."""
import contextlib, fcntl, json, os, re, subprocess, time, signal, concurrent.futures as cf
from pycparser import c_ast
import annotate
from annotate import ExtractError
from work import sh

CBMC = "cbmc"
SAFETY = ["--bounds-check", "--pointer-check", "--div-by-zero-check", "--signed-overflow-check",
          "--undefined-shift-check", "--pointer-overflow-check"]
BASE = ["--slice-formula", "--sat-solver", "cadical", "--no-standard-checks", "--unwinding-assertions", "--drop-unused-functions"]


def pattern(c):
    """shape of a candidate: the left hand side (a variable of the code) left out"""
    return re.sub(r"(?<![\w.>)\]])(?!VF_|G\.|G\b|@)[A-Za-z_]\w*(?:(?:\.|->)\w+|\[\d+\])*(?!\w*\()", "$", c)


def patterns(hints):
    return {pattern(c) for _, c in hints}


class SolverLimit(Exception):
    pass


def run_cbmc(args, timeout=600, cwd=None):
    t = time.time()
    try:
        rc, out, err = sh([CBMC, "--verbosity", "6"] + args, check=False, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise SolverLimit("cbmc timed out after %ds: %s" % (timeout, " ".join(args)))
    res, fn = [], None
    for line in out.splitlines():
        m = re.match(r"^\S+ function (\S+)$", line)
        if m:
            fn = m.group(1)
        m = re.match(r"^\[(\S+)\] (?:file \S+ )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", line)
        if m:
            res.append({"property": m.group(1), "line": m.group(2), "description": m.group(3), "status": m.group(4)})
    if rc not in (0, 10) or (not res and "VERIFICATION SUCCESSFUL" not in out):
        raise SolverLimit("cbmc error (rc %d): %s" % (rc, (err + out)[-1500:]))
    return res, time.time() - t


@contextlib.contextmanager
def slot(d, n=8):
    """at most n runs of the verifier at a time, over all tasks of a check"""
    while True:
        for k in range(n):
            f = open("%s/slot.%d" % (d, k), "w")
            try:
                fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
            except OSError:
                f.close()
                continue
            try:
                yield
                return
            finally:
                f.close()
        time.sleep(0.05)


def call_graph(ast, T):
    g = {}
    for ext in ast.ext:
        if isinstance(ext, c_ast.FuncDef):
            s = set()
            for n in T.walk(ext.body):
                if isinstance(n, c_ast.ID):
                    s.add(n.name)
            g[ext.decl.name] = s
    return g


def reaches(g, targets):
    r = set(targets)
    ch = True
    while ch:
        ch = False
        for f, s in g.items():
            if f not in r and s & r:
                r.add(f)
                ch = True
    return r


class Program:
    """one translation unit: real sources + harness prelude / postlude"""

    def __init__(self, work, sources, prelude, postlude, ghost, contracts, cut_targets,
                 name, defs=(), nocut=(), cut_extra=None):
        self.work, self.name, self.defs = work, name, list(defs)
        self.prelude, self.postlude, self.ghost = prelude, postlude, ghost
        self.contracts, self.nocut = contracts, nocut
        top = os.path.join(work.red, "tu_%s.c" % name)
        with open(top, "w") as f:
            for s in sources:
                f.write('#include "src/%s"\n' % s)
        self.text = annotate.preprocess(top, incdirs=[work.red])
        # asserts in the code stay obligations
        self.text = self.text
        try:
            self.ast = annotate.parse(self.text)
        except Exception as e:
            raise ExtractError("parse: %s" % e)
        self.T = annotate.Types(self.ast)
        self.graph = call_graph(self.ast, self.T)
        self.reach = reaches(self.graph, set(cut_targets))
        self.cut_extra = cut_extra
        self.main_sel = None
        self.stage = 2
        self.patterns = None
        self.after = None      # (structure, file): included behind the definition of the structure

    def select(self, fn, node):
        if fn in self.nocut:
            return False
        ids = {n.name for n in self.T.walk(node) if isinstance(n, c_ast.ID)}
        if ids & self.reach:
            return True
        return bool(self.cut_extra and self.cut_extra(fn, node, self.T))

    def generate(self, enabled=None):
        self.ast = annotate.parse(self.text)
        G = annotate.Gen(self.T, self.ghost, self.select, self.contracts)
        G.enabled = enabled
        G.main_sel = self.main_sel
        G.stage = self.stage
        G.patterns, G.pattern = self.patterns, pattern
        head, body, seen = [], [], False
        out = []
        for ext in self.ast.ext:
            if isinstance(ext, c_ast.FuncDef) and not seen:
                seen = True
                out.append('#include "%s"\n' % self.prelude)
            t = G.visit(ext)
            if self.after and any(isinstance(x, c_ast.Struct) and x.name == self.after[0] and x.decls for x in self.T.walk(ext)):
                t += ';\n#include "%s"\n' % self.after[1]
            if isinstance(ext, c_ast.FuncDef):
                out.append(t + "\n")
            elif isinstance(ext, c_ast.Pragma):
                out.append(t + "\n")
            else:
                out.append(t + ";\n")
        out.append('#include "%s"\n' % self.postlude)
        out.insert(0, self.split_header(G))
        missing = [c for c in self.contracts if c not in G.replaced and c not in self.contracts.get("__optional__", ())]
        return "".join(out), G

    def split_header(self, G):
        """which loops may be left out of which run (macros.h)"""
        live = self.live_functions()
        for l in G.lids:
            # functions that the body may run
            run, todo = set(), list(l["calls"])
            while todo:
                f = todo.pop()
                if f in self.graph and f not in run and f not in self.contracts:
                    run.add(f)
                    todo += list(self.graph[f])
            l["run"] = run
        o = []
        runs = [l["gid"] for l in G.lids if live is None or l["fn"] in live]
        for l in G.lids:
            keep = [k["gid"] for k in G.lids if k is l or l["gid"] in k["outer"] or k["fn"] in l["run"]]
            cond = "0" if l["leaves"] else "(VF_ONLY != -2 && " + " && ".join("VF_ONLY != %d" % k for k in keep) + ")"
            o.append("#define VF_DROP_%d %s\n#define VF_CUT_%d (%s)\n" % (
                l["gid"], cond, l["gid"], "VF_ONLY == %d" % l["gid"] if self.once(l, G) else "0"))
        G.runs = [-1] + runs
        return "".join(o)

    def live_functions(self):
        if not getattr(self, "entry_fn", None):
            return None
        live, todo = set(), [self.entry_fn]
        while todo:
            f = todo.pop()
            if f in live or f not in self.graph:
                continue
            live.add(f)
            if f not in self.contracts:
                todo += list(self.graph[f])
        return live

    def once(self, l, G):
        """is the loop reached once at most, by calls from the harness?"""
        if l["uncut"] or not getattr(self, "entered_once", False):
            return False
        if l["fn"] != self.entry_fn:
            return False
        return not any(self.entry_fn in self.graph[f] for f in self.live_functions() if f in self.graph)

    def write(self, enabled=None, suffix=""):
        txt, G = self.generate(enabled)
        p = os.path.join(self.work.dir, "vf_%s%s.c" % (self.name, suffix))
        open(p, "w").write(txt)
        return p, G


def classify(res):
    """-> dict desc -> status, grouped"""
    cand, spec, reach = {}, [], {}
    for r in res:
        d, st = r["description"], r["status"]
        m = re.match(r"CAND (\S+) (base|step) (.*)$", d)
        if m:
            k = (m.group(1), m.group(3))
            cand[k] = cand.get(k, True) and st == "SUCCESS"
            continue
        m = re.match(r"VAR (\S+) (.*)$", d)
        if m:
            k = (m.group(1), "variant " + m.group(2))
            cand[k] = cand.get(k, True) and st == "SUCCESS"
            continue
        if d.startswith("REACH "):
            reach[d[6:]] = reach.get(d[6:], False) or st == "FAILURE"
            continue
        spec.append((d, st, r))
    return cand, spec, reach


class ProofResult:
    def __init__(self):
        self.ok = False
        self.failed = []       # names of failed obligations
        self.obligations = 0
        self.discharged = 0
        self.rounds = 0
        self.solver_s = 0.0
        self.loops = {}
        self.invariants = {}
        self.reach = {}
        self.vacuous = []
        self.error = None
        self.functions = []
        self.results = None
        self.hinted = False
        self.cmd = ""


def prove(prog, entry, flags=(), unwind=12, timeout=800, hints=None, only_hints=False, need_reach=("return",), log=None, max_rounds=40, deadline=None):
    """Houdini to the greatest inductive subset, then judge the spec obligations."""
    R = ProofResult()

    def one(enabled, suffix, extra):
        path, G = prog.write(enabled, suffix)
        if getattr(prog, "split", False) and len(G.runs) > 2:
            return several(path, G, extra)
        args = [path, "--function", entry, "--unwind", str(unwind)] + BASE + list(extra) + ["-D" + d for d in prog.defs] + ["-I", prog.work.dir]
        tmo = timeout
        if deadline:
            tmo = max(5, min(timeout, deadline - time.time()))
        res, s = run_cbmc(args, timeout=tmo)
        R.solver_s += s
        R.cmd = "cbmc " + " ".join(args)
        return res, G

    def several(path, G, extra):
        """the obligations of every loop in a run of its own"""
        def run(k):
            args = [path, "--function", entry, "--unwind", str(unwind)] + BASE + list(extra) + ["-DVF_ONLY=%d" % k] + ["-D" + d for d in prog.defs] + ["-I", prog.work.dir]
            with slot(prog.work.dir):
                tmo = timeout
                if deadline:
                    tmo = max(5, min(timeout, deadline - time.time()))
                t = time.time()
                try:
                    return run_cbmc(args, timeout=tmo) + (args,)
                finally:
                    if log:
                        log("run %d: %.1fs" % (k, time.time() - t))
        merged = {}
        with cf.ThreadPoolExecutor(len(G.runs)) as ex:
            for res, s, args in ex.map(run, G.runs):
                R.solver_s += s
                R.cmd = "cbmc " + " ".join(args)
                n = {}
                for r in res:
                    k = (r["line"], r["description"])
                    n[k] = n.get(k, 0) + 1
                    k += (n[k],)
                    if k not in merged or merged[k]["status"] == "SUCCESS":
                        merged[k] = r
        return list(merged.values()), G

    def judge(enabled, suffix, prune=False):
        res, G = one(enabled, suffix, ["-DVF_PRUNE"] if prune else flags)
        cand, spec, reach = classify(res)
        return res, G, cand, spec, reach

    def attempt(enabled, rounds):
        prune = rounds > 1
        for k in range(rounds):
            R.rounds += 1
            res, G, cand, spec, reach = judge(enabled, "", prune)
            bad = {c for c, ok in cand.items() if not ok and not c[1].startswith("variant ")}
            if log:
                log("round %d: %d candidates, %d dropped, %.1fs total" % (R.rounds, len(cand), len(bad), R.solver_s))
            if not bad and prune:
                prune = False
                continue
            if not bad:
                return res, G, cand, spec, reach, enabled
            if enabled is None:
                enabled = {c for c in cand if not c[1].startswith("variant ")}
            enabled = set(enabled) - bad
        raise SolverLimit("Houdini did not converge")

    done = None
    if hints is not None:
        done = attempt(set(hints), 1)
        R.hinted = True
    if done is None:
        done = attempt(None, max_rounds)
    res, G, cand, spec, reach, enabled = done
    R.results = res
    R.reach = reach
    loops = {}
    live = prog.live_functions()
    R.live = live
    for l in G.loops:
        if live is not None and l["id"].rsplit(".", 1)[0] not in live:
            continue
        loops[l["id"]] = {"invariants": 0, "variant": False}
    for (lid, c), ok in cand.items():
        if c.startswith("variant "):
            if lid in loops and ok:
                loops[lid]["variant"] = True
        elif lid in loops:
            loops[lid]["invariants"] += 1
            R.invariants.setdefault(lid, []).append(c)
    R.loops = loops
    R.functions = sorted({e.decl.name for e in prog.ast.ext if isinstance(e, c_ast.FuncDef) and e.decl.name not in prog.contracts and (live is None or e.decl.name in live)})
    for lid, l in loops.items():
        # a loop that is never reached has all variants proved vacuously
        if not l["variant"]:
            R.failed.append("loop %s terminates (no variant decreases)" % lid)
    for d, st, r in spec:
        if st != "SUCCESS":
            R.failed.append("%s [%s]" % (d, r["property"]))
    inv_n = sum(1 for c in cand if not c[1].startswith("variant "))
    R.obligations = len(spec) + 2 * inv_n + len(loops)
    R.discharged = R.obligations - len(R.failed)
    for n in need_reach:
        if not reach.get(n, False):
            R.vacuous.append(n)
            R.failed.append("vacuity guard: %s is not reachable" % n)
    R.ok = not R.failed and R.obligations > 0
    R.enabled = [c for c in cand if not c[1].startswith("variant ")]
    for lid, l in loops.items():
        R.enabled += [c for c, ok in cand.items() if c[0] == lid and ok and c[1].startswith("variant ")][:1]
    return R
