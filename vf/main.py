"""check <property> [--tier quick|thorough] [--cold]
   replay <file>

Proof tasks (CBMC, contracts) and, at the same time, execution of the real code
next to the executable specification.  The proof decides; the execution finds
the failing input when the proof does not go through, and cross-checks the
specification and the tables when it does."""
import json, os, re, signal, subprocess, sys, time, shutil
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import work as W, native, tables
from work import VERIF, BuildError, Work
import annotate
import tasks
from props import PROPS

QUICK_SEARCH, HARD = 12, 800
CHILDREN = []


def spawn(cmd, **kw):
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    CHILDREN.append(p)
    return p


def killall():
    for p in CHILDREN:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


def native_build(work, spec):
    kind, arg = spec
    return getattr(native, kind)(work, arg)


class Search:
    """rounds of the native search programs of a property"""

    def __init__(self, work, specs, seed):
        self.work, self.specs, self.seed = work, specs, seed
        self.exes, self.errors = {}, []
        self.procs, self.n = [], 0
        self.stats = {"evaluations": 0, "distinct": 0, "samples": []}
        self.rounds = 0
        self.fail = None
        self.once = set()

    def build(self):
        for s in self.specs:
            try:
                self.exes[s] = native_build(self.work, s)
            except (BuildError, annotate.ExtractError) as e:
                self.errors.append("%s: %s" % (s, e))

    def start(self, secs, width):
        i = 0
        for s, exe in self.exes.items():
            if s[0] in native.EXHAUSTIVE:
                if s in self.once:
                    continue
                self.once.add(s)
                cnt = 1
            else:
                cnt = max(1, width // max(1, len(self.exes)))
            for k in range(cnt):
                out = open("%s/search_%d.out" % (self.work.dir, self.n), "w+")
                err = open("%s/search_%d.err" % (self.work.dir, self.n), "w+")
                self.n += 1
                part = k if self.rounds == 0 else 2
                p = spawn([exe, str(secs), str(self.seed + 1000 * self.n), str(part)], stdout=out, stderr=err)
                self.procs.append((s, exe, p, out, err, time.time() + secs + 60))
        self.rounds += 1

    def poll(self):
        """True when no program is running"""
        left = []
        for x in self.procs:
            s, exe, p, out, err, end = x
            rc = p.poll()
            if rc is None:
                if time.time() > end:
                    os.killpg(p.pid, signal.SIGKILL)
                left.append(x)
                continue
            out.seek(0)
            t = out.read()
            m = re.search(r"^FAIL (.*?)\nCASE (.*)$", t, re.M | re.S)
            if m:
                err.seek(0)
                if self.fail is None:
                    self.fail = {"native": list(s), "what": m.group(1), "case": m.group(2).split("\n")[0], "stderr": err.read()[:4000]}
            else:
                m = re.search(r"^STATS (.*)$", t, re.M)
                if m:
                    try:
                        j = json.loads(m.group(1))
                    except ValueError:
                        j = {"evaluations": 0, "distinct": 0, "samples": []}
                    self.stats["evaluations"] += j["evaluations"]
                    self.stats["distinct"] += j["distinct"]
                    self.stats["samples"] = (self.stats["samples"] + j["samples"])[:6]
                elif rc != 0:
                    err.seek(0)
                    e = err.read()
                    self.errors.append("%s ended with %d: %s" % (s, rc, e[-300:]))
            out.close()
            err.close()
        self.procs = left
        return not left


def known_findings():
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def check(pid, tier, cold):
    t0 = time.time()
    P = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    deadline = t0 + (HARD if tier == "quick" else 3300)
    gens = W.GENS
    viol = None
    results = {}
    fatal = None
    try:
        work = Work(gens)
    except BuildError as e:
        work, fatal = None, str(e)
    if work:
        search = Search(work, P.get("native", []), seed)
        running = {}
        todo = list(P["proofs"]) + (list(P.get("thorough", [])) if tier == "thorough" else [])
        limit = 7
        built = False
        last_round = False
        fail_since = None

        def launch():
            while todo and len(running) < limit:
                n = todo.pop(0)
                out = "%s/task_%s.json" % (work.dir, n)
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
                log = open("%s/task_%s.log" % (work.dir, n), "w")
                p = spawn([sys.executable, os.path.join(HERE, "tasks.py"), n, work.dir, out, str(deadline), tier, "1" if cold else "0"],
                          stdout=log, stderr=log, env=env)
                running[n] = (p, out, log)
        launch()
        search.build()
        secs = QUICK_SEARCH if tier == "quick" else 120
        search.start(secs, 3)
        while True:
            time.sleep(0.1)
            for n, (p, out, log) in list(running.items()):
                if p.poll() is None:
                    if time.time() > deadline + 15:
                        os.killpg(p.pid, signal.SIGKILL)
                    continue
                del running[n]
                log.close()
                try:
                    results[n] = json.load(open(out))
                except (OSError, ValueError):
                    results[n] = {"task": n, "status": "undecided", "obligations": 0, "discharged": 0, "solver_s": 0, "functions": [],
                                  "failed": ["the proof task ended without a result: " + open(log.name).read()[-300:]],
                                  "loops": {}, "invariants": 0, "what": "", "bounded": None, "cmd": "", "backend": "", "notes": []}
            launch()
            idle = search.poll()
            if search.fail:
                viol = search.fail
                break
            bad = [r for r in results.values() if r["status"] != "ok"]
            done = not running and not todo
            if bad and fail_since is None:
                fail_since = time.time()
            if idle:
                if done and not bad:
                    break
                limit_t = deadline if not done else min(deadline, fail_since + (150 if tier == "quick" else 600))
                if done and bad and (time.time() >= limit_t or not search.exes):
                    break
                if not done and time.time() > deadline + 20:
                    break
                if not search.exes:
                    continue
                # go on searching while something is not proved
                if search.rounds < 1000:
                    slow = len(running) + len(todo)
                    if done or fail_since or tier == "thorough" or search.rounds >= 1:
                        search.start(10 if tier == "quick" else 60, 7 if done else 2)
    bad = [r for r in results.values() if r["status"] != "ok"]
    obligation = None
    if not viol and (bad or fatal or (work and search.errors and P.get("native"))):
        obligation = bad
    killall()
    wall = time.time() - t0
    out = evidence(pid, P, tier, seed, results, search if work else None, wall, 1 if (viol or obligation is not None) else 0, fatal, cold)
    if viol:
        path = replay_file(pid, "input", viol, results, None)
        print("property %s: %s" % (pid, viol["what"]))
        print("input: %s" % viol["case"][:400])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if obligation is not None:
        path = replay_file(pid, "obligation", None, results, {"fatal": fatal, "search": search.errors if work else []})
        for r in obligation:
            for f in r["failed"][:10]:
                print("obligation of %s: %s" % (r["task"], f))
        if fatal:
            print(fatal)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        return 1
    c = out["coverage"]
    print("property %s holds: %d proof tasks, %d of %d obligations discharged, %.1f s solver time; %d executions agree with the specification; %.1f s" % (
        pid, len(results), c["discharged"], c["obligations"], c["solver_s"], c["cross_check"]["evaluations"], wall))
    for p, key, txt in known_findings():
        if p == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, txt))
    return 0


def evidence(pid, P, tier, seed, results, search, wall, nviol, fatal, cold):
    proved = [r for r in results.values() if not r.get("bounded")]
    bounded = [r for r in results.values() if r.get("bounded")]
    cov = {
        "obligations": sum(r["obligations"] for r in proved),
        "discharged": sum(r["discharged"] for r in proved),
        "checker_cmd": "; ".join(sorted({re.sub(r"/tmp/vf\.\w+", "$WORK", r["cmd"]) for r in proved if r["cmd"]}))[:6000] or "none",
        "trusted_base": TRUSTED + P.get("trusted", []),
        "backend": tasks.BACKEND,
        "solver_s": round(sum(r["solver_s"] for r in results.values()), 1),
        "functions_under_contract": sorted({f for r in proved for f in r["functions"]}),
        "proofs": {r["task"]: {"status": r["status"], "what": r["what"], "obligations": r["obligations"], "discharged": r["discharged"],
                               "loops": {k: v for k, v in r["loops"].items()}, "invariants": r["invariants"], "solver_s": r["solver_s"],
                               "notes": r["notes"], "failed": r["failed"][:10], "reachable": r.get("reach", [])} for r in proved},
        "bounded_checks": {r["task"]: {"status": r["status"], "bound": r["bounded"], "obligations": r["obligations"], "discharged": r["discharged"],
                                       "what": r["what"], "solver_s": r["solver_s"], "failed": r["failed"][:10]} for r in bounded},
        "cold_start": bool(cold),
        "cross_check": {"evaluations": search.stats["evaluations"] if search else 0,
                        "distinct_nontrivial": search.stats["distinct"] if search else 0,
                        "rule": "the real code (address and undefined behaviour sanitizers) and the executable specification on the same texts: every class string up to length 3, every codepoint, random texts of runs of classes; codepoints and UTF-8, explicit length and NUL-terminated, ill-formed UTF-8; non-trivial: at least two codepoints, distinct by hash",
                        "samples": search.stats["samples"] if search else [],
                        "programs": [list(s) for s in (search.exes if search else [])],
                        "errors": search.errors if search else [fatal]},
    }
    out = {"property": pid, "tier": tier, "seed": seed, "level": P.get("level", "proof"), "coverage": cov,
           "assumptions": ASSUME + P.get("assume", []), "wall_s": round(wall, 2), "violations": nviol}
    if out["level"] == "other":
        cov["explanation"] = P["explanation"]
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    p = "%s/evidence/%s.json" % (VERIF, pid)
    json.dump(out, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)
    return out


TRUSTED = ["CBMC 6.11 (C semantics, loop-free symbolic execution) and CaDiCaL", "gcc -E, pycparser and the mechanical loop rule of vf/annotate.py",
           "the specification headers in spec/ and harness/, the UCD reading in ucd/ (made by vf/mkucd.py from data/)"]
ASSUME = ["texts are shorter than 2^40 units", "size_t has 64 bits, uint_least8_t/16_t/32_t are exact, CHAR_BIT is 8",
          "the lookup tables are the ones which the generators of this tree write (generated and compiled on every run)"]


def replay_file(pid, kind, viol, results, extra):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = "%s/%s.json" % (d, pid)
    bad = [r for r in results.values() if r["status"] != "ok"]
    o = {"property": pid, "kind": kind, "statement": PROPS[pid].get("title", "")}
    if viol:
        o.update({"failing_input": viol["case"], "what": viol["what"], "native": viol["native"], "stderr": viol["stderr"],
                  "how": "bin/replay %s runs this input against the real code and the specification" % path})
    o["failed_obligations"] = {r["task"]: {"status": r["status"], "failed": r["failed"], "notes": r["notes"], "verifier": r["cmd"]} for r in bad}
    if extra:
        o["extra"] = extra
    json.dump(o, open(path, "w"), indent=1)
    return path


def replay(path):
    o = json.load(open(path))
    if "failing_input" not in o:
        print(json.dumps(o["failed_obligations"], indent=1))
        print("no failing input; running the check of %s again" % o["property"])
        return check(o["property"], "quick", False)
    work = Work(W.GENS)
    exe = native_build(work, tuple(o["native"]))
    rc = subprocess.run([exe, "case"] + o["failing_input"].split(" ")).returncode
    print("reproduced" if rc else "not reproduced")
    return 1 if rc else 0


def main(argv):
    signal.signal(signal.SIGTERM, lambda *_: (killall(), sys.exit(2)))
    if argv[0] == "replay":
        return replay(argv[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    try:
        return check(argv[0], tier, "--cold" in argv)
    finally:
        killall()


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
