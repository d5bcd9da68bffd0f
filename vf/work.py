"""Scratch copy of /repo: sources, generated headers, reduced headers."""
import os, re, shutil, subprocess, tempfile, atexit, sys, time, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
GENS = ["bidirectional", "case", "character", "line", "sentence", "word"]


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, timeout=600, check=True, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise
    if check and p.returncode:
        raise BuildError("%s: exit %d\n%s" % (" ".join(cmd), p.returncode, err.decode(errors="replace")[-2000:]))
    return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")


class Work:
    def __init__(self, gens, keep=None):
        self.dir = keep or tempfile.mkdtemp(prefix="vf.", dir=os.environ.get("VF_TMP", "/tmp"))
        os.makedirs(self.dir, exist_ok=True)
        if not keep:
            atexit.register(self.close)
            for s in (signal.SIGTERM, signal.SIGINT):
                signal.signal(s, lambda *_: sys.exit(2))
        w = self.dir
        if not os.path.isdir(w + "/src"):
            for d in ("src", "gen"):
                shutil.copytree(os.path.join(REPO, d), os.path.join(w, d))
            shutil.copy(os.path.join(REPO, "grapheme.h"), w)
            for f in ("config.mk", "Makefile"):
                if os.path.exists(os.path.join(REPO, f)):
                    shutil.copy(os.path.join(REPO, f), w)
            os.symlink(os.path.join(REPO, "data"), os.path.join(w, "data"))
        procs = []
        for g in gens:
            if os.path.exists("%s/gen/%s.h" % (w, g)):
                continue
            procs.append((g, subprocess.Popen(
                "gcc -std=c99 -O1 -w -I. -o gen/%s gen/%s.c gen/util.c && ./gen/%s > gen/%s.h.tmp && mv gen/%s.h.tmp gen/%s.h" % (g, g, g, g, g, g),
                shell=True, cwd=w, stderr=subprocess.PIPE)))
        for g, p in procs:
            _, err = p.communicate()
            if p.returncode:
                raise BuildError("generator %s failed: %s" % (g, err.decode(errors="replace")[-1500:]))
        # headers whose table initialisers are dropped (declarations only)
        self.red = os.path.join(w, "red")
        os.makedirs(self.red + "/gen", exist_ok=True)
        os.makedirs(self.red + "/src", exist_ok=True)
        self.tables = {}
        # several processes share the directory: only the first one writes
        done = os.path.exists(self.red + "/complete")
        for g in gens:
            self.reduce(g, not done)
        if done:
            return
        for h in os.listdir(w + "/gen"):
            if h.endswith(".h") and not os.path.exists(self.red + "/gen/" + h):
                shutil.copy(w + "/gen/" + h, self.red + "/gen/" + h)
        for h in os.listdir(w + "/src"):
            shutil.copy(w + "/src/" + h, self.red + "/src/" + h)
        shutil.copy(w + "/grapheme.h", self.red)
        if set(gens) == set(GENS):
            open(self.red + "/complete", "w").close()

    def reduce(self, g, write):
        t = open("%s/gen/%s.h" % (self.dir, g)).read()
        names = []

        def rep(m):
            names.append(m.group(3))
            body = m.group(4)
            n = None
            return "%s extern const %s %s[];" % (m.group(1), m.group(2), m.group(3))
        # static const T name[] = { ... };
        pat = re.compile(r"()static const ((?:struct )?\w+) (\w+)\[\d*\] = \{(.*?)\n\};", re.S)
        pat2 = re.compile(r"static const struct (\w+) \{(.*?)\} (\w+)\[\d*\] = \{(.*?)\n\};", re.S)
        t = pat2.sub(lambda m: (names.append(m.group(3)) or
                                "struct %s {%s};\nextern const struct %s %s[];" % (m.group(1), m.group(2), m.group(1), m.group(3))), t)
        t = pat.sub(rep, t)
        self.tables[g] = names
        if write:
            open("%s/gen/%s.h" % (self.red, g), "w").write(t)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
