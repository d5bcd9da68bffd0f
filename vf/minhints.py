"""minhints.py <hints.json>...: leave out invariants that the others imply"""
import json, re, sys


def reduce(cs):
    cs = list(dict.fromkeys(cs))
    S = set(cs)

    def drop(c):
        S.discard(c)
    # by shape
    for c in cs:
        m = re.match(r"^(\S+) != (\d+)( \|\| .*)?$", c)
        if m:
            x, k, rest = m.groups()
            if ("%s <= 4" % x in S and int(k) > 4) or (rest and "%s != %s" % (x, k) in S):
                drop(c)
            elif rest and any(rest == " || (%s)" % d for d in S):
                drop(c)
        m = re.match(r"^(\S+) ([<>])= (\S+)$", c)
        if m and ("%s == %s" % (m.group(1), m.group(3)) in S or "%s == %s" % (m.group(3), m.group(1)) in S):
            drop(c)
        m = re.match(r"^(\S+) <= (\S+) \+ 1$", c)
        if m and ("%s <= %s" % m.groups() in S or "%s < %s" % m.groups() in S):
            drop(c)
        m = re.match(r"^!\((.*)\) \|\| (.*)$", c)
        if m and m.group(2) in S:
            drop(c)
    # differences: A <= B + k, greedily without those that follow
    num = lambda s: re.match(r"^\d+$", s)

    def edges(T):
        E = {}

        def add(a, b, k):
            if k < E.get((a, b), 10 ** 9):
                E[(a, b)] = k
        for c in T:
            m = re.match(r"^([\w.@\[\]]+) (<|<=|>=|==) ([\w.@\[\]]+)$", c)
            if not m:
                continue
            a, op, b = m.groups()
            if op in ("<", "<=", "=="):
                add(a, b, -1 if op == "<" else 0)
            if op in (">=", "=="):
                add(b, a, 0)
        for n in {x for e in list(E) for x in e}:
            if num(n):
                for k in {x for e in list(E) for x in e}:
                    if num(k) and int(n) < int(k):
                        add(n, k, int(n) - int(k))
        return E

    def reachable(T, a):
        E = edges(T)
        d = {a: 0}
        for _ in range(12):
            ch = False
            for (x, y), k in E.items():
                if x in d and d[x] + k < d.get(y, 10 ** 9) and d[x] + k > -6:
                    d[y] = d[x] + k
                    ch = True
            if not ch:
                break
        return d
    for c in sorted(S, key=lambda c: ("==" in c, "@" in c, "VF_N" in c, c)):
        m = re.match(r"^([\w.\[\]]+) (<|<=|>=) ([\w.@\[\]]+)$", c)
        if m:
            a, op, b = m.groups()
            if op == ">=":
                a, b = b, a
            d = reachable(S - {c}, a)
            if b in d and d[b] <= (-1 if op == "<" else 0):
                drop(c)
            continue
    # A == SIZE_MAX || A < B
    for c in sorted(S, key=lambda c: ("VF_N" not in c, c)):
        m = re.match(r"^([\w.]+) == SIZE_MAX \|\| ([\w.]+) < ([\w.@]+)$", c)
        if not m or m.group(1) != m.group(2):
            continue
        a, b = m.group(1), m.group(3)
        d = reachable(S, a)
        if b in d and d[b] <= -1:
            drop(c)
            continue
        for e in S - {c}:
            n = re.match(r"^([\w.]+) == SIZE_MAX \|\| ([\w.]+) < ([\w.@]+)$", e)
            if n and n.group(1) == a and b in reachable(S, n.group(3)) and reachable(S, n.group(3))[b] <= 0:
                drop(c)
                break
    return [c for c in cs if c in S]


if __name__ == "__main__":
    for p in sys.argv[1:]:
        r = json.load(open(p))
        loops = {}
        for l, c in r:
            loops.setdefault(l, []).append(c)
        out = [[l, c] for l, cs in loops.items() for c in reduce(cs)]
        print(p, len(r), "->", len(out))
        open(p, "w").write("[\n" + ",\n".join(json.dumps(x) for x in out) + "\n]\n")
