"""Inputs with symmetry maps; parsing of named rows."""
import re
from fractions import Fraction as F
from . import geometry as g

NAMES = ["x", "y", "z", "u", "v", "w"]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def apply(M, v):
    return g.prim(tuple(dot(r, v) for r in M))


def closure(V, maps, limit=40):
    X = {g.prim(v) for v in V}
    todo = list(X)
    while todo:
        v = todo.pop()
        for M in maps:
            w = apply(M, v)
            if w not in X:
                X.add(w)
                todo.append(w)
        if len(X) > limit:
            return None
    return X


def transpose(M):
    return [list(c) for c in zip(*M)]


def random_maps(rng, k, nb):
    mats = []
    for _ in range(nb):
        p = list(range(k))
        rng.shuffle(p)
        M = [[0] * (k + 1) for _ in range(k + 1)]
        for i in range(k):
            M[i][p[i]] = 1
        M[k][k] = 1
        for i in range(k):
            if rng.random() < .25:
                M[i] = [-x for x in M[i]]
                M[i][k] = rng.choice([0, 1, 1, 2])
        if k >= 2 and rng.random() < .3:
            M = [[int(i == j) for j in range(k + 1)] for i in range(k + 1)]
            i, j = rng.sample(range(k), 2)
            if rng.random() < .5:
                M[i] = [0] * (k + 1)
                M[i][i], M[i][j], M[i][k] = -1, -1, 1
            else:
                M[i] = [0] * (k + 1)
                M[j] = [0] * (k + 1)
                M[i][j] = -1
                M[j][i], M[j][j] = 1, 1
        mats.append(M)
    return mats


def embed(rng, V, mats, e):
    """Affine embedding in e more coordinates; maps are chosen modulo the equations."""
    k = len(V[0]) - 1
    d = k + e
    lins = [[rng.choice([-2, -1, -1, 0, 1, 1, 2]) for _ in range(k)] + [rng.choice([0, 1, -1])] for _ in range(e)]
    den = [rng.choice([1, 1, 1, 2]) for _ in range(e)]
    perm = list(range(d))
    rng.shuffle(perm)                      # new coordinate i is old coordinate perm[i]
    inv = {perm[i]: i for i in range(d)}

    def lift(v):
        w = [F(x) for x in v[:k]] + [F(dot(l, v), q) for l, q in zip(lins, den)] + [F(v[k])]
        w = [w[perm[i]] for i in range(d)] + [w[d]]
        m = 1
        for x in w:
            m = m * x.denominator // g.gcd(m, x.denominator)
        return g.prim(tuple(int(x * m) for x in w))

    out = []
    for M in mats:
        rows = [None] * d + [[0] * d + [1]]
        for j in range(d):
            if j < k:
                row = [F(x) for x in M[j]]
            else:
                l = lins[j - k]
                row = [F(sum(l[a] * M[a][b] for a in range(k + 1)), den[j - k]) for b in range(k + 1)]
            full = [F(0)] * (d + 1)
            for b in range(k):
                full[inv[b]] = row[b]
            full[d] = row[k]
            if e and (rng.random() < .5 or any(x.denominator != 1 for x in full)):
                cands = []
                for t in range(e):
                    for c in (1, -1, F(1, 2), F(-1, 2)):
                        f2 = list(full)
                        f2[inv[k + t]] += c
                        for b in range(k):
                            f2[inv[b]] -= c * F(lins[t][b], den[t])
                        f2[d] -= c * F(lins[t][k], den[t])
                        if all(x.denominator == 1 for x in f2):
                            cands.append(f2)
                if cands:
                    full = rng.choice(cands)
            if any(x.denominator != 1 for x in full):
                return None
            rows[inv[j]] = [int(x) for x in full]
        out.append(rows)
    return [lift(v) for v in V], out


def case(rng, maxpts=12, dims=(1, 2, 2, 3), emb=(0, 0, 0, 1, 1, 2), rays=.25, seeds=4):
    """(gens, maps): a set of generators closed under the maps."""
    while True:
        k = rng.choice(dims)
        mats = random_maps(rng, k, rng.choice([1, 1, 2, 3]))
        V = {tuple(rng.randint(0, 2) for _ in range(k)) + (1,) for _ in range(rng.randint(1, seeds))}
        if rng.random() < .2:
            V |= {tuple(2 * rng.randint(0, 2) + 1 for _ in range(k)) + (2,)}
        if rng.random() < rays:
            V |= {tuple(rng.randint(0, 1) for _ in range(k)) + (0,)}
        V = {v for v in V if any(v)}
        V = closure(V, mats, maxpts)
        if V is None or not any(v[-1] for v in V):
            continue
        V = sorted(V)
        rng.shuffle(V)
        e = rng.choice(emb)
        r = embed(rng, V, mats, e)
        if r is None:
            continue
        gens, maps = r
        if max(abs(x) for v in gens for x in v) > 40 or max(abs(x) for M in maps for v in M for x in v) > 12:
            continue
        gens.sort(key=lambda v: v[-1] == 0)
        return [list(x) for x in gens], maps


def representatives(rng, gens, maps):
    """At least one member of every orbit."""
    out, left = [], [tuple(x) for x in gens]
    rng.shuffle(left)
    seen = set()
    for v in left:
        if v in seen and rng.random() < .9:
            continue
        out.append(list(v))
        seen |= closure([v], maps, 1000)
    out.sort(key=lambda v: v[-1] == 0)
    return out


def term(f, names):
    o = []
    for x, n in list(zip(f, names)) + [(f[-1], "")]:
        if x:
            o.append("%+d" % x if n == "" else ("+" if x > 0 else "-") + (str(abs(x)) if abs(x) != 1 else "") + n)
    return ("".join(o) or "0").lstrip("+")


def head(d, maps):
    names = NAMES[:d]
    t = "Names\n" + " ".join(names) + "\n"
    if maps:
        t += "Maps\n" + "".join(" ".join(term(r, names) for r in M[:-1]) + "\n" for M in maps)
    return t


def constraint(a, names, rel):
    l = " ".join(("+" if x > 0 else "-") + (str(abs(x)) if abs(x) != 1 else "") + n for x, n in zip(a, names) if x) or "0" + names[0]
    return "%s %s %d" % (l, rel, -a[-1])


def gens_text(gens, maps, reduced=False):
    d = len(gens[0]) - 1
    p = "Reduced " if reduced else ""
    t = head(d, maps) + p + "Vertices\n" + "".join(" ".join(g.frac(x, v[-1]) for x in v[:-1]) + "\n" for v in gens if v[-1])
    r = [v for v in gens if not v[-1]]
    if r:
        t += p + "Rays\n" + "".join(" ".join(map(str, v[:-1])) + "\n" for v in r)
    return t


def cons_text(A, E, maps, reduced=False):
    d = len(A[0]) - 1
    n = NAMES[:d]
    t = head(d, maps)
    if E:
        t += "Equations\n" + "".join(constraint(r, n, "=") + "\n" for r in E)
    return t + ("Reduced " if reduced else "") + "Inequalities\n" + "".join(constraint(r, n, "<=") + "\n" for r in A)


TOK = re.compile(r"([+-]?)\s*(\d*)\s*([A-Za-z_]\w*)$")


def parse_row(l, names):
    """One named constraint -> (row, relation)."""
    m = re.match(r"(.*?)(<=|>=|=)\s*([+-]?\d+)$", l.strip())
    if not m:
        raise g.ParseError("not a constraint: " + l)
    a = [0] * (len(names) + 1)
    a[-1] = -int(m.group(3))
    left = m.group(1).strip()
    if left and left != "0":
        for tok in re.sub(r"([+-])\s*", r" \1", left).split():
            t = TOK.match(tok)
            if not t:
                if re.match(r"[+-]?0$", tok):
                    continue
                raise g.ParseError("not a term: " + tok)
            if t.group(3) not in names:
                raise g.ParseError("unknown name: " + tok)
            c = int(t.group(2) or 1)
            a[names.index(t.group(3))] += -c if t.group(1) == "-" else c
    return tuple(a), m.group(2)


def parse_named(out, names):
    sec, res = None, {}
    for l in out.splitlines():
        l = l.strip()
        if not l:
            continue
        if l.endswith(":"):
            sec = l[:-1]
            if sec in res:
                raise g.ParseError("section %s twice" % sec)
            res[sec] = []
        elif sec is None:
            raise g.ParseError("row before any section: " + l)
        else:
            a, rel = parse_row(l, names)
            if rel != ("=" if sec == "Equations" else "<="):
                raise g.ParseError("relation of " + l)
            res[sec].append(a)
    if set(res) - {"Equations", "Inequalities", "Reduced Inequalities"}:
        raise g.ParseError("unexpected section %s" % set(res))
    return res.get("Equations", []), res.get("Inequalities", res.get("Reduced Inequalities", [])), "Reduced Inequalities" in res
