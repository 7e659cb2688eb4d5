"""Facet enumeration: inputs, observation of the output, judgement by TLC."""
import os
from . import core, geometry as g
from .core import Job

LIM = 2**31 - 1


# ------------------------------------------------------------------ inputs
def universe(ctx, dim, hi, nv, nr, below=0, rbelow=0, rhi=1, invariants=True, name=None):
    """All descriptions over a finite pool, visited (and the theory checked) by TLC."""
    inv = "INVARIANTS RankAgrees FacetsAreFacets OneAtInfinity Biduality\n" if invariants else ""
    cfg = ("CONSTANTS Dim=%d Below=%d Hi=%d RayBelow=%d RayHi=%d MaxVertices=%d MaxRays=%d\nINIT Init\nNEXT Next\n%sCHECK_DEADLOCK FALSE\n"
           % (dim, below, hi, rbelow, rhi, nv, nr, inv))
    d = ctx.sub("universe")
    dump = os.path.join(d, "u%d-%d-%d-%d" % (dim, hi, nv, nr))
    core.tlc_model(ctx, "GeneratorUniverse", cfg, name=name or "GeneratorUniverse%d" % dim, args=["-dump", dump])
    out = []
    for s in g.dump_states(dump + ".dump"):
        if s["verts"]:
            out.append([tuple(v) + (1,) for v in s["verts"]] + [tuple(v) + (0,) for v in s["rays"]])
    os.unlink(dump + ".dump")
    return out


def random_gens(rng, d=None, extra=4):
    d = d or rng.choice([2, 3, 3, 4])
    hi = rng.choice([1, 1, 2, 3])
    lo = rng.choice([0, 0, -1, -hi])
    nv = rng.randint(1, d + extra)
    nr = rng.choice([0, 0, 1, 2, 3])
    style = rng.random()
    V = set()
    for _ in range(nv):
        v = [rng.randint(lo, hi) for _ in range(d)]
        h = 1
        if style < .2:
            h = rng.choice([1, 2, 3])
        elif style < .35 and d > 2:      # on a hyperplane: equations
            v[-1] = v[0] + v[1] - 1
        V.add(g.prim(tuple(v) + (h,)))
    R = set()
    for _ in range(nr):
        v = [rng.randint(min(lo, 0), hi) for _ in range(d)]
        if .2 <= style < .35 and d > 2:
            v[-1] = v[0] + v[1]
        if any(v):
            R.add(g.prim(tuple(v) + (0,)))
    V, R = sorted(V), sorted(R)
    rng.shuffle(V)
    rng.shuffle(R)
    return V + R


def ve_universe(ctx, dim, mr, me, below=1, hi=1, rb=1, rh=1, box=True, invariants=True, name=None):
    cfg = ("CONSTANTS Dim=%d Below=%d Hi=%d RhsBelow=%d RhsHi=%d MaxRows=%d MaxEqs=%d Box=%s\nINIT Init\nNEXT Next\n%sCHECK_DEADLOCK FALSE\n"
           % (dim, below, hi, rb, rh, mr, me, "TRUE" if box else "FALSE", "INVARIANTS Weyl ExtremeAreIrredundant\n" if invariants else ""))
    d = ctx.sub("universe")
    dump = os.path.join(d, "v%d-%d-%d-%d" % (dim, hi, mr, me))
    core.tlc_model(ctx, "ConstraintUniverse", cfg, name=name or "ConstraintUniverse%d" % dim, args=["-dump", dump])
    out = []
    for s in g.dump_states(dump + ".dump"):
        if s["rows"] and pointed(s["rows"], s["eqs"]):
            out.append(([tuple(r) for r in s["rows"]], [tuple(r) for r in s["eqs"]]))
    os.unlink(dump + ".dump")
    return out


def pointed(A, E):
    n = len(A[0])
    return rank([list(r) for r in A] + [list(r) for r in E] + [[0] * (n - 1) + [-1]]) == n


def random_cons(rng):
    """Rows with a.(x,1) <= 0 and equations of a pointed description."""
    while True:
        d = rng.choice([1, 2, 2, 3, 3, 4])
        hi = rng.choice([1, 1, 2, 3])
        ni = rng.randint(1, d + 4)
        ne = rng.choice([0, 0, 0, 1])
        inside = rng.random() < .6         # keep the origin feasible: a non-empty polyhedron
        A = []
        for _ in range(ni):
            r = [rng.randint(-hi, hi) for _ in range(d)]
            if not any(r) and rng.random() < .9:
                continue
            b = -rng.randint(0, 3) if inside else rng.randint(-3, 2)
            if not any(r) and b > 0:
                continue
            A.append(tuple(r) + (b,))
        if rng.random() < .6:
            A += [tuple(-1 if i == j else 0 for i in range(d + 1)) for j in range(d)]
        E = []
        for _ in range(ne):
            r = [rng.randint(-hi, hi) for _ in range(d)]
            if any(r):
                E.append(tuple(r) + (0 if inside else rng.randint(-2, 2),))
        if rng.random() < .2 and A:        # duplicates and multiples
            r = rng.choice(A)
            A.append(tuple(2 * x for x in r) if rng.random() < .5 else r)
        rng.shuffle(A)
        if A and pointed(A, E):
            return A, E


def zero_one(rng, d, n):
    V = set()
    while len(V) < n:
        V.add(tuple(rng.randint(0, 1) for _ in range(d)) + (1,))
    V = sorted(V)
    rng.shuffle(V)
    return V


# --- closed forms: the driver's copy of Realise (TLC compares it with its own)
def realise(t):
    op = t["op"]
    if op == "simplex":
        d = t["d"]
        return [tuple([0] * d + [1])] + [tuple([int(i == k) for i in range(d)] + [1]) for k in range(d)]
    if op == "cyclic":
        return [tuple([(k - t["o"]) ** e for e in range(1, t["d"] + 1)] + [1]) for k in range(1, t["n"] + 1)]
    if op == "cross":
        return [tuple([0 if x != k // 2 else (1 if k % 2 == 0 else -1) for x in range(t["d"])] + [1]) for k in range(2 * t["d"])]
    A = realise(t["a"])
    if op == "redundant":
        return A + [tuple(sum(A[x - 1][c] for x in s) for c in range(len(A[0]))) for s in t["s"]]
    if op == "orthant":
        k = t["k"]
        p = len(A[0]) - 1
        return [a[:p] + (0,) * k + (a[p],) for a in A] + [(0,) * p + tuple(int(i == j) for i in range(k)) + (0,) for j in range(k)]
    B = realise(t["b"])
    p, q = len(A[0]) - 1, len(B[0]) - 1
    if op == "product":
        return [tuple(x * b[q] for x in a[:p]) + tuple(x * a[p] for x in b[:q]) + (a[p] * b[q],) for a in A for b in B]
    if op == "freesum":
        return [a[:p] + (0,) * q + (a[p],) for a in A] + [(0,) * p + b for b in B]
    if op == "join":
        return [a[:p] + (0,) * q + (0, a[p]) for a in A] + [(0,) * p + b[:q] + (b[q], b[q]) for b in B]
    raise ValueError(op)


S = lambda d: {"op": "simplex", "d": d}
C = lambda n, d, o=1: {"op": "cyclic", "n": n, "d": d, "o": o}
X = lambda d: {"op": "cross", "d": d}
P = lambda a, b: {"op": "product", "a": a, "b": b}
FS = lambda a, b: {"op": "freesum", "a": a, "b": b}
J = lambda a, b: {"op": "join", "a": a, "b": b}
O = lambda a, k: {"op": "orthant", "a": a, "k": k}


def redundant(rng, a, m, big=False):
    """m redundant points with random supports (sums of generators that are points)."""
    A = realise(a)
    pts = [i + 1 for i, x in enumerate(A) if x[-1]]
    s, seen = [], set(g.prim(x) for x in A)
    tries = 0
    while len(s) < m and tries < 40 * m:
        tries += 1
        k = rng.randint(2, min(len(pts), rng.choice([2, 2, 3, 8])))
        c = [rng.choice(pts) for _ in range(k + rng.choice([0, 0, 1, 3, 7]) * (4 if big else 1))]
        if rng.random() < .5:
            sub = rng.sample(pts, k)
            c = [rng.choice(sub) for _ in c]
        r = g.prim(tuple(sum(A[x - 1][j] for x in c) for j in range(len(A[0]))))
        if r in seen:
            continue
        seen.add(r)
        s.append(c)
    return {"op": "redundant", "a": a, "s": s}


def transform(rng, gens, embed=False):
    """Random unimodular affine map (and optionally an embedding in one more dimension)."""
    n = len(gens[0])
    d = n - 1
    rows = [[int(i == j) for j in range(n)] for i in range(n)]
    order = list(range(d))
    rng.shuffle(order)
    M = [rows[i] for i in order]
    for _ in range(rng.randint(0, 2)):
        if d >= 2:
            a, b = rng.sample(range(d), 2)
            s = rng.choice([-1, 1])
            M[a] = [x + s * y for x, y in zip(M[a], M[b])]
    for i in range(d):
        if rng.random() < .3:
            M[i] = [-x for x in M[i]]
        if rng.random() < .5:
            M[i] = M[i][:-1] + [M[i][-1] + rng.randint(-2, 2)]
    if embed:
        e = [0] * n
        for j in range(d):
            e[j] = rng.choice([0, 1, -1])
        e[-1] = rng.randint(-1, 1)
        M.insert(rng.randrange(len(M) + 1), e)
    return M + [rows[-1]]


def alg_case(rng, term, plain=False, polar=False):
    G0 = realise(term)
    perm = list(range(1, len(G0) + 1))
    rng.shuffle(perm)
    perm.sort(key=lambda k: G0[k - 1][-1] == 0)    # the file lists vertices first
    pos = [0] * len(perm)
    for k, x in enumerate(perm):
        pos[x - 1] = k + 1
    m = {"kind": "ALG", "term": term, "perm": perm, "pos": pos}
    if polar:
        # rows x.y <= t for the points x, the origin moved to a convex combination of some of them:
        # the extreme rays of this cone are the facets of the term
        gens = [G0[k - 1] for k in perm]
        n = len(gens[0])
        sub = rng.sample(gens, min(len(gens), rng.choice([1, 2, n - 1, n, n + 2, n + 2, n + 4])))
        c = [sum(v[j] for v in sub) for j in range(n)]
        T = [[(c[-1] if i == j else 0) for j in range(n)] for i in range(n)]
        for i in range(n - 1):
            T[i][-1] -= c[i]
        T[-1][-1] = -1
        m["T"] = T
        m["gens"] = [[sum(a * b for a, b in zip(r, v)) for r in T] for v in gens]
        m["polar"] = True
        return m
    gens = [G0[k - 1] for k in perm]
    if not plain:
        T = transform(rng, gens, embed=rng.random() < .25)
        gens2 = [tuple(sum(a * b for a, b in zip(r, v)) for r in T) for v in gens]
        if max(abs(x) for v in gens2 for x in v) < 10**6:
            m["T"], gens = T, gens2
    m["gens"] = [list(v) for v in gens]
    return m


# ------------------------------------------------------------- observation
def observe(case, out):
    """Project the printed result on the vocabulary of the specification."""
    gens = [tuple(v) for v in case["gens"]]
    n = len(gens[0])
    eqs, ineqs = ([], g.parse_ve(out)) if case.get("polar") else g.parse_fe(out)
    if any(len(r) != n for r in eqs + ineqs):
        return None, "row of wrong length"
    if case.get("kind") == "ALG" or "sign" in case:
        tights, invalid = [], 0
        for r in ineqs:
            s = g.signs(r, gens)
            invalid += any(x > 0 for x in s)
            tights.append([i + 1 for i, x in enumerate(s) if x == 0])
    if case.get("kind") == "ALG":
        o = {k: case[k] for k in ("kind", "term", "perm", "pos", "gens", "T") if k in case}
        o.update(tights=tights, invalid=invalid, eqs=[list(e) for e in eqs], badeq=sum(any(g.signs(e, gens)) for e in eqs))
        return o, None
    mx = max(abs(x) for v in gens for x in v)
    mr = max([abs(x) for r in eqs + ineqs for x in r] + [1])
    if n * mx * mr <= LIM // 2:
        return {"kind": "FE", "gens": [list(v) for v in gens], "eqs": [list(e) for e in eqs], "ineqs": [list(e) for e in ineqs]}, None
    tights, invalid = [], 0
    for r in ineqs:
        s = g.signs(r, gens)
        invalid += any(x > 0 for x in s)
        tights.append([i + 1 for i, x in enumerate(s) if x == 0])
    return {"kind": "SIGN", "gens": [list(v) for v in gens], "tights": tights, "invalid": invalid,
            "badeq": sum(any(g.signs(e, gens)) for e in eqs), "neq": len(eqs), "eqrank": rank(eqs)}, None


def observe_ve(case, out):
    pts = g.parse_ve(out)
    if any(len(p) != case["n"] for p in pts):
        return None, "row of wrong length"
    return {"kind": "VE", "A": case["A"], "E": case["E"], "n": case["n"], "points": [list(g.prim(p)) for p in pts]}, None


def rank(M):
    from fractions import Fraction as F
    M = [[F(x) for x in r] for r in M]
    r = 0
    for c in range(len(M[0]) if M else 0):
        p = next((i for i in range(r, len(M)) if M[i][c]), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        for i in range(r + 1, len(M)):
            f = M[i][c] / M[r][c]
            M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        r += 1
    return r


def decide(ctx, jobs, label, **kw):
    """Jobs carry meta={'gens':..., ...}; TLC judges every output, failures are reported."""
    obs, owner = [], []
    for j in jobs:
        if j.failed():
            ctx.violation(key_of(j), "%s: no result (%s) %s" % (label, "time-out" if j.timeout else "status %s" % j.rc, j.err[-300:]), j.files())
            continue
        try:
            o, e = (observe_ve if "A" in j.meta else observe)(j.meta, j.out)
        except g.ParseError as x:
            o, e = None, "unreadable output: %s" % x
        if e:
            ctx.violation(key_of(j), "%s: %s" % (label, e), j.files())
            continue
        obs.append(o)
        owner.append(j)
    bad = core.judge(ctx, "JudgeGeometry", obs, name=label, **kw)
    for i, v in sorted(bad.items()):
        j = owner[i]
        if "outside the domain" in v:
            raise core.CheckError("input outside the domain: %r" % (j.meta,))
        if "driver and specification disagree" in v:
            raise core.CheckError("realise() differs from Realise: %r" % (j.meta,))
        ctx.violation(key_of(j), "%s: %s\narguments %s\n%s" % (label, v[:600], j.args, j.text[:600] if isinstance(j.text, str) else ""), j.files())
    return bad


def key_of(j):
    import hashlib
    t = j.text if isinstance(j.text, bytes) else (j.text or "").encode()
    k = j.known if isinstance(j.known, bytes) else (j.known or "").encode()
    return hashlib.sha1(b"\0".join([t, " ".join(j.args).encode(), k])).hexdigest()[:16]


def nontrivial(gens):
    return len(gens) > len(gens[0])
