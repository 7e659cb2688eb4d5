"""C14: with large coefficients the result is exact, or (checked type) the failure is visible."""
from . import core, fe, sym, geometry as g
from .core import Job
from .integers import num, BASE

TOP = 2**31 - 1


def theory(ctx):
    for dim, hi, nv, nr in ([(2, 2, 3, 1)] if ctx.quick else [(2, 3, 4, 1), (3, 1, 4, 1), (1, 5, 4, 1)]):
        core.tlc_model(ctx, "LargeTheory", "CONSTANTS Dim=%d Below=0 Hi=%d RayBelow=0 RayHi=1 MaxVertices=%d MaxRays=%d\nINIT Init\nNEXT Next\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n" % (dim, hi, nv, nr), name="LargeTheory%d" % dim)


def big(rng, top):
    r = rng.random()
    if r < .2:
        return rng.choice([-1, 1]) * (top - rng.randint(0, 3))
    if r < .4:
        return rng.randint(-3, 3)
    return rng.randint(-top, top)


def prim(v):
    return g.prim(tuple(v))


def gens_case(rng, shapes):
    """Homogeneous generators with large entries: images of small shapes, or random points."""
    top = rng.choice([300, 10**4, 46341, 10**6, 10**8, TOP])
    if rng.random() < .5 and shapes:
        s = rng.choice(shapes)
        d = len(s[0]) - 1
        e = d + (1 if rng.random() < .3 and d < 4 else 0)
        m = max(abs(x) for v in s for x in v)
        M = [[big(rng, max(1, top // (m * (d + 1)))) for _ in range(d + 1)] for _ in range(e)]
        out = {prim([sum(a * b for a, b in zip(r, v)) for r in M] + [v[-1]]) for v in s}
    else:
        d = rng.choice([1, 2, 2, 3, 3, 4])
        out = set()
        for _ in range(rng.randint(1, d + 4 if d < 4 else 7)):
            out.add(prim([big(rng, top) for _ in range(d)] + [1]))
        for _ in range(rng.choice([0, 0, 1, 2])):
            r = [big(rng, top) for _ in range(d)]
            if any(r):
                out.add(prim(r + [0]))
        if d > 2 and rng.random() < .25:
            out = {prim((v[:-2] + (v[0], v[-1]))) for v in out}
    out = [v for v in out if any(v[:-1]) or v[-1]]
    v = sorted(x for x in out if x[-1])
    r = sorted(x for x in out if not x[-1])
    rng.shuffle(v)
    rng.shuffle(r)
    return (v + r) if v and all(abs(x) <= TOP for y in v + r for x in y) else None


def cons_case(rng):
    top = rng.choice([300, 10**4, 46341, 10**6, 10**8, TOP])
    d = rng.choice([1, 2, 2, 3, 3])
    A = set()
    for _ in range(rng.randint(d, d + 4)):
        a = [big(rng, top) for _ in range(d)]
        if any(a):
            A.add(prim(a + [-abs(big(rng, top)) or -1]))
    A = sorted(A)
    rng.shuffle(A)
    if not A or not fe.pointed(A, []):
        return None
    return A


def sym_case(rng):
    """Generators closed under permutations of the coordinates, with the map that permutes them."""
    d = rng.choice([2, 3, 3, 4])
    top = rng.choice([300, 46341, 10**6, 10**8, TOP // 4, TOP])
    p = list(range(d))
    if rng.random() < .6:
        p = p[1:] + p[:1]
    else:
        rng.shuffle(p)
    V = set()
    for _ in range(rng.choice([1, 1, 2, 3])):
        v = tuple(big(rng, top) for _ in range(d))
        for _ in range(12):
            V.add(v)
            v = tuple(v[k] for k in p)
    V = sorted(V)
    rng.shuffle(V)
    if len(V) > 8:
        return None
    pos = {v: i + 1 for i, v in enumerate(V)}
    perm = [pos[tuple(v[k] for k in p)] for v in V]
    text = "Names:\n%s\nMaps:\n%s\nVertices:\n%s" % (" ".join("x%d" % (i + 1) for i in range(d)), " ".join("x%d" % (k + 1) for k in p), "".join(" ".join(map(str, v)) + "\n" for v in V))
    return [v + (1,) for v in V], [perm], text, max(sum(abs(x) for x in v) for v in V)


def lift(M):
    return [[num(x) for x in r] for r in M]


def check(ctx):
    q, rng = ctx.quick, ctx.rng
    h = core.start_build(ctx)
    theory(ctx)
    shapes = [s for s in fe.universe(ctx, 2, 2, 3, 1, invariants=False, name="shapes") if 2 <= len(s) <= 5]
    jobs = []
    for _ in range(420 if q else 8000):
        G = gens_case(rng, shapes)
        if G is None or len(G) > 8:
            continue
        for t in ["inf", "safe"] if rng.random() < .5 else [rng.choice(["inf", "safe"])]:
            m = rng.choice(["dd", "ad"])
            jobs.append(Job(g.gens_text(G), ["-m", m, "-i", t] + (["-t", str(rng.choice([1, 3]))] if m == "ad" else []), meta={"kind": "FE", "gens": G, "type": t}))
    for _ in range(420 if q else 8000):
        A = cons_case(rng)
        if A is None:
            continue
        for t in ["inf", "safe"] if rng.random() < .5 else [rng.choice(["inf", "safe"])]:
            m = rng.choice(["dd", "ad"])
            jobs.append(Job(g.cons_text(A, []), ["-m", m, "-i", t] + (["-t", str(rng.choice([1, 3]))] if m == "ad" else []), meta={"kind": "VE", "gens": A, "type": t}))
    for _ in range(120 if q else 2500):
        c = sym_case(rng)
        if c is None:
            continue
        G, perms, text, size = c
        for t in ["inf", "safe"]:
            m = rng.choice(["dd", "ad"])
            jobs.append(Job(text, ["-m", m, "-i", t], meta={"kind": "FE", "gens": G, "type": t, "perms": perms, "excused": size > 10**4, "named": ["x%d" % (i + 1) for i in range(len(G[0]) - 1)]}))
    panda = core.Panda(ctx, core.wait_build(ctx, h))
    panda.run(jobs, timeout=30)
    ctx.log("ran %d" % len(jobs))
    obs, owner = [], []
    for j in jobs:
        m = j.meta
        o = {"kind": m["kind"], "type": m["type"], "gens": lift(m["gens"]), "ok": not j.failed(), "hang": bool(j.timeout), "eqs": [], "rows": [], "perms": m.get("perms", []), "excused": m.get("excused", False)}
        n = len(m["gens"][0])
        if o["ok"]:
            try:
                eqs, rows = sym.parse_named(j.out, m["named"])[:2] if "named" in m else g.parse_fe(j.out) if m["kind"] == "FE" else ([], g.parse_ve(j.out))
                if any(len(r) != n for r in eqs + rows):
                    raise g.ParseError("row of wrong length")
            except g.ParseError as e:
                ctx.violation(fe.key_of(j), "unreadable output: %s" % e, j.files())
                continue
            o.update(eqs=lift(eqs), rows=lift([g.prim(r) for r in rows]))
        elif j.rc == 0 or (not j.timeout and not j.err.strip()):
            ctx.violation(fe.key_of(j), "failure is not reported", j.files())
            continue
        obs.append(o)
        owner.append(j)
    for k, v in sorted(core.judge(ctx, "JudgeLarge", obs, name="large", consts="CONSTANT Base = %d" % BASE).items()):
        j = owner[k]
        if "outside the domain" in v:
            raise core.CheckError("input outside the domain: %r" % (j.meta,))
        ctx.violation(fe.key_of(j), "%s\narguments %s\n%s" % (v, j.args, j.text[:500]), j.files())
    ctx.count(evaluations=len(jobs), judged=len(obs), checked_type_failed_visibly=sum(1 for j in owner if j.failed() and j.meta["type"] == "safe"),
              checked_type_exact=sum(1 for j in owner if not j.failed() and j.meta["type"] == "safe"),
              distinct_inputs=len({j.text for j in jobs}))
    ctx.cov["largest_coefficient_bits"] = max([x.bit_length() for j, o in zip(owner, obs) for r in o["rows"] for x in [int("0" + "".join("%04d" % d for d in reversed(y["mag"]))) for y in r]] or [0])
    ctx.sample({"input": jobs[0].text, "args": jobs[0].args, "output": jobs[0].out[:600]})
    ctx.sample({"input": jobs[-1].text, "args": jobs[-1].args, "output": jobs[-1].out[:600]})
    ctx.assumptions.append("literals of the input fit into 32 bits (others are refused, see C10); up to 4 dimensions and 8 rows")
