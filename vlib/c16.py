"""C16: what is printed denotes exactly the rows, and reads back to the same polyhedron."""
import os, re
from . import core, fe, geometry as g, sym
from .core import Job
from .integers import num, BASE, execute

LIMITS = {"16": 2**15, "32": 2**31, "64": 2**63, "safe": 2**63, "inf": 10**40}
NAMESETS = [["x", "y", "z", "u", "v"], ["x1", "x11", "x111", "x2", "x12"], ["a_b", "a", "b", "A", "B_1"], ["xy", "x", "y", "yx", "xyx"]]
LEX = re.compile(r"(?P<gap>[ \t]+)|(?P<num>\d+)|(?P<rel><=|>=|=)|(?P<sign>[+-])|(?P<slash>/)|(?P<name>[A-Za-z_]\w*)|(?P<junk>.)")


def tokens(line, names=()):
    out = []
    for m in LEX.finditer(line):
        k, v = m.lastgroup, m.group()
        if k == "num":
            v = num(int(v))["mag"]
        elif k == "name":
            if v in names:
                v = list(names).index(v) + 1
            else:
                k = "junk"
        out.append({"k": k, "v": v})
    return out


def theory(ctx):
    for n, hi in ([(4, 3)] if ctx.quick else [(4, 4), (5, 3), (6, 2)]):
        core.tlc_model(ctx, "PrintingUniverse", "CONSTANTS Length=%d Below=%d Hi=%d Base=3\nINIT Init\nNEXT Next\nINVARIANT ReadsBack\nCHECK_DEADLOCK FALSE\n" % (n, hi - 1, hi))


def universe(ctx, n, below, hi):
    dump = os.path.join(ctx.sub("rows"), "r%d" % n)
    core.tlc_model(ctx, "PrintingUniverse", "CONSTANTS Length=%d Below=%d Hi=%d Base=%d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" % (n, below, hi, BASE), name="PrintingRows%d" % n, args=["-dump", dump])
    return [s["row"] for s in g.dump_states(dump + ".dump")]


def entry(rng, t):
    top = LIMITS[t]
    r = rng.random()
    if r < .25:
        return rng.randint(-2, 2)
    if r < .5:
        b = rng.choice([8, 15, 16, 31, 32, 33, 63, 64, 65, 128])
        x = rng.choice([-1, 1]) * (2**b + rng.randint(-2, 2))
    elif r < .7:
        x = rng.choice([-1, 1]) * (10**rng.randint(1, 39) + rng.choice([-1, 0, 0, 1]))
    else:
        x = rng.randint(-top, top)
    return max(-top + 1, min(top - 1, x))


def row_cases(ctx, rng):
    cases = []
    kinds = ["named<=", "named=", "plain", "frac"]
    for n, lo, hi in ([(3, 2, 2), (4, 1, 2)] if ctx.quick else [(2, 12, 12), (3, 4, 4), (4, 2, 2), (5, 1, 1)]):
        for r in universe(ctx, n, lo, hi):
            for k in kinds if n == 3 or not ctx.quick else [rng.choice(kinds)]:
                cases.append((rng.choice(list(LIMITS)), k, rng.choice(NAMESETS)[:n - 1], r))
    for _ in range(1500 if ctx.quick else 30000):
        n = rng.randint(1, 6)
        t = rng.choice(list(LIMITS))
        cases.append((t, rng.choice(kinds), rng.choice(NAMESETS)[:n - 1], [entry(rng, t) for _ in range(n)]))
    return [c for c in cases if not (c[1] == "frac" and (c[3][-1] == 0 or len(c[3]) < 2)) and not (c[1].startswith("named") and (len(c[3]) < 2 or not any(c[3][:-1])))]


def judge_rows(ctx, exe, cases):
    lines = ["%s %s %s %s" % (t, k, ",".join(n) if k.startswith("named") else "-", " ".join(map(str, r))) for t, k, n, r in cases]
    obs, owner = [], []
    for c, l, a in zip(cases, lines, execute(ctx, exe, lines)):
        if a == "":
            continue
        t, k, n, r = c
        if a is None:
            ctx.violation(l, "no answer for %s" % l, {"request.txt": l})
            continue
        o = {"kind": k.rstrip("<="), "row": [num(x) for x in r], "tokens": tokens(a, n if k.startswith("named") else ())}
        if o["kind"] == "named":
            o["rel"] = k[5:]
        obs.append(o)
        owner.append((l, a))
    for k, v in sorted(core.judge(ctx, "JudgePrinting", obs, name="rows", consts="CONSTANT Base = %d" % BASE).items()):
        ctx.violation(owner[k][0], "%s: asked for %s, printed %r" % (v, *owner[k]), {"request.txt": owner[k][0], "printed.txt": owner[k][1]})
    ctx.count(rows_written=len(obs))
    ctx.sample({"request": owner[-1][0], "printed": owner[-1][1]})


# ------------------------------------------------------------- whole runs
def sections(out):
    """The listing of adjacency decomposition (homogeneous rows) as the two sections of an input file."""
    if "Vertices / Rays:" not in out:
        return out
    v, r = [], []
    for p in g.parse_ve(out):
        (v if p[-1] else r).append(p)
    t = ""
    if v:
        t += "Vertices:\n" + "".join(" ".join(g.frac(x, p[-1]) for x in p[:-1]) + "\n" for p in v)
    if r:
        t += "Rays:\n" + "".join(" ".join(map(str, p[:-1])) + "\n" for p in r)
    return t


def args(rng, types=("32", "64", "safe", "inf", None)):
    m = rng.choice(["dd", "ad"])
    a = ["-m", m] + (["-t", str(rng.choice([1, 2, 4]))] if m == "ad" else [])
    t = rng.choice(types)
    return a + (["-i", t] if t else [])


def parse_rows(out, names):
    return sym.parse_named(out, names)[:2] if names else g.parse_fe(out)


def fits(rows):
    return all(abs(x) < 2**31 for r in rows for x in r)


def trips(ctx, panda, rng, small, large):
    """First runs; returns second jobs with everything needed to judge them."""
    first = []
    for G, big in [(x, False) for x in small["V"]] + [(x, True) for x in large["V"]]:
        d = len(G[0]) - 1
        names = rng.choice(NAMESETS)[:d] if rng.random() < .6 and d <= 5 else None
        first.append(Job(g.gens_text(G, "Names:\n%s\n" % " ".join(names) if names else ""), args(rng, ("64", "inf") if not big else ("inf",)),
                         meta={"way": "VFV", "gens": G, "names": names, "big": big}))
    for (A, E), big in [(x, False) for x in small["F"]] + [(x, True) for x in large["F"]]:
        first.append(Job(g.cons_text(A, E), args(rng, ("64", "inf") if not big else ("inf",)), meta={"way": "FVF", "A": A, "E": E, "names": None, "big": big}))
    panda.run(first, timeout=30)
    second = []
    for j in first:
        m = j.meta
        if j.failed():
            ctx.violation(fe.key_of(j), "no result (%s) %s" % (j.rc, j.err[-300:]), j.files())
            continue
        try:
            if m["way"] == "VFV":
                m["eqs"], m["ineqs"] = parse_rows(j.out, m["names"])
                rows = m["eqs"] + m["ineqs"]
                # whole spaces and single points have no facets, lines have no vertices: outside the domain
                if not m["ineqs"] or not fits(rows) or not fe.pointed(m["ineqs"], m["eqs"]) or any(not any(r[:-1]) for r in rows):
                    continue
                text = ("Names:\n%s\n" % " ".join(m["names"]) if m["names"] else "") + j.out
            else:
                m["points"] = [list(g.prim(p)) for p in g.parse_ve(j.out)]
                if not any(p[-1] for p in m["points"]) or not fits(m["points"]):
                    continue
                text = sections(j.out)
        except g.ParseError as e:
            ctx.violation(fe.key_of(j), "unreadable output: %s" % e, j.files())
            continue
        second.append(Job(text, args(rng, ("64", "inf") if not m["big"] else ("inf",)), meta=dict(m, first=j)))
    panda.run(second, timeout=30)
    obs, wide = [], []
    for j in second:
        m = j.meta
        files = dict(j.files(), **{"first_" + k: v for k, v in m["first"].files().items()})
        if j.failed():
            ctx.violation(fe.key_of(j), "the printed description is not accepted as input (%s) %s\n%s" % (j.rc, j.err[-300:], j.text[:600]), files)
            continue
        try:
            if m["way"] == "VFV":
                n = len(m["gens"][0])
                pts = [list(g.prim(p)) for p in g.parse_ve(j.out)]
                if any(len(p) != n for p in pts):
                    raise g.ParseError("row of wrong length")
                if m["big"]:
                    wide.append((j, {"kind": "FE", "gens": lift(m["gens"]), "eqs": lift(m["eqs"]), "rows": lift([g.prim(r) for r in m["ineqs"]])}))
                    if not m["eqs"]:
                        wide.append((j, {"kind": "VE", "gens": lift(m["ineqs"]), "eqs": [], "rows": lift(pts)}))
                else:
                    obs.append((j, {"kind": "VFV", "gens": [list(x) for x in m["gens"]], "eqs": m["eqs"], "ineqs": m["ineqs"], "points": pts}))
            else:
                n = len(m["A"][0])
                eqs, ineqs = g.parse_fe(j.out)
                if any(len(p) != n for p in eqs + ineqs):
                    raise g.ParseError("row of wrong length")
                if m["big"]:
                    wide.append((j, {"kind": "VE", "gens": lift(m["A"]), "eqs": [], "rows": lift(m["points"])}))
                    wide.append((j, {"kind": "FE", "gens": lift(m["points"]), "eqs": lift(eqs), "rows": lift([g.prim(r) for r in ineqs])}))
                else:
                    obs.append((j, {"kind": "FVF", "A": m["A"], "E": m["E"], "n": n, "points": m["points"], "eqs": eqs, "ineqs": ineqs}))
        except g.ParseError as e:
            ctx.violation(fe.key_of(j), "unreadable output: %s" % e, files)
    for j, o in wide:
        o.update(type="inf", ok=True, hang=False, perms=[], excused=False)
    small_obs = [(j, o) for j, o in obs if core_small(o)]
    for module, pairs, consts in (("JudgeRoundTrip", small_obs, ""), ("JudgeLarge", wide, "CONSTANT Base = %d" % BASE)):
        for k, v in sorted(core.judge(ctx, module, [o for _, o in pairs], consts=consts).items()):
            j = pairs[k][0]
            if "outside the domain" in v:
                raise core.CheckError("input outside the domain: %r" % (j.meta,))
            ctx.violation(fe.key_of(j) + j.meta["way"], "%s: %s\n%s\n---- printed:\n%s" % (j.meta["way"], v[:500], j.meta["first"].text[:500], j.meta["first"].out[:500]),
                          dict(j.files(), **{"first_" + n: c for n, c in j.meta["first"].files().items()}))
    ctx.count(round_trips=len(small_obs), round_trips_with_large_coefficients=len(wide), runs=len(first) + len(second))
    if second:
        ctx.sample({"input": second[0].meta["first"].text, "printed_and_read_again": second[0].text, "result": second[0].out})


def core_small(o):
    """No intermediate value of the judgement leaves TLC's 32 bits (Hadamard)."""
    gens = o["gens"] if o["kind"] == "VFV" else o["points"]
    n = len(gens[0])
    top = lambda rows: max([abs(x) for r in rows for x in r] + [1])
    had = lambda m: (m * m * n) ** (n / 2.0) * n
    return had(top(gens)) < 2**30 and (o["kind"] == "VFV" or had(top(o["A"] + o["E"])) < 2**30) and n * top(gens) * top(o["eqs"] + o["ineqs"]) < 2**30


def lift(M):
    return [[num(x) for x in r] for r in M]


# ------------------------------------------------- named and unnamed runs
def same(ctx, panda, rng, pool):
    pairs, obs, owner = [], [], []
    for G in pool:
        names = rng.choice(NAMESETS)[:len(G[0]) - 1]
        if len(names) < len(G[0]) - 1:
            continue
        t = rng.choice(["16", "32", "64", "safe", "inf"])
        m = rng.choice(["dd", "ad"])
        a = ["-m", m, "-i", t] + (["-t", "1"] if m == "ad" else [])
        pairs.append((Job(g.gens_text(G), a), Job(g.gens_text(G, "Names:\n%s\n" % " ".join(names)), a), names))
    panda.run([j for p in pairs for j in p[:2]])
    for a, b, names in pairs:
        if a.failed() or b.failed():
            ctx.violation(fe.key_of(b), "no result (%s, %s) %s" % (a.rc, b.rc, (a.err + b.err)[-300:]), b.files())
            continue
        try:
            rows, lines = g.parse(a.out), {}
            sec = None
            for l in b.out.splitlines():
                if l.strip().endswith(":"):
                    sec = l.strip()[:-1]
                    lines[sec] = []
                elif l.strip():
                    lines[sec].append(tokens(l, names))
            if set(rows) != set(lines):
                raise g.ParseError("sections differ")
            for s in rows:
                obs.append({"kind": "same", "n": len(names), "rel": "=" if s == "Equations" else "<=", "lines": lines[s], "rows": lift([[int(x) for x in r] for r in rows[s]])})
                owner.append((a, b))
        except (g.ParseError, ValueError, KeyError) as e:
            ctx.violation(fe.key_of(b), "unreadable output: %s" % e, b.files())
    for k, v in sorted(core.judge(ctx, "JudgePrinting", obs, name="same", consts="CONSTANT Base = %d" % BASE).items()):
        a, b = owner[k]
        ctx.violation(fe.key_of(b), "%s\n%s\n---- unnamed:\n%s\n---- named:\n%s" % (v, b.text[:400], a.out[:400], b.out[:400]), dict(b.files(), **{"unnamed_stdout.txt": a.out}))
    ctx.count(named_and_unnamed_runs=len(pairs), sections_compared=len(obs))


def check(ctx):
    q, rng = ctx.quick, ctx.rng
    h = core.start_build(ctx)
    theory(ctx)
    rows = row_cases(ctx, rng)
    U = fe.universe(ctx, 2, 2, 3, 1, invariants=False, name="V2") + ([] if q else fe.universe(ctx, 3, 1, 4, 1, invariants=False, name="V3"))
    W = fe.ve_universe(ctx, 2, 1, 1, invariants=False, name="F2")
    panda = core.Panda(ctx, core.wait_build(ctx, h))
    objs = [o for o in h["objs"] if not os.path.basename(o).startswith("main.")]
    exe = core.compile_harness(ctx, "printing", [os.path.join(core.HARNESS, "printing.cpp")], objs=objs, optional=True)
    if exe:
        judge_rows(ctx, exe, rows)
    nv = 500 if q else 4000
    small = {"V": rng.sample(U, min(len(U), nv)) + [fe.random_gens(rng) for _ in range(nv)], "F": rng.sample(W, min(len(W), nv)) + [fe.random_cons(rng) for _ in range(nv)]}
    small["V"] = [x for x in small["V"] if len(x) <= 9]
    small["F"] = [x for x in small["F"] if len(x[0]) <= 11]
    from . import c14
    large = {"V": [], "F": []}
    while len(large["V"]) < (60 if q else 800):
        G = c14.gens_case(rng, [])
        if G and len(G) <= 7 and max(abs(x) for v in G for x in v) < 10**5:
            large["V"].append(G)
    while len(large["F"]) < (60 if q else 800):
        A = c14.cons_case(rng)
        if A and len(A) <= 6:
            large["F"].append((A, []))
    trips(ctx, panda, rng, small, large)
    same(ctx, panda, rng, [x for x in small["V"] if len(x[0]) <= 6][:nv] if q else small["V"])
    ctx.assumptions.append("round trips: polyhedra with a facet and a vertex whose coefficients fit into the 32 bits of a literal; the listing 'Vertices / Rays' of adjacency decomposition is split into the two input sections by its last column")
