"""C11: option --check accepts exactly valid maps and known data."""
import os, re
from . import core, geometry as g, sym
from .core import Job
from .c10 import message


def universe(ctx, dim, hi, points, maxmaps, maxpoints, rays, bases, sample, edits, name):
    dump = os.path.join(ctx.sub("check"), name)
    core.tlc_model(ctx, "CheckUniverse", "CONSTANTS Dim=%d Hi=%d Points=%d MaxMaps=%d MaxPoints=%d WithRays=%s Sample=%d MaxEdits=%d Bases={%s}\nINIT Init\nNEXT Next\nINVARIANTS BasesAccepted ByRank FittingMapsPermute\nCHECK_DEADLOCK FALSE\n"
                   % (dim, hi, points, maxmaps, maxpoints, "TRUE" if rays else "FALSE", sample, edits, ",".join(map(str, bases))), name=name, args=["-dump", dump, "-seed", str(ctx.seed)])
    return g.dump_states(dump + ".dump")


def lift(rng, s):
    """The same in one more coordinate and on a hyperplane."""
    t = lambda: rng.choice([0, 0, 1, -1, 2])
    def row(a):
        x = t()
        return a[:-1] + [x, a[-1] - x]
    point = lambda y: y[:-1] + [y[-1], y[-1]]
    o = dict(s)
    n = len(s["list"][0])
    if s["dir"] == "facets":
        o["list"], o["known"] = [point(y) for y in s["list"]], [row(a) for a in s["known"]]
        o["maps"] = [[r[:-1] + [0, r[-1]] for r in M[:-1]] + [[0] * (n - 1) + [1, 0], [0] * n + [1]] for M in s["maps"]]
        o["E"] = []
    else:
        o["list"], o["known"], o["maps"] = [row(a) for a in s["list"]], [point(y) for y in s["known"]], []
        o["E"] = [[0] * (n - 1) + [1, -1]]
    return o


def text(rng, s):
    d = len(s["list"][0]) - 1
    names = sym.NAMES[:d]
    L, out = s["list"], []
    if s["dir"] == "facets":
        out.append("Vertices\n" + "".join(" ".join(g.frac(x, v[-1]) for x in v[:-1]) + "\n" for v in L if v[-1]))
        if any(not v[-1] for v in L):
            out.append("Rays\n" + "".join(" ".join(map(str, v[:-1])) + "\n" for v in L if not v[-1]))
        known = "Inequalities\n" + "".join(rng.choice([lambda: " ".join(map(str, a)), lambda: sym.constraint(a, names, "<=")])() + "\n" for a in s["known"])
    else:
        out.append("Inequalities\n" + "".join(sym.constraint(r, names, "<=") + "\n" for r in L))
        if s["E"]:
            out.append("Equations\n" + "".join(sym.constraint(r, names, "=") + "\n" for r in s["E"]))
        k = s["known"]
        known = "Vertices\n" + "".join(" ".join(g.frac(x, v[-1]) for x in v[:-1]) + "\n" for v in k if v[-1]) if any(v[-1] for v in k) else ""
        if any(not v[-1] for v in k):
            known += "Rays\n" + "".join(" ".join(map(str, v[:-1])) + "\n" for v in k if not v[-1])
    if s["maps"]:
        out.append("Maps\n" + "".join(" ".join(sym.term(r, names) for r in M[:-1]) + "\n" for M in s["maps"]))
    rng.shuffle(out)
    return "Names\n%s\n" % " ".join(names) + "".join(out), known if s["known"] else None


def check(ctx):
    q, rng = ctx.quick, ctx.rng
    h = core.start_build(ctx)
    states = universe(ctx, 2, 2, 3, 2, 6, True, range(1, 121 if q else 401), 3 if q else 6, 2, "Check2")
    states += 2 * universe(ctx, 2, 2, 3, 3, 8, True, range(1, 601 if q else 3001), 1, 0, "Valid2")
    states += 2 * universe(ctx, 3, 1, 2, 2, 8, True, range(1, 121 if q else 301), 1, 0, "Valid3")
    if not q:
        states += universe(ctx, 3, 1, 3, 2, 8, True, range(1, 61), 3, 2, "Check3")
    states += universe(ctx, 1, 3, 2, 2, 4, True, range(1, 21), 4, 2, "Check1")
    panda = core.Panda(ctx, core.wait_build(ctx, h))
    states = [s for s in states if s["dir"] == "facets" or any(any(x) for x in s["list"])]
    limit = 7000 if q else 40000
    if len(states) > limit:
        states = rng.sample(states, limit)
    pairs = []
    for s in states:
        s = dict(s, E=[])
        if rng.random() < .15 and (s["dir"] == "facets" or not s["maps"]):
            s = lift(rng, s)
        t, known = text(rng, s)
        args = rng.choice([["-m", "ad", "-t", "1"], ["-m", "ad", "-t", "1", "-i", "64"], ["-m", "dd"], ["-m", "ad", "-t", "1", "-s", "lex_asc"]])
        flag = rng.choice(["-c", "--check"])
        pairs.append((Job(t, args + [flag], known=known, meta=s), Job(t, args, known=known)))
    panda.run([p[0] for p in pairs], timeout=10, retry=False)
    panda.run([p[0] for p in pairs if p[0].timeout][:8], timeout=40, retry=False)
    panda.run([b for a, b in pairs if a.rc == 0], timeout=3, retry=False)
    lines = lambda j: sorted(j.out.split("\n"))
    obs, slow = [], 0
    owner = []
    for a, b in pairs:
        s = a.meta
        slow += a.timeout
        if a.timeout and slow > 8:
            continue
        obs.append({"dir": s["dir"], "list": s["list"], "E": s["E"], "n": len(s["list"][0]), "maps": s["maps"], "known": s["known"], "timeout": a.timeout, "status": -1 if a.rc is None else a.rc,
                    "message": message(a), "rows": any(re.search(r"\d", l) for l in a.out.splitlines()), "same": a.rc != 0 or b.rc != 0 or lines(a) == lines(b)})
        owner.append(a)
    bad = core.judge(ctx, "JudgeCheck", obs)
    ctx.count(runs_with_check=len(obs), runs_accepted=sum(o["status"] == 0 for o in obs), runs_refused=sum(o["status"] != 0 for o in obs), evaluations=len(obs))
    ctx.sample({"input": owner[-1].text, "known": owner[-1].known, "status": owner[-1].rc})
    for k, v in sorted(bad.items()):
        j = owner[k]
        ctx.violation(key(j.meta), "%s\n%s%s\n%s" % (v, j.text, "known:\n" + j.known if j.known else "", (j.out + j.err)[:500]), j.files())
    ctx.assumptions.append("rows of a description are distinct up to scaling; maps of inequalities are used without equations; nothing is promised about the face at infinity as known facet, nor for polyhedra without vertices")


def key(s):
    return "%s list=%s E=%s maps=%s known=%s" % (s["dir"], s["list"], s["E"], s["maps"], s["known"])
