"""C07: known facets or vertices do not change the result."""
import os
from . import core, fe, sym, geometry as g, pool as pl, c04, c08
from .core import Job


def plans(ctx, items, scales, shift, length):
    cfg = "CONSTANTS Items={%s} Scales={%s} MaxShift=%d MaxLen=%d\nINIT Init\nNEXT Next\nINVARIANT PlanWellFormed\nCHECK_DEADLOCK FALSE\n" % (
        ",".join(map(str, items)), ",".join(map(str, scales)), shift, length)
    dump = os.path.join(ctx.sub("plans"), "p")
    core.tlc_model(ctx, "KnownData", cfg, name="KnownPlans", args=["-dump", dump])
    return [s["plan"] for s in g.dump_states(dump + ".dump") if s["plan"]]


def rows_of(plan, result, eqs):
    out = []
    for k, s, e in plan:
        r = [s * x for x in result[(k - 1) % len(result)]]
        if eqs:
            q = eqs[k % len(eqs)]
            r = [x + e * y for x, y in zip(r, q)]
        out.append(r)
    return out


def random_plan(rng, n, scales=(1, 1, 2, 3), shifts=(0, 0, 1, -1, 2)):
    m = rng.choice([1, 1, 2, 3, n, n, n + 2])
    items = [rng.randint(1, n) for _ in range(m)] if rng.random() < .5 else rng.sample(range(1, n + 1), min(m, n))
    return [(k, rng.choice(scales), rng.choice(shifts)) for k in items]


def known_facets_text(rng, rows, named):
    n = len(rows[0])
    names = sym.NAMES[:n - 1]
    t = "DIM=%d\n" % (n - 1) if rng.random() < .1 else ""
    t += rng.choice(["Inequalities", "Inequalities:", "INEQUALITY_SECTION"]) + "\n"
    for r in rows:
        if named and rng.random() < .7:
            t += (sym.constraint(r, names, "<=") if rng.random() < .7 else sym.constraint([-x for x in r], names, ">=")) + "\n"
        else:
            t += " ".join(map(str, r)) + "\n"
    return t


def known_vertices_text(rng, rows, plan):
    v = [(r, s) for r, (_, s, _) in zip(rows, plan) if r[-1]]
    w = [(r, s) for r, (_, s, _) in zip(rows, plan) if not r[-1]]

    def vert(r, s):
        return " ".join(g.frac(x, r[-1]) if s == 1 else "%d/%d" % (x, r[-1]) for x in r[:-1])
    secs = []
    if v:
        secs.append(rng.choice(["Vertices", "CONV_SECTION", "Vertices:"]) + "\n" + "".join(vert(r, s) + "\n" for r, s in v))
    if w:
        secs.append(rng.choice(["Rays", "CONE_SECTION"]) + "\n" + "".join(" ".join(str(x) for x in r[:-1]) + "\n" for r, s in w))
    rng.shuffle(secs)
    return "".join(secs)


def options(rng):
    m = rng.choice(["ad", "ad", "ad", "ad", "dd"])
    a = ["-m", m]
    if m == "ad" and rng.random() < .85:
        a += ["-t", str(rng.choice([1, 2, 3, 4, 6]))]
    if rng.random() < .12:
        a += ["-i", rng.choice(["64", "safe", "inf"])]
    if rng.random() < .12:
        a += ["-s", rng.choice(["lex_asc", "lex_desc", "nz_asc", "nz_desc", "rev"])]
    return a


def observe(j):
    m = j.meta
    if m["kind"] == "FE":
        n = len(m["gens"][0])
        eqs, ineqs, red = sym.parse_named(j.out, sym.NAMES[:n - 1]) if m["named"] else g.parse_fe(j.out) + (False,)
        return {"kind": "FE", "gens": m["gens"], "known": m["known"], "eqs": [list(e) for e in eqs], "ineqs": [list(e) for e in ineqs]}
    if m["kind"] == "VE":
        pts = g.parse_ve(j.out)
        return {"kind": "VE", "A": m["A"], "E": m["E"], "n": m["n"], "known": m["known"], "points": [list(g.prim(p)) for p in pts]}
    return dict(c08.observe(j), known=m["known"])


def decide(ctx, jobs, label):
    obs, owner = [], []
    for j in jobs:
        if j.failed():
            ctx.violation(fe.key_of(j) + ":known", "%s: no result (%s) %s\nknown data:\n%s" % (label, "time-out" if j.timeout else "status %s" % j.rc, j.err[-300:], j.known), j.files())
            continue
        try:
            o = observe(j)
        except g.ParseError as e:
            ctx.violation(fe.key_of(j) + ":known", "%s: unreadable output: %s" % (label, e), j.files())
            continue
        obs.append(o)
        owner.append(j)
    for k, v in sorted(core.judge(ctx, "JudgeKnown", obs, name=label).items()):
        j = owner[k]
        if "outside the domain" in v:
            raise core.CheckError("input outside the domain: %r" % (j.meta,))
        ctx.violation(fe.key_of(j) + ":known", "%s: %s\narguments %s\n%s\nknown data:\n%s" % (label, v[:600], j.args, j.text[:500], j.known), j.files())
    return len(obs)


def check(ctx):
    q = ctx.quick
    h = core.start_build(ctx)
    # theory: one true row suffices as a start
    gcfg = lambda d, hi, nv, nr: ("CONSTANTS Dim=%d Below=0 Hi=%d RayBelow=0 RayHi=1 MaxVertices=%d MaxRays=%d\nINIT Init\nNEXT Next\nINVARIANT AnyFacet\nCHECK_DEADLOCK FALSE\n" % (d, hi, nv, nr))
    ccfg = lambda d, mr, me: ("CONSTANTS Dim=%d Below=1 Hi=1 RhsBelow=1 RhsHi=1 MaxRows=%d MaxEqs=%d Box=TRUE\nINIT Init\nNEXT Next\nINVARIANT AnyRay\nCHECK_DEADLOCK FALSE\n" % (d, mr, me))
    core.tlc_model(ctx, "KnownFacetsSuffice", gcfg(2, 2, 4, 1) if q else gcfg(2, 2, 5, 2))
    if not q:
        core.tlc_model(ctx, "KnownFacetsSuffice", gcfg(3, 1, 6, 2), name="KnownFacetsSuffice3", timeout=900)
    core.tlc_model(ctx, "KnownVerticesSuffice", ccfg(2, 1, 1) if q else ccfg(2, 2, 1))
    P = plans(ctx, [1, 2, 3], [1, 2], 1, 2 if q else 3)
    ctx.log("%d plans" % len(P))
    cases = []
    for _ in range(350 if q else 4000):
        if ctx.rng.random() < .55:
            cases.append((fe.random_gens(ctx.rng, d=ctx.rng.choice([1, 2, 2, 3, 3, 4])), []))
        else:
            cases.append(sym.case(ctx.rng))
    cons = [fe.random_cons(ctx.rng) for _ in range(200 if q else 2500)]
    panda = core.Panda(ctx, core.wait_build(ctx, h))

    # results without known data (double description) are where the known rows come from;
    # whether they are true rows is decided by TLC
    base = []
    for gens, maps in cases:
        base.append(Job(g.gens_text(gens), ["-m", "dd", "-i", "64"], meta={"kind": "F", "gens": [list(x) for x in gens], "maps": maps}))
    for A, E in cons:
        base.append(Job(g.cons_text(A, E), ["-m", "dd", "-i", "64"], meta={"kind": "V", "A": [list(r) for r in A], "E": [list(r) for r in E], "n": len(A[0]), "maps": []}))
    panda.run(base)
    # vertex enumeration with maps
    extra = []
    for j in base:
        if j.meta["kind"] == "F" and j.meta["maps"] and not j.failed():
            try:
                eqs, ineqs = g.parse_fe(j.out)
            except g.ParseError:
                continue
            if ineqs and fe.pointed(ineqs, eqs):
                extra.append(Job(g.cons_text(ineqs, eqs), ["-m", "dd", "-i", "64"],
                                 meta={"kind": "V", "A": [list(r) for r in ineqs], "E": [list(r) for r in eqs], "n": len(j.meta["gens"][0]), "maps": j.meta["maps"]}))
    panda.run(extra)
    jobs, turn = [], 0
    shim = core.build_shim(ctx)
    sched = []
    for j in base + extra:
        if j.failed():
            continue
        m = j.meta
        try:
            eqs, res = g.parse_fe(j.out) if m["kind"] == "F" else ([], g.parse_ve(j.out))
        except g.ParseError:
            continue
        if m["kind"] == "V":
            res = [list(g.prim(p)) for p in res]
            if not any(p[-1] for p in res):
                continue       # an empty polyhedron
        if not res or max(abs(x) for r in res + eqs for x in r) > 2000:
            continue
        maps = m["maps"] if ctx.rng.random() < .9 else []
        todo = [random_plan(ctx.rng, len(res)) for _ in range(2 if q else 3)] + [P[(turn + k) % len(P)] for k in range(1 if q else 2)]
        turn += 2
        for p in todo:
            if m["kind"] == "F":
                named = bool(maps) or ctx.rng.random() < .3
                rows = rows_of(p, res, eqs)
                gens = m["gens"]
                meta = {"kind": "FSYM" if maps else "FE", "gens": gens, "maps": maps, "reduced": False, "known": rows, "named": named}
                v = [x for x in gens if x[-1]]
                r = [x for x in gens if not x[-1]]
                text = sym.gens_text(v + r, maps) if named else g.gens_text(v + r)
                known = known_facets_text(ctx.rng, rows, named)
            else:
                scaled = [(k, s, 0) for k, s, _ in p]
                rows = []
                for k, s, _ in p:
                    r = res[(k - 1) % len(res)]
                    rows.append([s * x for x in r] if not r[-1] else [s * x for x in r])
                meta = {"kind": "VSYM" if maps else "VE", "A": m["A"], "E": m["E"], "n": m["n"], "maps": maps, "reduced": False, "known": rows}
                text = sym.cons_text(m["A"], m["E"], maps) if maps or ctx.rng.random() < .3 else g.cons_text(m["A"], m["E"])
                known = known_vertices_text(ctx.rng, rows, scaled)
            job = Job(text, options(ctx.rng), known=known, meta=meta)
            jobs.append(job)
            if len(sched) < (150 if q else 3000) and ctx.rng.random() < .25:
                th = ctx.rng.choice([1, 2, 3, 4])
                sched.append(Job(text, ["-m", "ad", "-t", str(th)], known=known, meta=dict(meta, threads=th), env=pl.sched_env(shim, ctx.rng, True)))
    panda.run(jobs)
    ctx.log("ran %d with known data" % len(jobs))
    n = decide(ctx, jobs, "known")
    ctx.log("judged")
    panda.run(sched, merged=True)
    c04.judge_cli(ctx, sched, asynchronous=True, result=False)
    n += decide(ctx, [j for j in sched if j.rc is not None or j.timeout], "scheduled")
    ctx.count(runs=len(jobs), scheduled_runs=len(sched), judged=n, plans_enumerated_by_tlc=len(P), evaluations=len(jobs) + len(sched),
              with_maps=sum(1 for j in jobs if j.meta["maps"]), with_equations=sum(1 for j in jobs if j.meta.get("E")))
    ctx.sample({"input": jobs[-1].text, "known": jobs[-1].known, "args": jobs[-1].args, "output": jobs[-1].out})
    ctx.sample({"input": jobs[0].text, "known": jobs[0].known, "args": jobs[0].args, "output": jobs[0].out})
    ctx.assumptions.append("known rows are facets (vertices, rays) of the polyhedron; TLC refuses other inputs as outside the domain")
