"""C08: one representative per orbit; reduced input stands for all images."""
import os
from . import core, fe, sym, geometry as g
from .core import Job


def observe(j):
    m = j.meta
    if m["kind"] in ("FSYM", "FE"):
        n = len(m["gens"][0])
        eqs, ineqs, red = sym.parse_named(j.out, sym.NAMES[:n - 1])
        if m["kind"] == "FSYM" and not red:
            raise g.ParseError("result is not marked as reduced")
        return dict({k: m[k] for k in ("kind", "gens", "maps", "reduced") if k in m}, eqs=[list(e) for e in eqs], ineqs=[list(e) for e in ineqs])
    pts = g.parse_ve(j.out)
    if any(len(p) != m["n"] for p in pts):
        raise g.ParseError("row of wrong length")
    return dict({k: m[k] for k in ("kind", "A", "E", "n", "maps", "reduced") if k in m}, points=[list(g.prim(p)) for p in pts])


def decide(ctx, jobs, label):
    obs, owner, seen = [], [], set()
    for j in jobs:
        if j.failed():
            ctx.violation(fe.key_of(j), "%s: no result (%s) %s" % (label, "time-out" if j.timeout else "status %s" % j.rc, j.err[-300:]), j.files())
            continue
        k = (j.text, j.known, "\n".join(sorted(j.out.splitlines())))
        if k in seen:
            continue
        seen.add(k)
        try:
            obs.append(observe(j))
            owner.append(j)
        except g.ParseError as e:
            ctx.violation(fe.key_of(j), "%s: unreadable output: %s" % (label, e), j.files())
    for k, v in sorted(core.judge(ctx, "JudgeSymmetry", obs, name=label).items()):
        j = owner[k]
        if "outside the domain" in v:
            raise core.CheckError("input outside the domain: %r" % (j.meta,))
        ctx.violation(fe.key_of(j), "%s: %s\narguments %s\n%s" % (label, v[:600], j.args, j.text[:500]), j.files())
    return len(obs)


def args(rng, check=True):
    m = rng.choice(["dd", "ad", "ad"])
    a = ["-m", m]
    if m == "ad" and rng.random() < .8:
        a += ["-t", str(rng.choice([1, 2, 3, 5]))]
    if rng.random() < .15:
        a += ["-i", rng.choice(["64", "safe", "inf"])]
    if rng.random() < .15:
        a += ["-s", rng.choice(["lex_asc", "nz_desc", "rev"])]
    if check and rng.random() < .15:
        a += ["-c"]
    return a


def universe(ctx):
    q = ctx.quick
    out = []
    for dim, hi, seeds, maps, pts, rays in ([(2, 1, 2, 2, 8, False), (2, 1, 2, 1, 8, True), (1, 3, 3, 2, 6, False)] if q else
                                            [(2, 2, 2, 2, 9, False), (2, 1, 3, 2, 9, True), (3, 1, 2, 1, 9, False), (3, 1, 2, 1, 8, True), (1, 4, 4, 2, 8, True)]):
        cfg = ("CONSTANTS Dim=%d Hi=%d MaxSeeds=%d MaxMaps=%d MaxPoints=%d WithRays=%s\nINIT Init\nNEXT Next\nINVARIANTS ActsOnFacets OrbitsPartition\nCHECK_DEADLOCK FALSE\n"
               % (dim, hi, seeds, maps, pts, str(rays).upper()))
        dump = os.path.join(ctx.sub("sym"), "d%d%d%d%s" % (dim, hi, seeds, rays))
        core.tlc_model(ctx, "SymmetryUniverse", cfg, name="SymmetryUniverse_%dd%s" % (dim, "r" if rays else ""), args=["-dump", dump], timeout=1500)
        for s in g.dump_states(dump + ".dump"):
            if s["points"]:
                gens = sorted(s["points"], key=lambda v: v[-1] == 0)
                out.append((gens, s["maps"]))
    return out


def check(ctx):
    q = ctx.quick
    h = core.start_build(ctx)
    cases = universe(ctx)
    n_tlc = len(cases)
    if q and n_tlc > 900:
        ctx.rng.shuffle(cases)
        cases = cases[:900]
    for _ in range(500 if q else 9000):
        cases.append(sym.case(ctx.rng))
    panda = core.Panda(ctx, core.wait_build(ctx, h))
    jobs = []
    for gens, maps in cases:
        v = [x for x in gens if x[-1]]
        r = [x for x in gens if not x[-1]]
        ctx.rng.shuffle(v)
        ctx.rng.shuffle(r)
        gens = v + r
        jobs.append(Job(sym.gens_text(gens, maps), args(ctx.rng), meta={"kind": "FSYM", "gens": gens, "maps": maps, "reduced": False}))
        reps = sym.representatives(ctx.rng, gens, maps)
        jobs.append(Job(sym.gens_text(reps, maps, True), args(ctx.rng), meta={"kind": "FSYM", "gens": reps, "maps": maps, "reduced": True, "all": gens}))
    panda.run(jobs)
    ctx.log("ran %d facet enumerations" % len(jobs))
    n = decide(ctx, jobs, "facets")
    ctx.log("judged %d" % n)

    # the other direction: descriptions of these polyhedra (any description will do, it is judged as it stands)
    plain = []
    for gens, maps in cases[-(700 if q else 10000):]:
        plain.append(Job(g.gens_text(gens), ["-m", "dd"], meta={"gens": gens, "maps": maps}))
    panda.run(plain)
    vjobs = []
    for j in plain:
        if j.failed():
            continue
        try:
            eqs, ineqs = g.parse_fe(j.out)
        except g.ParseError:
            continue
        maps, n = j.meta["maps"], len(j.meta["gens"][0])
        if not ineqs or not fe.pointed(ineqs, eqs):
            continue
        eqs = shuffle_eqs(ctx.rng, eqs)
        A = [list(r) for r in ineqs]
        ctx.rng.shuffle(A)
        meta = {"kind": "VSYM", "E": eqs, "maps": maps, "n": n}
        vjobs.append(Job(sym.cons_text(A, eqs, maps), args(ctx.rng, False), meta=dict(meta, A=A, reduced=False)))
        # reduced: representatives in another representation modulo the equations
        red = reduce_rows(ctx.rng, A, eqs, maps)
        vjobs.append(Job(sym.cons_text(red, eqs, maps, True), args(ctx.rng, False), meta=dict(meta, A=red, reduced=True)))
    panda.run(vjobs)
    ctx.log("ran %d vertex enumerations" % len(vjobs))
    m = decide(ctx, vjobs, "vertices")
    ctx.count(inputs_enumerated_by_tlc=n_tlc, facet_runs=len(jobs), vertex_runs=len(vjobs), judged=n + m, evaluations=len(jobs) + len(vjobs),
              lower_dimensional=sum(1 for j in vjobs if j.meta["E"]))
    ctx.sample({"input": jobs[-1].text, "args": jobs[-1].args, "output": jobs[-1].out})
    ctx.sample({"input": vjobs[-1].text, "args": vjobs[-1].args, "output": vjobs[-1].out})
    ctx.assumptions.append("maps are symmetries of the described polyhedron (TLC refuses any other input as outside the domain)")


def shuffle_eqs(rng, E):
    E = [list(e) for e in E]
    rng.shuffle(E)
    for i in range(len(E)):
        for k in range(len(E)):
            if k != i and rng.random() < .3:
                s = rng.choice([-1, 1])
                E[i] = [a + s * b for a, b in zip(E[i], E[k])]
        if rng.random() < .3:
            E[i] = [-x for x in E[i]]
    return E


def reduce_rows(rng, A, E, maps):
    """A random choice of rows, at least one per orbit, in random representations."""
    from fractions import Fraction as F

    def canon(a):
        a = [F(x) for x in a]
        for p, r in ech:
            f = a[p] / r[p]
            a = [x - f * y for x, y in zip(a, r)]
        m = 1
        for x in a:
            m = m * x.denominator // g.gcd(m, x.denominator)
        return g.prim(tuple(int(x * m) for x in a))
    ech = []
    for e in E:
        e = [F(x) for x in e]
        for p, r in ech:
            f = e[p] / r[p]
            e = [x - f * y for x, y in zip(e, r)]
        p = next((i for i, x in enumerate(e) if x), None)
        if p is not None:
            ech.append((p, e))
    seen, out = set(), []
    A = [list(a) for a in A]
    rng.shuffle(A)
    for a in A:
        c = canon(a)
        if c in seen and rng.random() < .95:
            continue
        todo = [c]
        seen.add(c)
        while todo:
            x = todo.pop()
            for M in maps:
                y = canon([sum(x[i] * M[i][k] for i in range(len(x))) for k in range(len(x))])
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        k = rng.choice([1, 1, 2])
        r = [k * x for x in a]
        for e in E:
            c = rng.choice([0, 0, 1, -1, 2])
            r = [x + c * y for x, y in zip(r, e)]
        out.append(r)
    return out
