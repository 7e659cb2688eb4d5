"""C06: method, threads, sorting, integer type, order and multiplicity of rows do not matter."""
import os
from . import core, fe, c01, geometry as g
from .core import Job

SORT = ["none", "lex_asc", "lex_desc", "nz_asc", "nz_desc", "rev"]
TYPES = ["default", "16", "32", "64", "safe", "inf"]


def options(method, threads, sorting, type_):
    a = ["-m", method]
    if threads:
        a += ["-t", str(threads)]
    if sorting != "none":
        a += ["-s", sorting]
    if type_ != "default":
        a += ["-i", type_]
    return a


def some(rng, types=TYPES):
    return options(rng.choice(["dd", "ad"]), rng.choice([0, 1, 2, 3, 4, 9]), rng.choice(SORT), rng.choice(types))


def variants(ctx, kind, edits, threads, types):
    q = lambda s: "{" + ",".join('"%s"' % x for x in s) + "}"
    cfg = ("CONSTANTS Kind=\"%s\" MaxEdits=%d Methods=%s Threads={%s} Sortings=%s Types=%s\nINIT Init\nNEXT Next\nINVARIANT SameMeaning\nCHECK_DEADLOCK FALSE\n"
           % (kind, edits, q(["dd", "ad"]), ",".join(map(str, threads)), q(SORT), q(types)))
    dump = os.path.join(ctx.sub("variants"), kind)
    core.tlc_model(ctx, "Variants", cfg, name="Variants_" + kind, args=["-dump", dump])
    return g.dump_states(dump + ".dump")


FE = [[[0,0,0,1], [2,0,0,1], [0,2,0,1], [2,2,0,1], [1,1,1,1], [1,1,0,1]], [[0,0,1], [1,0,1], [1,1,0], [0,1,0]], [[0,0,1,1], [1,0,1,1], [0,1,1,1], [1,1,1,1]],
      [[0,0,0,1], [1,0,0,1], [0,1,0,1], [0,0,1,1], [1,1,1,1]]]
VE = [[[-1,0,0], [0,-1,0], [1,0,-1], [0,1,-1], [1,1,-3]], [[-1,0,0], [-1,1,-1], [0,-1,-1]], [[-1,0,0,0], [0,-1,0,0], [0,0,-1,0], [1,1,1,-1], [1,0,0,-1]], [[2,1,-2], [-2,1,0], [0,-3,-1]]]


def decide_unique(ctx, jobs, label):
    """Identical (input, printed rows up to order) pairs are judged once; failures are reported for every job."""
    groups = {}
    for j in jobs:
        k = (j.text, "\n".join(sorted(j.out.splitlines())), j.rc, j.timeout)
        groups.setdefault(k, []).append(j)
    fe.decide(ctx, [v[0] for v in groups.values()], label)
    return len(groups)


def check(ctx):
    q = ctx.quick
    h = core.start_build(ctx)
    jobs = []
    for kind in ("FE", "VE"):
        vs = variants(ctx, kind, 1 if q else 2, [1, 3] if q else [1, 2, 5], ["default", "16", "safe", "inf"] if q else TYPES)
        ctx.count(variants_enumerated_by_tlc=len(vs))
        if q and len(vs) > 4000:
            ctx.rng.shuffle(vs)
            vs = vs[:4000]
        for v in vs:
            rows = [(FE if kind == "FE" else VE)[v["base"] - 1][k - 1] for k in v["rows"]]
            a = options(v["method"], v["threads"], v["sorting"], v["type"])
            if kind == "FE":
                rows.sort(key=lambda r: r[-1] == 0)      # stable: the file lists vertices before rays
                jobs.append(Job(g.gens_text(rows), a, meta={"gens": rows}))
            else:
                jobs.append(Job(g.cons_text(rows, []), a, meta={"A": rows, "E": [], "n": len(rows[0])}))
    n_tlc = len(jobs)
    for _ in range(450 if q else 8000):
        if ctx.rng.random() < .6:
            gens = [list(x) for x in fe.random_gens(ctx.rng)]
            for _ in range(3):
                v = [x for x in gens if x[-1]]
                r = [x for x in gens if not x[-1]]
                v += [list(ctx.rng.choice(v)) for _ in range(ctx.rng.choice([0, 0, 1, 2]))]
                if r:
                    r += [list(ctx.rng.choice(r)) for _ in range(ctx.rng.choice([0, 0, 1]))]
                ctx.rng.shuffle(v)
                ctx.rng.shuffle(r)
                jobs.append(Job(g.gens_text(v + r), some(ctx.rng), meta={"gens": v + r}))
        else:
            A, E = fe.random_cons(ctx.rng)
            for _ in range(3):
                B = [list(x) for x in A] + [list(ctx.rng.choice(A)) for _ in range(ctx.rng.choice([0, 0, 1, 2]))]
                F = [list(x) for x in E] + [list(ctx.rng.choice(E)) for _ in range(ctx.rng.choice([0, 1]) if E else 0)]
                ctx.rng.shuffle(B)
                ctx.rng.shuffle(F)
                jobs.append(Job(g.cons_text(B, F), some(ctx.rng), meta={"A": B, "E": F, "n": len(B[0])}))
    panda = core.Panda(ctx, core.wait_build(ctx, h))
    panda.run(jobs)
    ctx.log("ran %d variants" % len(jobs))
    n = decide_unique(ctx, jobs, "variant")
    ctx.log("judged %d different results" % n)

    # larger inputs: results of several variants compared with each other
    groups = []
    for kind, term, size in c01.alg_terms(ctx, True):
        if size > (200 if q else 700):
            continue
        m = fe.alg_case(ctx.rng, term, plain=size > 60)
        types = ["64", "64", "safe"] + (["inf"] if size <= 70 else [])
        runs = []
        for _ in range(3 if q else 6):
            v = [x for x in m["gens"] if x[-1]]
            r = [x for x in m["gens"] if not x[-1]]
            v += [ctx.rng.choice(v) for _ in range(ctx.rng.choice([0, 1, 5]))]
            ctx.rng.shuffle(v)
            ctx.rng.shuffle(r)
            runs.append(Job(g.gens_text(v + r), some(ctx.rng, types), meta={"gens": v + r}))
        groups.append(runs)
    big = [j for r in groups for j in r]
    panda.run(big, timeout=60)
    ctx.log("ran %d larger variants" % len(big))
    obs, owner = [], []
    for runs in groups:
        seen = []
        for j in runs:
            if j.failed():
                if not (j.rc == 1 and "safe" in j.args and "verflow" in j.err):
                    ctx.violation(fe.key_of(j), "no result (status %s) %s" % (j.rc, j.err[-300:]), j.files())
                continue
            try:
                eqs, ineqs = g.parse_fe(j.out)
            except g.ParseError as e:
                ctx.violation(fe.key_of(j), "unreadable output %s" % e, j.files())
                continue
            sg = [g.signs(r, j.meta["gens"]) for r in ineqs]
            seen.append((j, [[k + 1 for k, x in enumerate(s) if x == 0] for s in sg], sum(any(x > 0 for x in s) for s in sg), fe.rank(eqs) if eqs else 0))
        for b in seen[1:]:
            a = seen[0]
            obs.append({"kind": "SAME", "gensA": a[0].meta["gens"], "gensB": b[0].meta["gens"], "tightsA": a[1], "tightsB": b[1], "invalid": a[2] + b[2], "eqsA": a[3], "eqsB": b[3]})
            owner.append((a[0], b[0]))
    for k, v in sorted(core.judge(ctx, "JudgeGeometry", obs, name="SAME").items()):
        a, b = owner[k]
        f = dict(b.files())
        f.update({"first-" + n: c for n, c in a.files().items()})
        ctx.violation(fe.key_of(b), "results differ: %s\n%s versus %s" % (v[:500], a.args, b.args), f)
    ctx.count(inputs_run=n_tlc, random_variants=len(jobs) - n_tlc, larger_pairs=len(obs), distinct_results=n)
    ctx.cov["evaluations"] = len(jobs) + len(big)
    ctx.sample({"input": jobs[0].text, "args": jobs[0].args, "output": jobs[0].out})
    ctx.sample({"args": [j.args for j in groups[0]], "rows": len(groups[0][0].meta["gens"])})
    ctx.assumptions.append("with the default and fixed-width types only inputs whose values stay in range (small inputs; 64 bits for the larger ones)")
