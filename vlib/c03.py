"""C03: vertex enumeration is exact with both methods."""
from . import core, fe, c01, geometry as g
from .core import Job


def check(ctx):
    q = ctx.quick
    h = core.start_build(ctx)
    cases = []
    if q:
        cases += fe.ve_universe(ctx, 2, 2, 1, name="V2")
        cases += fe.ve_universe(ctx, 1, 4, 1, name="V1", box=False, below=2, hi=2)
    else:
        cases += fe.ve_universe(ctx, 2, 3, 1, name="V2")
        cases += fe.ve_universe(ctx, 1, 5, 1, name="V1", box=False, below=2, hi=2, rb=2, rh=2)
        cases += fe.ve_universe(ctx, 2, 4, 0, name="V2n", box=False)
        cases += fe.ve_universe(ctx, 3, 2, 0, name="V3", rb=1, rh=0)
    nen = len(cases)
    if q and len(cases) > 2500:
        ctx.rng.shuffle(cases)
        cases = cases[:2500]
    nen = len(cases)
    for _ in range(800 if q else 10000):
        cases.append(fe.random_cons(ctx.rng))
    panda = core.Panda(ctx, core.wait_build(ctx, h))
    jobs = []
    for k, (A, E) in enumerate(cases):
        A, E = list(A), list(E)
        ctx.rng.shuffle(A)
        meths = ["dd", "ad"] if not q else [["dd", "ad"][k % 2]]
        for m in meths:
            a = ["-m", m]
            if m == "ad":
                a += ["-t", str(ctx.rng.choice([1, 2, 4]))]
            jobs.append(Job(g.cons_text(A, E), a, meta={"A": [list(r) for r in A], "E": [list(r) for r in E], "n": len(A[0])}))
    ctx.log("%d small inputs" % len(jobs))
    panda.run(jobs)
    ctx.log("ran")
    fe.decide(ctx, jobs, "small")
    ctx.log("judged")
    big = []
    for kind, term, n in c01.alg_terms(ctx, q):
        m = fe.alg_case(ctx.rng, term, polar=True) if not has_rays(term) else None
        if not m or len(m["gens"]) > 2000:
            continue
        mx = max(abs(x) for r in m["gens"] for x in r)
        if mx > 10**6:
            continue
        meth = ctx.rng.choice(["dd", "ad"])
        big.append(Job(g.cons_text(m["gens"], []), ["-m", meth, "-t", "2", "-i", "inf" if mx > 2000 else "64"], meta=m))
    panda.run(big)
    ctx.log("ran %d closed-form inputs" % len(big))
    fe.decide(ctx, big, "closed-form")
    ctx.count(inputs_enumerated_by_tlc=nen, inputs_random=len(cases) - nen, inputs_closed_form=len(big), evaluations=len(jobs) + len(big),
              distinct_nontrivial=len({fe.key_of(j) for j in jobs if len(j.meta["A"]) >= j.meta["n"]} | {fe.key_of(j) for j in big}))
    ctx.cov["rule"] = "an input counts as non-trivial if it has at least as many rows as the dimension of the homogeneous space"
    ctx.cov["largest_number_of_rows"] = max(len(j.meta["gens"]) for j in big)
    ctx.sample({"input": jobs[-1].text, "args": jobs[-1].args, "output": jobs[-1].out})
    ctx.sample({"term": str(big[-1].meta["term"])[:300], "args": big[-1].args, "output": big[-1].out[:400]})


def has_rays(t):
    return any(v[-1] == 0 for v in fe.realise(t))
