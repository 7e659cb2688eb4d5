"""C01: facet enumeration by double description is exact."""
from . import core, fe, geometry as g
from .core import Job
from .fe import S, C, X, P, FS, J, O


def alg_terms(ctx, quick):
    """Closed-form inputs: every capacity of the bit sets, many shapes."""
    rng = ctx.rng
    t = []
    # number of generators just below/at/above every multiple of 32 up to beyond the largest fixed bit set
    words = [1, 2, 3, 4, 6, 8, 10, 12, 16, 20, 30, 40, 50, 75, 100, 150, 200]
    for w in words:
        for n in ((32 * w, 32 * w + 1) if quick or w > 20 else (32 * w - 1, 32 * w, 32 * w + 1, 32 * w + 2, 32 * w + 31)):
            if n > 2000:
                if quick and n not in (6400, 6401):
                    continue
                t.append((n, "simplex3"))
            else:
                t.append((n, "mixed"))
    out = []
    for n, kind in t:
        if kind == "simplex3":
            out.append(("cap", fe.redundant(rng, S(3), n - 4, big=True), n))
        else:
            base = rng.choice([C(n, 2, n // 2)] + ([P(C(8, 2, 4), S(2)), FS(X(2), X(2)), J(C(6, 2, 3), S(1)), P(S(3), S(2)), P(X(2), X(2))]))
            k = len(fe.realise(base))
            if k < n:
                base = fe.redundant(rng, base, n - k, big=True)
            out.append(("cap", base, n))
            if n <= 400:
                out.append(("cap", P(C(n // 4, 2, n // 8), X(2)) if n % 4 == 0 else J(C(n - 2, 2, n // 2), S(1)), n))
    atoms = [S(1), S(2), S(3), S(4), X(2), X(3), X(4), C(5, 2, 3), C(7, 2, 3), C(6, 3, 3), C(8, 3, 4), C(6, 4, 3), C(7, 4, 4), C(9, 4, 4), C(8, 5, 4), C(9, 2, 4), C(5, 1, 2)]
    for _ in range(60 if quick else 600):
        a = rng.choice(atoms)
        for _ in range(rng.choice([0, 1, 1, 2])):
            b = rng.choice(atoms)
            op = rng.choice(["P", "P", "J", "FS", "O", "R"])
            na, nb = len(fe.realise(a)), len(fe.realise(b))
            da, db = len(fe.realise(a)[0]), len(fe.realise(b)[0])
            rays = any(v[-1] == 0 for v in fe.realise(a))
            if op == "P" and na * nb <= 80 and da + db <= 8 and not rays:
                a = P(a, b)
            elif op == "J" and da + db <= 9:
                a = J(a, b)
            elif op == "FS" and a["op"] == "cross" and da <= 4:
                a = FS(a, X(rng.choice([1, 2])))
            elif op == "O" and da <= 6 and a["op"] != "orthant":
                a = O(a, rng.choice([1, 2]))
            elif op == "R" and not rays:
                a = fe.redundant(rng, a, rng.randint(1, 12))
        out.append(("alg", a, len(fe.realise(a))))
    return out


def check(ctx, method="dd", threads=None, only=None):
    q = ctx.quick
    h = core.start_build(ctx)
    cfg = "CONSTANTS MaxDim=%d MaxGens=%d MaxSteps=2\nINIT Init\nNEXT Next\nINVARIANT ClosedFormIsRight\nCHECK_DEADLOCK FALSE\n" % ((4, 7) if q else (5, 9))
    core.tlc_model(ctx, "PolytopeAlgebraMC", cfg)
    cases = []
    if q:
        cases += fe.universe(ctx, 2, 2, 5, 1, name="U2")
        cases += fe.universe(ctx, 1, 3, 4, 1, rbelow=1, name="U1")
        cases += fe.universe(ctx, 3, 1, 8, 0, invariants=False, name="U3")
    else:
        cases += fe.universe(ctx, 2, 2, 9, 2, rbelow=1, name="U2")
        cases += fe.universe(ctx, 1, 5, 6, 2, rbelow=1, name="U1")
        cases += fe.universe(ctx, 3, 1, 8, 3, name="U3")
        cases += fe.universe(ctx, 4, 1, 6, 1, invariants=False, name="U4")
    exhaustive = len(cases)
    n_random = 700 if q else 8000
    for _ in range(n_random):
        cases.append(fe.random_gens(ctx.rng))
    for _ in range(12 if q else 150):
        cases.append(fe.zero_one(ctx.rng, 4, ctx.rng.randint(7, 12)))
    for _ in range(0 if q else 40):
        cases.append(fe.zero_one(ctx.rng, 5, ctx.rng.randint(8, 13)))
    panda = ctx.panda = core.Panda(ctx, core.wait_build(ctx, h))
    jobs = []
    for c in cases:
        v = [x for x in c if x[-1]]
        r = [x for x in c if not x[-1]]
        ctx.rng.shuffle(v)
        ctx.rng.shuffle(r)
        jobs.append(Job(g.gens_text(v + r), args(ctx, method, threads), meta={"gens": v + r}))
    ctx.log("%d small inputs" % len(jobs))
    panda.run(jobs)
    ctx.log("ran")
    fe.decide(ctx, jobs, "small")
    ctx.log("judged")
    big = []
    for kind, term, n in alg_terms(ctx, q):
        m = fe.alg_case(ctx.rng, term, plain=n > 300)
        big.append(Job(g.gens_text(m["gens"]), args(ctx, method, threads) + ["-i", "64"], meta=m))
    panda.run(big)
    ctx.log("ran %d closed-form inputs" % len(big))
    fe.decide(ctx, big, "closed-form")
    ctx.log("judged")
    ctx.count(inputs_enumerated_by_tlc=exhaustive, inputs_random=len(cases) - exhaustive, inputs_closed_form=len(big),
              evaluations=len(jobs) + len(big), distinct_nontrivial=len({fe.key_of(j) for j in jobs + big if fe.nontrivial(j.meta["gens"])}))
    ctx.cov["rule"] = "an input counts as non-trivial if it has more generators than the dimension of the homogeneous space"
    ctx.cov["largest_number_of_vertices"] = max(len(j.meta["gens"]) for j in big)
    ctx.sample({"input": jobs[-1].text, "args": jobs[-1].args, "output": jobs[-1].out})
    ctx.sample({"term": str(big[-1].meta["term"])[:300], "output": big[-1].out[:500]})
    ctx.assumptions += ["values stay within the 32-bit range of TLC or are observed through exact signs on the generators"]


def args(ctx, method, threads):
    a = ["-m", method]
    if threads:
        a += ["-t", str(ctx.rng.choice(threads))]
    return a
