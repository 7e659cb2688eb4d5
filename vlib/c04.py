"""C04: the worker pool hands out every row once and terminates cleanly."""
import json, re
from . import core, fe, geometry as g, pool as pl
from .core import Job


def cfg(workers, rows, allg, known, spurious, extra=""):
    return ("CONSTANTS Workers={%s} Rows={%s} AllGraphs=%s Known=%d Spurious=%s NotifyAll=TRUE KeepMarker=TRUE CheckedEmpty=TRUE\nSPECIFICATION Spec\n"
            "INVARIANTS TypeOK PrintedOnce Complete HandedAreKnown StopIsFinal TakeOnce\nPROPERTIES Termination StopQuiescent TakenFromPrinted PrintedFromBatch\n%s"
            % (",".join(map(str, range(1, workers + 1))), ",".join(map(str, range(1, rows + 1))), "TRUE" if allg else "FALSE", known, "TRUE" if spurious else "FALSE", extra))


def spec_schedules(ctx, workers, rows, known, num, seed):
    """Behaviours of JobPool (random simulation by TLC) as schedules for the real pool."""
    c = ("CONSTANTS Workers={%s} Rows={%s} AllGraphs=TRUE Known=%d Spurious=FALSE NotifyAll=TRUE KeepMarker=TRUE CheckedEmpty=TRUE\nINIT HInit\nNEXT HNext\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n"
         % (",".join(map(str, range(1, workers + 1))), ",".join(map(str, range(1, rows + 1))), known))
    out, st = core.tlc(ctx, "JobPoolSchedules", c, args=["-simulate", "num=%d" % num, "-depth", "200", "-seed", str(seed)], workers=1)
    if st["rc"] != 0:
        raise core.CheckError("JobPoolSchedules:\n" + out[-3000:])
    res = {}
    for m in re.finditer(r'SCHEDULE (.*?) END', out, re.S):
        v = g.tlaval(m.group(1).replace("\n", " "))
        res[json.dumps(v)] = v
    return list(res.values())


def run_traces(ctx, jobs, label):
    obs, owner = [], []
    for j in jobs:
        if j.failed():
            why = "time-out" if j.timeout else {86: "deadlock: no thread can run", 87: "no progress"}.get(j.rc, "status %s" % j.rc)
            ctx.violation(label + ":" + fe.key_of(j) + ":" + json.dumps(j.env or {}, sort_keys=True)[:200], "%s: %s %s" % (label, why, j.err[-300:]), j.files())
            continue
        try:
            o = json.loads(j.out)
        except ValueError:
            ctx.violation(label + ":" + fe.key_of(j), "%s: trace unreadable" % label, j.files())
            continue
        obs.append(o)
        owner.append(j)
    # identical executions are judged once
    uniq, idx = {}, []
    for k, o in enumerate(obs):
        s = json.dumps(o, sort_keys=True)
        if s not in uniq:
            uniq[s] = k
            idx.append(k)
    bad = core.judge_traces(ctx, "JudgePool", [obs[k] for k in idx], name=label)
    for n, v in sorted(bad.items()):
        j = owner[idx[n]]
        ctx.violation(label + ":" + fe.key_of(j), "%s: the execution is no behaviour of the pool: %s\narguments %s schedule %s" % (label, v[:500], j.args, j.env), j.files())
    return len(idx)


def check(ctx):
    q = ctx.quick
    h = core.start_build(ctx)
    core.tlc_model(ctx, "JobPool", cfg(2, 2, True, 1, False), name="JobPool_2w2r")
    core.tlc_model(ctx, "JobPool", cfg(3, 3, False, 2, True), name="JobPool_3w_spurious")
    if not q:
        core.tlc_model(ctx, "JobPool", cfg(3, 2, True, 1, False), name="JobPool_3w2r", timeout=600)
        core.tlc_model(ctx, "JobPool", cfg(2, 3, True, 1, False), name="JobPool_2w3r", timeout=1500, heap="8g")
        core.tlc_model(ctx, "JobPool", cfg(5, 4, False, 2, False), name="JobPool_5w", timeout=900, heap="8g")
    schedules = []
    for w, r, k in [(2, 3, 1), (3, 3, 2)]:
        schedules += [(w, s) for s in spec_schedules(ctx, w, r, k, 250 if q else 3000, ctx.seed)]
    shim = core.build_shim(ctx)
    exe = core.wait_build(ctx, h)
    objs = [o for o in h["objs"] if not o.endswith("/main.o")]
    harness = core.compile_harness(ctx, "pool", [core.HARNESS + "/pool.cpp"], objs=objs)
    panda = core.Panda(ctx, exe)
    ctx.log("harness built")

    # 1. behaviours of the specification replayed into the real pool
    jobs = []
    for w, s in schedules:
        first, succ, known, hist = s[0], s[1], s[2], s[3]
        # thread numbers: 0 main, 1 the asynchronous thread, w+1 the workers
        seq = [0] * (len(first) + 1) + [0] * (w + 1)
        for p in hist:
            if p != 0:
                seq.append(1 if p == 100 else p + 1)
        jobs.append(Job(None, pl.graph_args(w, succ, first, known, 1), env={"LD_PRELOAD": shim, "SCHED_SECTIONS": ",".join(map(str, seq))}, exe=harness, meta=s))
    panda.run(jobs)
    n = run_traces(ctx, jobs, "replay")
    exact = 0
    for j in jobs:
        if not j.failed():
            ev = json.loads(j.out)["ev"]
            exact += [e["row"] for e in ev if e["k"] == "print"] == j.meta[4]
    ctx.count(spec_behaviours_replayed=len(jobs), spec_behaviours_reproduced_exactly=exact, distinct_traces=n)
    ctx.log("replayed %d behaviours of JobPool, %d with the same order of rows" % (len(jobs), exact))

    # 2. systematic exploration of small instances, bounded number of preemptions
    cases = [(2, [[2], []], [1], []), (2, [[], []], [1, 2], []), (2, [[2], [1]], [1], [2]), (3, [[2, 3], [], []], [1], []), (2, [[]], [], [])]
    if not q:
        cases += [(3, [[2], [3], []], [1], [3]), (2, [[2, 3], [1, 4], [4], []], [1], [4]), (4, [[2, 3], [4], [4], []], [1], [])]
    total = 0
    for c in cases:
        runs, complete = pl.systematic(ctx, panda, shim, harness, pl.graph_args(*c), 500 if q else 20000, 2 if q else 4)
        total += len(runs)
        ctx.count(systematic_complete=int(complete), distinct_traces=run_traces(ctx, runs, "systematic"))
    ctx.count(systematic_schedules=total)
    ctx.log("%d systematic schedules" % total)

    # 3. random graphs and schedules
    jobs = []
    for _ in range(2500 if q else 40000):
        w, succ, first, known = pl.random_graph(ctx.rng)
        jobs.append(Job(None, pl.graph_args(w, succ, first, known, ctx.rng.randint(0, 1)), env=pl.sched_env(shim, ctx.rng), exe=harness))
    panda.run(jobs)
    for k in range(0, len(jobs), 5000):
        ctx.count(distinct_traces=run_traces(ctx, jobs[k:k + 5000], "random"))
    ctx.count(random_schedules=len(jobs))
    ctx.sample({"args": jobs[0].args, "env": {k: v for k, v in jobs[0].env.items() if k != "LD_PRELOAD"}, "trace": jobs[0].out[:600]})
    ctx.log("random schedules done")

    # 4. the whole program
    cli(ctx, panda, shim, 250 if q else 4000)
    ctx.cov["evaluations"] = total + len(jobs) + len(schedules)
    ctx.assumptions.append("interleavings at the granularity of synchronisation operations (data races are C05's subject)")
    ctx.assumptions.append("rows put asynchronously belong to the closure of the initial rows, as known facets do")


def cli(ctx, panda, shim, n, dims=(2, 3, 3, 4)):
    """Adjacency decomposition under the scheduler: trace of the merged output, and the result."""
    jobs = []
    while len(jobs) < n:
        gens = fe.random_gens(ctx.rng, d=ctx.rng.choice(dims))
        th = ctx.rng.choice([1, 2, 3, 4])
        jobs.append(Job(g.gens_text(gens), ["-m", "ad", "-t", str(th)], meta={"gens": gens, "threads": th}, env=pl.sched_env(shim, ctx.rng, True)))
    panda.run(jobs, merged=True)
    judge_cli(ctx, jobs)
    return jobs


def judge_cli(ctx, jobs, asynchronous=False, result=True):
    obs, owner = [], []
    for j in jobs:
        if j.rc == 86 or j.rc == 87:
            ctx.violation("cli:" + fe.key_of(j) + str(j.env.get("SCHED_SEED")), "the program deadlocks: %s" % j.out[-300:], j.files())
            j.rc = None
            continue
        if j.failed():
            continue
        o = pl.cli_trace(j.out, j.meta["threads"], asynchronous)
        if o:
            obs.append(o)
            owner.append(j)
    bad = core.judge_traces(ctx, "JudgePool", obs, name="cli")
    for k, v in sorted(bad.items()):
        ctx.violation("cli:" + fe.key_of(owner[k]) + str(owner[k].env.get("SCHED_SEED")), "the program's trace is no behaviour of the pool: %s" % v[:500], owner[k].files())
    for j in jobs:
        j.out = pl.strip_messages(j.out)
    if result:
        fe.decide(ctx, [j for j in jobs if j.rc is not None or j.timeout], "scheduled")
    ctx.count(cli_traces=len(obs), cli_scheduled=len(jobs))
