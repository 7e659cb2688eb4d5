"""C05: no data race on the state that the worker threads share."""
import json, os, subprocess
from . import core, fe, geometry as g, pool as pl
from .core import Job

RT = "-O1 -w -fno-tree-loop-distribute-patterns -fno-builtin -U_FORTIFY_SOURCE"


def runtime(ctx):
    d = ctx.sub("race")
    out = []
    for cmd, f in ((["g++" if not core.CXX else core.CXX, "-std=c++11"], "race.cpp"), (["gcc"], "race_lib.c"), (["gcc"], "sched.c")):
        o = os.path.join(d, f.split(".")[0] + ".o")
        p = subprocess.run(cmd + RT.split() + ["-pthread", "-c", os.path.join(core.HARNESS, f), "-o", o], capture_output=True, text=True)
        if p.returncode:
            raise core.CheckError(p.stderr[-2000:])
        out.append(o)
    return out


def judge(ctx, jobs, label, exe):
    obs, owner = [], []
    for j in jobs:
        if j.rc in (86, 87, 88) or j.timeout:
            continue                      # deadlocks are C04's subject
        if j.log is None:
            continue
        try:
            o = json.loads(j.log)
        except ValueError:
            raise core.CheckError("unreadable record: " + j.log[:300])
        ctx.count(locations_monitored=o.pop("monitored"), shared_written_locations=o["locs"], accesses_and_synchronisations=len(o["ev"]))
        j.meta["where"] = o.pop("where")
        obs.append(o)
        owner.append(j)
    if len(obs) < len(jobs) // 2:
        raise core.CheckError("%s: only %d of %d runs recorded: %s" % (label, len(obs), len(jobs), jobs[0].err[-500:]))
    # executions that differ in values only are one execution
    uniq, idx = set(), []
    for k, o in enumerate(obs):
        s = json.dumps(o, sort_keys=True)
        if s not in uniq:
            uniq.add(s)
            idx.append(k)
    ctx.count(executions=len(jobs), distinct_executions=len(idx))
    order = sorted(idx, key=lambda k: obs[k]["locs"])
    for lo in range(0, len(order), 400):
        part = order[lo:lo + 400]
        m = lambda key: max([obs[k][key] for k in part] + [1])
        bad = core.judge_traces(ctx, "JudgeRace", [obs[k] for k in part], name=label, consts="CONSTANTS MaxThr=%d MaxObj=%d MaxLoc=%d" % (m("threads"), m("objects"), m("locs")))
        for n, v in sorted(bad.items()):
            j = owner[part[n]]
            loc = int(v.split()[1])
            where = j.meta["where"][loc - 1]
            src = ""
            if "+" in where and ctx._n < 3:
                p = subprocess.run(["addr2line", "-Cfse", j.exe or exe, "0x" + where.split("+")[-1]], capture_output=True, text=True)
                src = p.stdout.strip().replace("\n", " ")
            ctx.violation("race:" + fe.key_of(j) + ":" + str((j.env or {}).get("SCHED_SEED")), "%s: unordered accesses (%s), first access at %s %s\narguments %s" % (label, v, where, src, j.args), dict(j.files(), trace=j.log))


def sym_input(rng):
    """A cube or cross polytope with its coordinate symmetries."""
    d = rng.choice([2, 3])
    if rng.random() < .5:
        pts = [tuple((k >> i) & 1 for i in range(d)) for k in range(2 ** d)]
        names = ["x%d" % i for i in range(d)]
    else:
        pts = [tuple(s if i == k else 0 for i in range(d)) for k in range(d) for s in (1, -1)]
        names = ["x%d" % i for i in range(d)]
    t = "Names:\n" + " ".join(names) + "\n\nMaps:\n" + " ".join(names[1:] + names[:1]) + "\n\nVertices:\n"
    return t + "".join(" ".join(map(str, p)) + "\n" for p in pts), [p + (1,) for p in pts]


def check(ctx):
    q = ctx.quick
    rt = runtime(ctx)
    h = core.start_build(ctx, name="panda-race", flags="-O1 -fsanitize=thread -g1", linkflags="", ldflags=" ".join(rt) + " -rdynamic -ldl")
    for thr, objs, length in ((3, 1, 4), (2, 2, 4)) if q else ((3, 1, 5), (2, 2, 6)):
        core.tlc_model(ctx, "RaceMonitorMC", "CONSTANTS Thr={%s} Objs={%s} Locs={1} MaxLen=%d\nINIT Init\nNEXT Next\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n"
                       % (",".join(map(str, range(1, thr + 1))), ",".join(map(str, range(1, objs + 1))), length), name="RaceMonitorMC_%dt" % thr, timeout=1500, heap="8g")
    exe = core.wait_build(ctx, h)
    objs = [o for o in h["objs"] if not o.endswith("/main.o")]
    harness = core.compile_harness(ctx, "pool", [core.HARNESS + "/pool.cpp"], objs=objs + rt, flags="-O1 -g1", ldflags="-rdynamic -ldl")
    panda = core.Panda(ctx, exe)
    env = lambda long: {k: v for k, v in dict(pl.sched_env("", ctx.rng, long), RACE_OUT="@LOG@").items() if k != "LD_PRELOAD"}

    # the pool alone: many schedules
    jobs = []
    for _ in range(600 if q else 6000):
        w, succ, first, known = pl.random_graph(ctx.rng, n=ctx.rng.randint(1, 5), workers=ctx.rng.choice([2, 2, 3, 4]))
        jobs.append(Job(None, pl.graph_args(w, succ, first, known, ctx.rng.randint(0, 1)), env=env(False), exe=harness, meta={}))
    panda.run(jobs)
    judge(ctx, jobs, "pool", exe)
    ctx.log("pool judged")
    # the whole program
    jobs = []
    for k in range(300 if q else 3000):
        th = ctx.rng.choice([2, 2, 3, 4])
        a, known = ["-m", "ad", "-t", str(th)], None
        style = k % 4
        if style == 0:
            gens = fe.random_gens(ctx.rng, d=ctx.rng.choice([2, 3]))
            text = g.gens_text(gens)
        elif style == 1:
            text, gens = sym_input(ctx.rng)
        elif style == 2:
            A, E = fe.random_cons(ctx.rng)
            text = g.cons_text(A, E)
        else:
            d = ctx.rng.choice([2, 3])
            gens = [tuple((x >> i) & 1 for i in range(d)) + (1,) for x in range(2 ** d)]
            rows = [[-int(i == j) for i in range(d)] + [0] for j in range(d)]
            text, known = g.gens_text(gens), "Inequalities:\n" + "".join(" ".join(map(str, r)) + "\n" for r in rows[:ctx.rng.randint(1, d)])
        if ctx.rng.random() < .15:
            a += ["-i", ctx.rng.choice(["inf", "safe", "64"])]
        jobs.append(Job(text, a, known=known, env=env(True), meta={}))
    panda.run(jobs, timeout=60)
    ctx.log("ran the program")
    judge(ctx, jobs, "program", exe)
    ctx.cov["evaluations"] = ctx.cov["executions"]
    ctx.sample({"args": jobs[0].args, "trace": (jobs[0].log or "")[:500]})
    ctx.assumptions += ["accesses inside the C library are covered for memcpy, memmove, memset, free, standard output and the library parts of the containers",
                        "atomic operations order the threads as if they were sequentially consistent"]
