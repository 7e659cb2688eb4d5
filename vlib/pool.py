"""Scheduled executions of the worker pool and of the whole program."""
import json, os, re
from . import core, geometry as g
from .core import Job


def graph_args(workers, succ, first, known, tag=0):
    return [str(workers), "".join((",".join(map(str, s)) or "-") + ";" for s in succ), ",".join(map(str, first)) or "-", ",".join(map(str, known)) or "-", str(tag)]


def reach(succ, first):
    r, todo = set(first), list(first)
    while todo:
        for y in succ[todo.pop() - 1]:
            if y not in r:
                r.add(y)
                todo.append(y)
    return r


def random_graph(rng, n=None, workers=None):
    n = n or rng.randint(1, 7)
    style = rng.random()
    succ = []
    for i in range(1, n + 1):
        k = rng.randint(0, 3)
        s = [rng.randint(1, n) for _ in range(k)]
        if style < .4 and i < n:
            s.append(i + 1)          # a chain: the pool often runs empty
        if rng.random() < .1:
            s = s + s                # duplicates inside one batch
        rng.shuffle(s)
        succ.append(s)
    first = [rng.randint(1, n) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
    r = sorted(reach(succ, first))
    known = [x for x in r if rng.random() < .3] if rng.random() < .5 else []
    rng.shuffle(known)
    return workers or rng.choice([1, 2, 2, 3, 3, 4, 6]), succ, first, known


def sched_env(shim, rng, long=False):
    e = {"LD_PRELOAD": shim, "SCHED_SEED": str(rng.randrange(10**9))}
    r = rng.random()
    if r < .35:
        e["SCHED_PCT"] = str(rng.choice([1, 2, 3, 5]))
        e["SCHED_LEN"] = str(rng.choice([30, 60, 120, 250] + ([600, 1500] if long else [])))
    elif r < .6:
        e["SCHED_STICKY"] = str(rng.choice([500, 800, 950]))
    if rng.random() < .35:
        e["SCHED_SPURIOUS"] = str(rng.choice([20, 100, 300]))
    return e


def systematic(ctx, runner, shim, exe, args, budget, bound):
    """All schedules with at most `bound` preemptions (breadth first, up to `budget` runs)."""
    todo, done, runs = [(0, ())], set(), []
    complete = True
    while todo and len(runs) < budget:
        todo.sort(key=lambda x: x[0])
        batch, todo = todo[:256], todo[256:]
        jobs = [Job(None, args, env={"LD_PRELOAD": shim, "SCHED_CHOICES": ",".join(map(str, c)) or "-1", "SCHED_LOG": "@LOG@"}, exe=exe, meta=(cost, c)) for cost, c in batch]
        runner.run(jobs)
        for j in jobs:
            cost, prefix = j.meta
            runs.append(j)
            if j.log is None:
                continue
            steps = [tuple(map(int, l.split())) for l in j.log.splitlines()]
            chosen = [c for _, c, _ in steps]
            for k in range(len(prefix), len(steps)):
                n, c, run = steps[k]
                for alt in range(n):
                    if alt == c:
                        continue
                    nc = cost + (1 if run >= 0 and alt != run else 0)
                    if nc > bound:
                        continue
                    p = tuple(chosen[:k]) + (alt,)
                    if p not in done:
                        done.add(p)
                        todo.append((nc, p))
            j.log = None
    if todo:
        complete = False
    return runs, complete


MSG = [(re.compile(r"Processing #(\d+) of at least (\d+) class"), "start"), (re.compile(r"Done processing #(\d+)"), "done")]


def cli_trace(out, threads, asynchronous):
    """Merged output of the program -> trace of kind cli (None if there are no messages)."""
    ev, ids, section = [], {}, None
    for l in out.splitlines():
        s = l.strip()
        if not s:
            continue
        m = MSG[0][0].match(s)
        if m:
            ev.append({"k": "start", "num": int(m.group(1)), "n": int(m.group(2))})
            continue
        m = MSG[1][0].match(s)
        if m:
            ev.append({"k": "done", "num": int(m.group(1))})
            continue
        if s.endswith(":"):
            section = s
            continue
        if section and ("nequalities" in section or "Vertices / Rays" in section) and re.match(r"^[-+0-9 /a-z<=]+$", s):
            ev.append({"k": "print", "row": ids.setdefault(s, len(ids) + 1)})
    if not any(e["k"] == "start" for e in ev):
        return None
    return {"kind": "cli", "threads": threads, "async": asynchronous, "ev": ev}


def strip_messages(out):
    """What went to standard output, from the merged stream."""
    keep = []
    for l in out.splitlines():
        s = l.strip()
        if any(m.match(s) for m, _ in MSG) or s.startswith("PANDA --") or s.startswith("Warning"):
            continue
        keep.append(l)
    return "\n".join(keep) + "\n"
