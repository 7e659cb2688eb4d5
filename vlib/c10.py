"""C10: malformed input is refused."""
import re
from . import core, language as L
from .core import Job


def message(j):
    """Something is said besides what is printed anyway; being killed by a signal is not saying something."""
    if j.rc is not None and j.rc < 0 and j.rc != -6:
        return False
    return any(l.strip() and not l.startswith("PANDA") for l in j.err.splitlines())


def runs(ctx, panda, states, rng):
    jobs = []
    for s in states:
        args = rng.choice([[], ["-m", "dd"], ["-m", "ad", "-t", "2"], ["-i", "inf"], ["-s", "lex_desc"], ["-m", "dd", "-i", "safe"]])
        jobs.append(L.job(L.Style(rng), s, args))
    done = []
    for lo in range(0, len(jobs), 1000):     # enough is enough when nothing ends any more
        part = jobs[lo:lo + 1000]
        panda.run(part, timeout=10, retry=False)
        panda.run([j for j in part if j.timeout][:8], timeout=40, retry=False)
        done += part
        if sum(j.timeout for j in done) > 30:
            break
    jobs = [j for j in done if not j.timeout] + [j for j in done if j.timeout][:8]
    obs = [{"kind": "refused", "doc": j.meta["doc"], "known": j.known is not None, "knownnames": 2 if j.meta["base"] in (21, 22) else 0, "timeout": j.timeout,
            "status": -1 if j.rc is None else j.rc, "message": message(j), "printed": any(re.search(r"\d", l) for l in j.out.splitlines())} for j in jobs]
    ctx.count(runs_on_malformed_files=len(jobs))
    for lo in range(0, len(obs), 15000):
        for k, v in sorted(core.judge(ctx, "JudgeInput", obs[lo:lo + 15000], name="runs").items()):
            j = jobs[lo + k]
            ctx.violation("run: " + L.key(j.meta), "%s\n%s\n%s" % (v, j.known if j.known is not None else j.text[:600], (j.out + j.err)[:600]), j.files())


def check(ctx):
    q, rng = ctx.quick, ctx.rng
    h = core.start_build(ctx)
    bases = [1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 22, 23, 24, 25]
    one = L.documents(ctx, bases, 1, 1)
    two = [s for s in L.documents(ctx, bases, 2, 1 if q else 6) if s["edits"] == 2]
    panda = core.Panda(ctx, core.wait_build(ctx, h))
    exe = L.harness(ctx, h)
    bad = [s for s in one + two if s["verdict"] == "error"]
    wanted = lambda v: v.startswith("malformed")
    L.read(ctx, exe, bad, rng, 2 if q else 6, wanted)
    for _ in range(1 if q else 3):
        runs(ctx, panda, bad, rng)
    ctx.sample({"document": L.brief(bad[-1]["doc"]), "text": L.Style(rng).document(bad[-1]["doc"])})
    ctx.count(documents=len(bad), evaluations=ctx.traces)
    ctx.assumptions.append("text outside of sections, empty sections and terms with coefficient 0 that are repeated are not specified")
