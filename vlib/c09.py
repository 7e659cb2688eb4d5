"""C09: all notations of a document have the same meaning."""
import os
from . import core, geometry as g, language as L
from .core import Job


def runs(ctx, panda, states, rng, n):
    """The whole program: two notations of a document give the same output."""
    ok = [s for s in states if s["verdict"] == "ok" and s["base"] < 9 and not any(x["kind"] == "maps" for x in s["doc"])]
    ok = ok if len(ok) <= n else [s for s in ok if s["edits"] == 0] + rng.sample(ok, n)
    pairs = []
    for s in ok:
        names = rng.choice(L.NAMES)
        args = rng.choice([["-m", "dd"], ["-m", "ad", "-t", "1"]]) + ["-i", "64"] + rng.choice([[], ["-s", "lex_asc"]])
        two = []
        for plain in (True, False):
            st = L.Style(rng, plain=plain)
            st.names = names
            two.append(L.job(st, s, args))
        pairs.append(two)
    jobs = [j for p in pairs for j in p]
    panda.run(jobs, timeout=3, retry=False)
    obs, owner = [], []
    for a, b in pairs:
        if a.timeout or b.timeout:
            continue
        ids = {}
        obs.append({"kind": "equal", "doc": a.meta["doc"], "outputs": [ids.setdefault((j.rc, j.out), len(ids)) for j in (a, b)]})
        owner.append((a, b))
    ctx.count(pairs_of_runs=len(obs))
    for k, v in sorted(core.judge(ctx, "JudgeInput", obs, name="runs").items()):
        a, b = owner[k]
        f = b.files()
        f["plain.txt"] = a.text
        ctx.violation("run: " + L.key(a.meta), "%s\n%s\n%s" % (v, a.text[:500], b.text[:500]), f)


def spellings(ctx, panda, rng, n):
    """The whole program: every word for every section."""
    dump = os.path.join(ctx.sub("docs"), "spellings")
    core.tlc_model(ctx, "InputSpellings", "INIT Init\nNEXT Next\nINVARIANT Unambiguous\nCHECK_DEADLOCK FALSE\n", args=["-dump", dump])
    groups = {}
    for s in g.dump_states(dump + ".dump"):
        groups.setdefault((frozenset(s["order"]), s["order"][s["at"] - 1], s["word"], s["colon"], s["end"]), []).append(s)
    plain, jobs = {}, []
    order = ["dim", "names", "maps", "conv", "rconv", "cone", "rcone", "ineq", "rineq", "eq"]
    for key in sorted(groups, key=lambda x: (sorted(x[0]),) + x[1:]):
        same = groups[key]
        for s in same if len(same) <= n else rng.sample(same, n):
            args = rng.choice([["-m", "dd"], ["-m", "ad", "-t", "1"]])
            c = (key[0], tuple(args))
            if c not in plain:
                plain[c] = Job(L.spelled(sorted(key[0], key=order.index)), args)
            jobs.append(Job(L.spelled(s["order"], s["at"] - 1, s["word"], s["colon"], s["end"]), args, meta=(c, s)))
    panda.run(jobs + list(plain.values()), timeout=10, retry=True)
    obs = []
    for j in jobs:
        p = plain[j.meta[0]]
        obs.append({"kind": "spelling", "outputs": [[p.rc if p.rc is not None else -99, p.out], [j.rc if j.rc is not None else -99, j.out]]})
    ctx.count(spellings=len(jobs))
    for k, v in sorted(core.judge(ctx, "JudgeInput", obs, name="spellings").items()):
        j = jobs[k]
        f = j.files()
        f["plain.txt"] = plain[j.meta[0]].text
        ctx.violation("spelling %s%s%s in %s" % (j.meta[1]["word"], ":" * j.meta[1]["colon"], " " + j.meta[1]["end"], " ".join(j.meta[1]["order"])), "%s\n%s\n%s" % (v, j.text, (j.out + j.err)[:600]), f)


def check(ctx):
    q, rng = ctx.quick, ctx.rng
    h = core.start_build(ctx)
    bases = [1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 22, 23, 24, 25]
    one = L.documents(ctx, bases, 1, 1)
    two = [s for s in L.documents(ctx, bases, 2, 2 if q else 8) if s["edits"] == 2]
    panda = core.Panda(ctx, core.wait_build(ctx, h))
    exe = L.harness(ctx, h)
    ok = [s for s in one + two if s["verdict"] == "ok"]
    wanted = lambda v: not v.startswith("malformed")
    L.read(ctx, exe, [s for s in ok if s["edits"] == 0] * (200 if q else 1000), rng, 1, wanted)
    L.read(ctx, exe, ok, rng, 3 if q else 8, wanted)
    spellings(ctx, panda, rng, 3 if q else 100)
    runs(ctx, panda, ok, rng, 400 if q else 4000)
    ctx.sample({"document": L.brief(ok[-1]["doc"]), "text": L.Style(rng).document(ok[-1]["doc"])})
    ctx.count(documents=len(ok), evaluations=ctx.traces)
    ctx.assumptions.append("relations and terms are separated by blanks as documented; names are words that neither contain a sign nor start with a digit; numbers fit into 32 bits")
