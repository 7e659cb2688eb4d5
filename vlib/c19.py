"""C19: scoped helpers - guards, delayed actions, joining threads, guarded and peeked files."""
import os
from . import core, geometry as g
from .integers import execute

HELPERS = "CONSTANTS Slots=%d MaxLen=%d Delays=%s Steps=%s MaxClock=2100000000 Kinds=%s Walkers=%d\nINIT Init\nNEXT Next\nINVARIANTS AtMostOnce DismissedNever Complete\nCHECK_DEADLOCK FALSE\n"
STREAMS = "CONSTANTS MaxLen=%d Nesting=%d Walkers=%d\nINIT Init\nNEXT Next\nINVARIANTS PeekReads WordReads Restored Positions\nCHECK_DEADLOCK FALSE\n"


def states(ctx, module, cfg, name):
    dump = os.path.join(ctx.sub("programs"), name)
    core.tlc_model(ctx, module, cfg, name=name, args=["-dump", dump, "-seed", str(ctx.seed)])
    return g.dump_states(dump + ".dump")


def maximal(programs):
    """Programs that are no proper prefix of another one (replaying those replays all)."""
    keys = {k for k, _ in programs}
    inner = {k[:-1] for k in keys if len(k[-1])}
    return [p for k, p in programs if k not in inner]


def helpers(ctx, exes):
    q, rng = ctx.quick, ctx.rng
    D, S = "{0,1,1000000,2000000,1000000000}", "{1,999999,1000000,999000000}"
    runs = [(2, 4, D, S, '{"guard","delay","thread"}', 0), (2, 6 if q else 7, "{1,2}", "{1}", '{"guard","thread"}', 0), (2, 5, "{0,1,2}", "{1}", '{"delay"}', 0), (2, 5, "{3,5}", "{2,3}", '{"delay","guard"}', 0),
            (4, 16, D, S, '{"guard","delay","thread"}', 700 if q else 5000), (6, 30, D, S, '{"guard","delay","thread"}', 150 if q else 3000)]
    progs = {}
    for n, r in enumerate(runs):
        found = []
        for s in states(ctx, "HelpersUniverse", HELPERS % r, "helpers%d" % n):
            p = tuple((o["op"], o["i"], o["j"], o["v"]) for o in s["prog"])
            if p:
                found.append(p)
        inner = {p[:-1] for p in found}
        found = [p for p in found if p not in inner]
        cap = 2500 if q else 15000
        for p in found if len(found) <= cap else rng.sample(found, cap):
            progs[p] = 1
    cases = [(p, u) for p in progs for u in ([rng.choice([1, 1, 10**6, 10**9])] if q or len(p) < 4 else [1, 1000, 10**9])]
    lines = ["helpers %d %s" % (u, ";".join("%s,%d,%d,%d" % o for o in p)) for p, u in cases]
    for exe in exes:
        obs, owner = [], []
        for (p, u), l, a in zip(cases, lines, execute(ctx, exe, lines, chunk=200)):
            if a == "":
                continue
            if a is None or a.startswith(("exception", "malformed", "no virtual")):
                if a and not a.startswith("exception"):
                    raise core.CheckError(a)
                ctx.violation(l, "the program using the helpers aborts or does not end (%s)\n%s" % (a, l), {"program.txt": l})
                continue
            obs.append({"prog": [dict(zip(("op", "i", "j", "v"), (o[0], o[1], o[2], o[3]))) for o in p], "runs": [[int(x) for x in s.split(",")[:-1]] for s in a.split(";")[:-1]]})
            owner.append(l)
        for start in range(0, len(obs), 15000):
            for k, v in sorted(core.judge(ctx, "JudgeHelpers", obs[start:start + 15000]).items()):
                l = owner[start + k]
                if "outside the domain" in v:
                    raise core.CheckError("program outside the domain: " + l)
                ctx.violation(l, "%s\nprogram %s (times in units of %s ns)" % (v, l.split()[2], l.split()[1]), {"program.txt": l})
        ctx.count(helper_programs=len(obs))
    ctx.sample({"program": lines[-1], "runs": obs[-1]["runs"]})


def streams(ctx, exe):
    q, rng = ctx.quick, ctx.rng
    d = ctx.sub("files")
    cases = {}
    for n, r in enumerate([(4 if q else 5, 2, 0), (12, 3, 2000 if q else 10000), (30, 3, 200 if q else 2000)]):
        found = []
        for s in states(ctx, "StreamsUniverse", STREAMS % r, "streams%d" % n):
            p, c = tuple(s["prog"]), "".join(s["f"]["content"])
            if p:
                found.append((c, p, s["walker"]))
        inner = {(c, p[:-1], w) for c, p, w in found}
        found = [(c, p) for c, p, w in found if (c, p, w) not in inner]
        for x in found if len(found) <= 6000 else rng.sample(found, 6000):
            cases[x] = 1
    names = {}
    for c, p in cases:
        if c not in names:
            names[c] = os.path.join(d, "f%d" % len(names))
            with open(names[c], "w") as f:
                f.write("".join("\n" if x == "n" else " " if x == "_" else x for x in c))
    cases = list(cases)
    lines = ["stream %s %s" % (names[c], ";".join(p)) for c, p in cases]
    obs, owner = [], []
    for (c, p), l, a in zip(cases, lines, execute(ctx, exe, lines)):
        if a == "":
            continue
        if a is None or a.startswith("exception"):
            ctx.violation(c + " " + l.split()[2], "reading a file aborts (%s)\n%s" % (a, l), {"program.txt": l, "content.txt": c})
            continue
        seen = [x.split(",") for x in a.split(";")[:-1]]
        obs.append({"content": list(c), "prog": list(p), "seen": [{"pos": int(x[0]), "eof": x[1] == "1", "fail": x[2] == "1", "out": list(x[3])} for x in seen]})
        owner.append((c, p, l, a))
    for start in range(0, len(obs), 15000):
        for k, v in sorted(core.judge(ctx, "JudgeStreams", obs[start:start + 15000]).items()):
            c, p, l, a = owner[start + k]
            if "outside the domain" in v:
                raise core.CheckError("program outside the domain: " + l)
            ctx.violation(c + " " + ";".join(p), "%s\nfile %r, operations %s\nobserved %s" % (v, c, ";".join(p), a), {"program.txt": l, "content.txt": c, "observed.txt": a})
    ctx.count(stream_programs=len(obs), files=len(names))
    ctx.sample({"file": owner[-1][0], "operations": list(owner[-1][1])})


def check(ctx):
    h = core.start_build(ctx)
    core.wait_build(ctx, h)
    objs = [o for o in h["objs"] if not os.path.basename(o).startswith("main.")]
    src = [os.path.join(core.HARNESS, "helpers.cpp")]
    exes = [core.compile_harness(ctx, "helpers", src, objs=objs, flags="-O0 -fno-elide-constructors"),
            core.compile_harness(ctx, "helpers-o2", src, objs=objs, flags="-O2")]
    helpers(ctx, exes)
    streams(ctx, exes[1])
    ctx.assumptions.append("actions do not throw; files are in a good state when a guarded use or a look ahead begins (and hold another word for peekWord)")
