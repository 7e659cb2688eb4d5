"""C15: bit sets behave as sets of indices."""
import json, os
from . import core, geometry as g
from .integers import execute

SIZES = [1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 30, 40, 50, 75, 100, 150, 200]


def theory(ctx):
    for w, n in ([(2, 2), (3, 2)] if ctx.quick else [(2, 2), (3, 2), (2, 3), (1, 4), (4, 2)]):
        core.tlc_model(ctx, "BitsetWords", "CONSTANTS Width=%d Words=%d\nINIT Init\nNEXT Next\nINVARIANTS Faithful EqualByWords ContainsByWords CountByWords UnionCountByWords MergeByWords\nCHECK_DEADLOCK FALSE\n" % (w, n), name="BitsetWords_%d_%d" % (w, n))


def programs(ctx, length):
    dump = os.path.join(ctx.sub("programs"), "b%d" % length)
    core.tlc_model(ctx, "BitsetPrograms", "CONSTANTS Registers=3 Places=4 MaxLength=%d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" % length, args=["-dump", dump])
    return [s["program"] for s in g.dump_states(dump + ".dump")]


def case(rng, prog, words, cap, bound):
    """Concrete indices for the places of a program."""
    def edge(b):
        k = rng.randint(0, (b - 1) // 32)
        return min(b - 1, rng.choice([32 * k, 32 * k + 31, b - 1, 0, rng.randrange(b), 32 * ((b - 1) // 32), 32 * ((b - 1) // 32) - 1 if b > 32 else 0]))
    regs = []
    for _ in range(3):
        r = rng.random()
        if r < .2 and regs:
            x = set(rng.choice(regs))
            if rng.random() < .7:
                x ^= {edge(bound)}
        elif r < .3:
            x = set(range(bound)) - {edge(bound) for _ in range(rng.randint(0, 2))}
        else:
            x = {edge(bound) for _ in range(rng.randint(0, 6))}
        if len(x) > 400:
            x = {edge(bound) for _ in range(6)}
        regs.append(sorted(x))
    b, steps = bound, []
    for i in prog:
        x = 0
        if i["op"] == "set":
            x = edge(b)
        elif i["op"] == "grow":
            x = min(cap, b + 1 if i["x"] == 1 else b + rng.randint(1, 40))
            b = x
        steps.append((i["op"], i["d"], i["s"], i["t"], x))
    return {"words": words, "cap": cap, "bound": bound, "init": regs, "steps": steps}


def line(c):
    return "%d %d %d %s %d %s" % (c["words"], c["cap"], c["bound"], " ".join("%d %s" % (len(r), " ".join(map(str, r))) for r in c["init"]), len(c["steps"]), " ".join("%s %d %d %d %d" % s for s in c["steps"]))


def check(ctx):
    q, rng = ctx.quick, ctx.rng
    theory(ctx)
    one = programs(ctx, 1)
    two = programs(ctx, 2)
    src = [os.path.join(core.HARNESS, "bitsets.cpp"), os.path.join(core.REPO, "src", "bitset_variable_size.cpp")]
    exes = [core.compile_harness(ctx, "bitsets", src, flags="-O1")]
    if not q:
        exes.append(core.compile_harness(ctx, "bitsets-o3", src, flags="-O3"))
    try:
        exes.append(core.compile_harness(ctx, "bitsets-portable", src, flags="-O1 -DHARNESS_PORTABLE"))
        ctx.cov["portable_popcount"] = True
    except core.CheckError as e:
        # only a build configuration that panda does not claim for this compiler
        ctx.cov["portable_popcount"] = False
        ctx.log("no portable build")
    cases = []
    # every capacity of up to four words and a bit more, with both representations, every program of one instruction somewhere
    caps = list(range(1, 163)) + [c for s in SIZES if s > 5 for c in (32 * s - 31, 32 * s - 1, 32 * s)]
    for cap in caps:
        words = [0] + [min(s for s in SIZES if 32 * s >= cap)] + ([rng.choice([s for s in SIZES if 32 * s >= cap])] if cap < 2000 else [])
        for w in words:
            for _ in range((7 if q else 60) if cap < 400 else (2 if q else 10)):
                bound = rng.choice([cap, cap, cap, rng.randint(1, cap), min(cap, 32), min(cap, 33), min(cap, 64)])
                cases.append(case(rng, rng.choice(two), w, cap, bound))
    for p in one:
        for w, cap in [(0, 32), (1, 32), (0, 33), (2, 33), (0, 64), (2, 64), (3, 65), (0, 96), (4, 128), (1, 5), (0, 1), (1, 1)]:
            cases.append(case(rng, p, w, cap, cap))
    for p in rng.sample(two, len(two) if not q else 700):
        w, cap = rng.choice([(0, 32), (1, 32), (0, 33), (2, 33), (0, 64), (2, 64), (3, 65), (0, 96), (4, 128), (5, 160)])
        cases.append(case(rng, p, w, cap, rng.choice([cap, rng.randint(1, cap)])))
    for _ in range(100 if q else 2000):
        cap = rng.choice([40, 64, 96, 128, 200])
        cases.append(case(rng, [i for _ in range(6) for i in rng.choice(two)], rng.choice([0, min(s for s in SIZES if 32 * s >= cap)]), cap, rng.randint(1, cap)))
    obs, owner, seen = [], [], {}
    for k, exe in enumerate(exes):
        part = cases if k == 0 or not q else rng.sample(cases, 700)
        for c, a in zip(part, execute(ctx, exe, [line(c) for c in part])):
            if a == "":
                continue
            if a is None:
                ctx.violation(line(c), "the operations abort or do not end", {"program.txt": line(c)})
                continue
            obs.append({"bound": c["bound"], "init": c["init"], "run": json.loads(a)})
            owner.append((c, os.path.basename(exe)))
    for k, v in sorted(core.judge(ctx, "JudgeBitset", obs, consts="CONSTANT Registers = 3").items()):
        c, exe = owner[k]
        if "outside the domain" in v:
            raise core.CheckError("program outside the domain: %r" % (c,))
        ctx.violation(line(c), "%s, %s, capacity %d, %d indices in use\ninitial sets %s\nsteps %s" % (v, "variable size" if not c["words"] else "%d words" % c["words"], c["cap"], c["bound"], c["init"], c["steps"]),
                      {"program.txt": line(c), "observed.json": json.dumps(obs[k])})
    ctx.count(programs=len(obs), capacities=len({c["cap"] for c in cases}), representations=len(SIZES) + 1)
    ctx.sample({"case": owner[-1][0], "observed": obs[-1]["run"][:1]})
    ctx.assumptions.append("all members of the sets are below the number of indices in use, as in the elimination")
