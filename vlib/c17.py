"""C17: the command line means what is documented."""
import itertools, os, re
from . import core, geometry as g
from .core import Job
from .integers import num, BASE, execute

FE_ROWS = [[0, 0, 0], [5, 0, 0], [0, 7, 0], [3, 4, 6], [1, 0, 8], [2, 9, 0], [6, 1, 1], [0, 0, 4]]
FE_RAYS = [[1, 0, 0], [2, 1, 3], [0, 1, 1]]
VE_ROWS = [[-1, 0, 0, 0], [0, -1, 0, 0], [0, 0, -1, 0], [1, 1, 1, -9], [1, 2, 0, -12], [0, 3, 1, -20], [2, 0, 5, -31], [1, 0, 0, -7]]
ORDERS = ["none", "lex_asc", "lex_desc", "nz_asc", "nz_desc", "rev"]
MODES = ["facets", "vertices"]


def rows_text(rows):
    return "".join(" ".join(map(str, r)) + "\n" for r in rows)


def universe(ctx, level, n):
    dump = os.path.join(ctx.sub("lines"), level + str(n))
    core.tlc_model(ctx, "OptionsUniverse", 'CONSTANTS Level="%s" MaxItems=%d\nINIT Init\nNEXT Next\nINVARIANTS OrderIrrelevant ErrorsPersist\nCHECK_DEADLOCK FALSE\n' % (level, n), name="Options_" + level, args=["-dump", dump])
    return [(s["items"], s["argv"]) for s in g.dump_states(dump + ".dump")]


def arrange(order, rows):
    """A file in the order that is asked for (TLC confirms it below)."""
    z = lambda r: r.count(0)
    return {"none": list(rows), "rev": rows[::-1], "lex_asc": sorted(rows), "lex_desc": sorted(rows, reverse=True),
            "nz_asc": sorted(rows, key=lambda r: (-z(r), r)), "nz_desc": sorted(rows, key=lambda r: (z(r), r))}[order]


class Probe:
    """The files a command line is tried on."""

    def __init__(self, ctx, direction):
        self.direction = direction
        self.dir = ctx.sub("files-" + direction)
        self.fe = direction == "facets"
        rng = ctx.rng
        p = self.write
        if self.fe:
            self.conv, self.cone = [r + [1] for r in FE_ROWS], [r + [0] for r in FE_RAYS]
            self.homog = self.conv + self.cone
            p("input", "Vertices:\n" + rows_text(FE_ROWS) + "Rays:\n" + rows_text(FE_RAYS))
            p("known", "Inequalities:\n0 -1 0 0\n")
            p("broken", "Inequalities:\n0 -1 0 0 0 0\n")
            p("check", "Names:\nx y\nMaps:\ny x\nVertices:\n0 0\n1 0\n0 2\n")
            p("checkknown", "Inequalities:\n-1 0 0\n")
            self.simplex = {}
            a = lambda k: [rng.randint(2**k - 40, 2**k) for _ in range(2)]
            for size, (x, y) in {1: (rng.randint(380, 420), rng.randint(380, 420)), 2: tuple(a(17))}.items():
                self.simplex[size] = [[0, 0, 1], [x, 0, 1], [0, y, 1]]
                p("size%d" % size, "Vertices:\n" + rows_text(r[:2] for r in self.simplex[size]))
                p("size%dknown" % size, "Inequalities:\n-1 0 0\n")
            r = lambda: rng.randint(2**30 - 100, 2**30)
            self.simplex[3] = [[0, 0, 0, 1], [r(), 2, 5, 1], [3, r(), -7, 1], [11, 13, r(), 1]]
            p("size3", "Vertices:\n" + rows_text(v[:3] for v in self.simplex[3]))
        else:
            self.homog = VE_ROWS
            p("input", "Inequalities:\n" + rows_text(VE_ROWS))
            p("known", "Vertices:\n0 0 0\n")
            p("broken", "Vertices:\n0 0 0 0 0\n")
            p("check", "Names:\nx y\nMaps:\ny x\nInequalities:\nx >= 0\ny >= 0\nx + 2y <= 2\n")
            p("checkknown", "Vertices:\n0 0\n")
        self.orders = []
        for k, o in enumerate(ORDERS):
            if self.fe:
                c, v = arrange(o, self.cone), arrange(o, self.conv)
                p("order-" + o, "Vertices:\n" + rows_text(r[:-1] for r in v) + "Rays:\n" + rows_text(r[:-1] for r in c))
                self.orders += [(o, self.cone, c), (o, self.conv, v)]
            else:
                v = arrange(o, VE_ROWS)
                p("order-" + o, "Inequalities:\n" + rows_text(v))
                self.orders.append((o, VE_ROWS, v))

    def write(self, name, text):
        with open(os.path.join(self.dir, name), "w") as f:
            f.write(text)

    def path(self, name):
        return os.path.join(self.dir, name)

    def argv(self, items, argv, probe):
        """Command line on the files of a probe."""
        names = {"input": self.path("input" if probe == "order" else probe), "nofile": self.path("nofile"), "broken": self.path("broken"),
                 "known": self.path("known" if probe == "order" else probe + "known")}
        return [re.sub(r"^(-k=|--known-\w+=|-k|)(input|nofile|broken|known)$", lambda m: m.group(1) + names[m.group(2)], a) for a in argv]


def functions(ctx, exe, probes, lines):
    asked, obs, owner = [], [], []
    for p in probes.values():
        script = p.path("ask")
        with open(script, "w") as f:
            f.write("#!/bin/sh\ncd '%s' && exec '%s'\n" % (p.dir, exe))
        os.chmod(script, 0o755)
        req = [">" + "\t".join(a) if a else "-" for _, a in lines]
        for (it, a), r, ans in zip(lines, req, execute(ctx, script, req)):
            if ans == "":
                continue
            key = "%s: %s" % (p.direction, " ".join(map(repr, a)))
            if ans is None:
                ctx.violation(key, "no answer for the command line %s" % key, {"arguments.txt": "\n".join(a)})
                continue
            got = dict(x.split("=", 1) for x in ans.split("\t") if x)
            o = {"kind": "functions", "items": it, "direction": p.direction, "hardware": got.pop("hardware"), "known": 0, "rows": p.homog, "sorted": []}
            d = got.get("data", "error")
            if d != "error":
                k, _, rows = d.partition(";")
                o["known"], o["sorted"] = int(k), [[int(x) for x in r.split()] for r in rows.split(",") if r]
                got["data"] = "read"
            o["got"] = got
            obs.append(o)
            owner.append((key, a, ans))
    ctx.count(command_lines_interpreted=len(obs))
    report(ctx, obs, owner, "functions")


def report(ctx, obs, owner, name):
    for lo in range(0, len(obs), 20000):
        for k, v in sorted(core.judge(ctx, "JudgeOptions", obs[lo:lo + 20000], name=name, consts="CONSTANT Base = %d" % BASE).items()):
            key, a, what = owner[lo + k]
            f = what.files() if isinstance(what, Job) else {"arguments.txt": "\n".join(a), "answer.txt": what}
            ctx.violation(key, "%s: %s\n%s" % (v, key, (what if isinstance(what, str) else what.out + what.err)[:600]), f)


def printed(out):
    return any(re.search(r"\d", l) for l in out.splitlines())


def observe(ctx, probes, j, offset, pages, outputs):
    m = j.meta
    p = probes[m["direction"]]
    o = {"kind": "run", "items": m["items"], "direction": m["direction"], "probe": m["probe"].rstrip("123"), "size": int(m["probe"][-1]) if m["probe"].startswith("size") else 0,
         "status": j.rc if j.rc is not None else -1, "message": bool(j.err.strip()), "printed": printed(j.out), "help": "--integer-type" in j.out + j.err and "--threads" in j.out + j.err,
         "version": "revision" in j.out + j.err, "page": "none", "method": "ad" if "Processing" in j.err else "dd",
         "threads": int(j.log) - offset if j.log and j.log.strip() else -1, "simplex": [[num(x) for x in r] for r in p.simplex[int(m["probe"][-1])]] if m["probe"].startswith("size") else [],
         "result": [], "output": 0, "outputs": outputs[m["direction"]]}
    same = [k for k, t in pages.items() if t == j.out]
    if len(same) == 1:
        o["page"] = same[0]
    if o["probe"] == "size" and j.rc == 0 and len(j.out) < 4000:
        try:
            o["result"] = [[num(int(x)) for x in r] for r in g.parse(j.out).get("Inequalities", [])]
        except (g.ParseError, ValueError):
            pass
    if o["probe"] == "order":
        o["output"] = index(j.out)
    return o


_texts = {}


def index(text):
    return _texts.setdefault(text, len(_texts) + 1)


def runs(ctx, panda, probes, lines, shim, rng):
    jobs = []
    env = {"LD_PRELOAD": shim, "THREADS_LOG": "@LOG@"}
    # what is needed to interpret the rest
    base = {d: [Job(None, ["-m", "ad", "-t", "1", p.path("input")], env=env)] for d, p in probes.items()}
    refs = {d: {o: Job(None, ["-m", "dd", p.path("order-" + o)]) for o in ORDERS} for d, p in probes.items()}
    longs = {"c": "check", "h": "help", "i": "integer-type", "k": "known-data", "m": "method", "s": "sorting", "t": "threads", "v": "version"}
    pg = {k: Job(None, ["--help=" + l]) for k, l in longs.items()}
    first = [j for b in base.values() for j in b] + [j for r in refs.values() for j in r.values()] + list(pg.values())
    # files of Job with env need a name for the log: the text is not used
    for j in first:
        j.meta = {}
    panda.run(first)
    pages = {k: j.out for k, j in pg.items() if "--" + longs[k] in j.out and j.rc == 0}
    outputs, offset = {}, {}
    obs, owner = [], []
    for d, p in probes.items():
        outputs[d] = {o: index(refs[d][o].out) for o in ORDERS}
        if len(set(outputs[d].values())) < len(ORDERS):
            ctx.notes.append("two orders of the probe file give the same output")
        log = base[d][0].log
        offset[d] = int(log) - 1 if log and log.strip() else None
        for o, before, after in p.orders:
            obs.append({"kind": "reference", "order": o, "before": before, "after": after})
            owner.append((o, [o], ""))
    for d, items, argv in lines:
        p = probes[d]
        for probe in p_probes(d, items, rng, ctx.quick):
            jobs.append(Job(None, p.argv(items, argv, probe), env=env, meta={"direction": d, "items": items, "probe": probe, "argv": argv}))
    panda.run(jobs, timeout=20, retry=False)
    hung = [j for j in jobs if j.timeout and not j.meta["probe"].startswith("size")]
    panda.run(hung[:50], timeout=60)
    for j in jobs:
        if j.timeout and not j.meta["probe"].startswith("size"):
            ctx.violation(key_of(j), "does not end: %s" % key_of(j), j.files())
            continue
        o = observe(ctx, probes, j, offset[j.meta["direction"]] or 0, pages, outputs)
        if o["threads"] >= 0 and offset[j.meta["direction"]] not in (0, 1):
            o["threads"] = 9999 if offset[j.meta["direction"]] is not None else -1
        obs.append(o)
        owner.append((key_of(j), j.args, j))
    ctx.count(command_lines_run=len(jobs))
    ctx.sample({"command": jobs[-1].args[:-1], "output": jobs[-1].out[:200]})
    report(ctx, obs, owner, "runs")


def key_of(j):
    return "%s %s: %s" % (j.meta["direction"], j.meta["probe"], " ".join(map(repr, j.meta["argv"])))


def p_probes(d, items, rng, quick):
    m = next((i["text"] for i in items if i["key"] == "m"), "ad")
    if any(i["what"] == "file" for i in items) and not any(i["what"] in ("help", "version", "topic") for i in items):
        out = ["order"]
        if any(i["what"] == "option" and i["key"] == "i" for i in items) and d == "facets":
            sizes = ["size1", "size2"]
            if not any(i["key"] == "k" for i in items):
                sizes.append("size3")
            out = sizes + ["order"]
        elif d == "facets" and rng.random() < .2:
            out += [rng.choice(["size1", "size2"])]
        if any(i["what"] == "flag" for i in items) or rng.random() < .1:
            out.append("check")
        return out
    return ["order"]


# -------------------------------------------------------------- sections
WORDS = {"conv": ["Vertices", "Vertices:", "CONV_SECTION", "CONVEX_HULL:", "CONV_SECTION:"], "cone": ["Rays", "Rays:", "CONE_SECTION", "CONICAL_HULL:"],
         "rconv": ["Reduced Vertices", "Reduced Vertices:", "REDUCED_CONV_SECTION"], "rcone": ["Reduced Rays", "Reduced Rays:", "REDUCED_CONE_SECTION"],
         "ineq": ["Inequalities", "Inequalities:", "INEQUALITY_SECTION", "INEQUALITIES_SECTION"], "rineq": ["Reduced Inequalities", "Reduced Inequalities:", "REDUCED_INEQUALITY_SECTION"],
         "eq": ["Equations", "Equations:", "EQUATION_SECTION", "EQUATIONS"]}
BODY = {"conv": "0 0 1\n1 0 1\n0 1 1\n", "rconv": "0 0 1\n1 0 1\n", "cone": "1 2 0\n2 1 0\n", "rcone": "1 2 0\n",
        "ineq": "-x <= 0\n-y <= 0\nx + y <= 3\nz <= 1\nz >= 1\n", "rineq": "-x <= 0\nx + y <= 3\nz <= 1\nz >= 1\n", "eq": "z = 1\n"}


def sections(ctx, panda, rng):
    names = list(BODY)
    jobs = []
    for n in (1, 2, 3, 4):
        for S in itertools.permutations(names, n) if n < 3 else [tuple(rng.sample(names, n)) for _ in range(150)]:
            if any("r" + x in S and x in S for x in S) or not {"conv", "rconv", "ineq", "rineq", "eq"} & set(S):
                continue
            if {"cone", "rcone"} & set(S) and not {"conv", "rconv"} & set(S) and not {"ineq", "rineq", "eq"} & set(S):
                continue
            for rep in range(1 if n > 1 else 6):
                head = ["Names:\nx y z\n", "Maps:\ny x z\n"]
                body = [rng.choice(["", " ", "\t"]) + rng.choice(WORDS[s]) + rng.choice(["", " ", "\r"]) + "\n" + BODY[s] + rng.choice(["", "END\n", "\n"]) for s in S]
                text = "".join(head + body)
                for m in ("ad", "dd"):
                    jobs.append(Job(text, ["-m", m, "-i", "64"], meta={"sections": list(S)}))
    panda.run(jobs)
    obs, owner = [], []
    for j in jobs:
        op = [{"Inequalities": "facets", "Vertices": "vertices", "Equations": "facets"}.get(re.sub(r"^Reduced ", "", j.out.lstrip()).split(":")[0].split(" ")[0], "none")]
        obs.append({"kind": "sections", "sections": j.meta["sections"], "status": j.rc if j.rc is not None else -1, "message": bool(j.err.strip()), "printed": printed(j.out), "operation": op[0]})
        owner.append(("sections %s" % " ".join(j.meta["sections"]), j.args, j))
    ctx.count(files_with_combined_sections=len(jobs))
    report(ctx, obs, owner, "sections")


def check(ctx):
    q, rng = ctx.quick, ctx.rng
    h = core.start_build(ctx)
    full, pairs = universe(ctx, "full", 2), universe(ctx, "pairs", 2 if q else 3)
    many = universe(ctx, "many", 3 if q else 5)
    pairs3 = [] if not q else universe(ctx, "many", 4)
    panda = core.Panda(ctx, core.wait_build(ctx, h))
    skip = ("main.",)
    objs = [o for o in h["objs"] if not os.path.basename(o).startswith(skip)]
    exe = core.compile_harness(ctx, "options", [os.path.join(core.HARNESS, "options.cpp")], objs=objs, optional=True)
    shim = core.compile_harness(ctx, "threads.so", [os.path.join(core.HARNESS, "threads.c")], std="gnu11", flags="-O1 -shared -fPIC", ldflags="-ldl", cxx="gcc")
    probes = {d: Probe(ctx, d) for d in MODES}
    pick = lambda L, n: L if len(L) <= n else rng.sample(L, n)
    if exe:
        functions(ctx, exe, probes, full + pick(pairs, 5000 if q else 60000) + pick(many + pairs3, 4000 if q else 60000))
    lines = [(d, i, a) for d in probes for i, a in full] + [(rng.choice(list(probes)), i, a) for i, a in pick(pairs, 1500 if q else 30000) + pick(many + pairs3, 1500 if q else 30000)]
    runs(ctx, panda, probes, lines, shim, rng)
    sections(ctx, panda, rng)
    ctx.count(evaluations=ctx.traces)
    ctx.assumptions.append("every option at most once; undocumented options are not used; an illegal number of threads matters to adjacency decomposition only; int and the 32 bit type cannot be told apart by runs")
