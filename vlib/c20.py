"""C20: distributed runs of the adjacency decomposition."""
import os, shutil, signal, struct, subprocess, time
from . import core, fe, geometry as g, sym
from .core import Job

CFG = ("CONSTANTS Nodes=%d Threads=%d Local=%d Rows=%d AllGraphs=%s Synchronous=%s SendLock=%s ReceiveLock=%s EndPerThread=%s Failing=%s\n"
       "SPECIFICATION Spec\nINVARIANTS Once Unmixed Complete NoDeadlock\nPROPERTY Termination\nCHECK_DEADLOCK FALSE\n")


def theory(ctx):
    """The protocol keeps its promises, and does not without any one of its locks."""
    B = lambda b: "TRUE" if b else "FALSE"
    sizes = [(1, 2, 1, 3, False, False), (1, 2, 0, 3, False, True), (2, 1, 0, 3, False, False), (1, 1, 1, 2, True, False)]
    if not ctx.quick:
        sizes += [(1, 2, 1, 3, False, True), (2, 1, 1, 3, False, True), (2, 2, 0, 3, False, False), (1, 2, 1, 4, False, False), (1, 2, 0, 2, True, True)]
    for k, (n, t, l, r, a, s) in enumerate(sizes):
        core.tlc_model(ctx, "Distributed", CFG % (n, t, l, r, B(a), B(s), "TRUE", "TRUE", "TRUE", "TRUE"), name="Distributed%d" % k)
    for k, ablation in enumerate([("FALSE", "TRUE", "TRUE"), ("TRUE", "FALSE", "TRUE"), ("TRUE", "TRUE", "FALSE")]):
        out, st = core.tlc(ctx, "Distributed", CFG % ((1, 2, 1, 3, "FALSE", "FALSE") + ablation + ("TRUE",)), name="Ablation%d" % k)
        if not st["violated"]:
            raise core.CheckError("the specification does not need lock %d:\n%s" % (k, out[-2000:]))
    ctx.count(ablations_refuted=3)


# ------------------------------------------------------------------ running
class Run:
    """One distributed run."""

    def __init__(self, job, nodes, env):
        self.job, self.nodes, self.env = job, nodes, env
        self.status, self.outs, self.errs, self.events, self.hung = [], [], [], [], False

    def files(self):
        f = self.job.files()
        f["command.txt"] = "FAKE_MPI_SIZE=%d %s; ranks 0..%d of: %s" % (self.nodes, " ".join("%s=%s" % x for x in self.env.items()), self.nodes - 1, f["command.txt"])
        for k in range(len(self.outs)):
            f["node%d.out" % k], f["node%d.err" % k] = self.outs[k], self.errs[k][-5000:]
        f["status.txt"] = "%s hung=%s" % (self.status, self.hung)
        f["network.txt"] = "\n".join(" ".join(map(str, e)) for e in self.events[-3000:])
        return f


def launch(ctx, exe, r, limit):
    d = ctx.sub("d%d-%d" % (id(r), int(time.time() * 1e6) % 10**9))
    j = r.job
    with open(os.path.join(d, "input.txt"), "w") as f:
        f.write(j.text)
    argv = [exe, os.path.join(d, "input.txt")] + j.args
    if j.known is not None:
        with open(os.path.join(d, "known.txt"), "w") as f:
            f.write(j.known)
        argv += ["-k", os.path.join(d, "known.txt")]
    procs = []
    # a file of zeroes that exists before any of the processes looks for it
    for k in range(r.nodes):
        e = dict(os.environ, FAKE_MPI_DIR=d, FAKE_MPI_RANK=str(k), FAKE_MPI_SIZE=str(r.nodes), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", **r.env)
        procs.append(subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=open(os.path.join(d, "out%d" % k), "w"), stderr=open(os.path.join(d, "err%d" % k), "w"),
                                      env=e, preexec_fn=core._limits(0)))
    end, broken = time.time() + limit, None
    while True:
        st = [p.poll() for p in procs]
        if all(s is not None for s in st):
            break
        now = time.time()
        if broken is None and any(s not in (None, 0) for s in st):
            broken = now + 3          # the others are ended by whoever started them
        if now > end or (broken and now > broken):
            r.hung = broken is None
            for p in procs:
                if p.poll() is None:
                    p.kill()
            break
        time.sleep(.005 if now < end - limit + .3 else .05)
    r.status = [p.wait() for p in procs]
    r.outs = [open(os.path.join(d, "out%d" % k), encoding="latin-1").read() for k in range(r.nodes)]
    r.errs = [open(os.path.join(d, "err%d" % k), encoding="latin-1").read() for k in range(r.nodes)]
    ev = []
    for k in range(r.nodes):
        p = os.path.join(d, "log.%d" % k)
        if os.path.exists(p):
            for l in open(p):
                x = l.rstrip("\n").split(" ")
                if len(x) >= 8:
                    ev.append((int(x[0]), int(x[1]), int(x[2]), x[3], int(x[4]), int(x[5]), int(x[6]), x[8] if len(x) > 8 else ""))
    r.events = sorted(ev)
    shutil.rmtree(d, True)
    return r


def result(kind, names, rc, out):
    bad = {"ok": False, "eqs": [], "rows": []}
    if rc != 0:
        return bad
    if names:
        return {"ok": True, "eqs": [], "rows": [l.strip() for l in out.splitlines() if l.strip()]}
    try:
        eqs, rows = g.parse_fe(out) if kind == "fe" else ([], g.parse_ve(out))
    except g.ParseError:
        return bad
    return {"ok": True, "eqs": [" ".join(map(str, x)) for x in eqs], "rows": [" ".join(map(str, x)) for x in rows]}


def spellings(row):
    """A row as it may appear in a message."""
    try:
        v = [int(x) for x in row.split()]
    except ValueError:
        return []
    out = []
    for s in (1, -1):
        for fmt in ("i", "q"):
            try:
                out.append(struct.pack("<%d%s" % (len(v), fmt), *[s * x for x in v]).hex())
            except struct.error:
                pass
    return sorted(set(out))


def observe(r, single):
    m = r.job.meta
    res = result(m["kind"], m["names"], r.status[0], r.outs[0])
    one = result(m["kind"], m["names"], single.rc if not single.timeout else None, single.out)
    processed = sum(1 for l in r.errs[0].splitlines() if l.startswith("Processing #"))
    return {"nodes": r.nodes, "hung": r.hung, "status": r.status, "single": one, "result": res,
            "others": all(not o.strip() for o in r.outs[1:]),
            "jobs": [spellings(x) for x in res["rows"]] if not m["names"] else [],
            "processed": processed if processed and not m["names"] else -1,
            "events": [{"k": e[3], "r": e[1], "t": e[2], "peer": e[4], "tag": e[5], "id": e[6], "data": e[7]} for e in r.events] if one["ok"] and all(s == 0 for s in r.status) else []}


# ------------------------------------------------------------------- inputs
FIXED = [
    ("fe", "Vertices:\n0 0\n70000 1\n1 70001\n", ["-i", "64"]),
    ("fe", "Vertices:\n0 0\n3 1\n1 4\n", ["-i", "inf"]),
    ("fe", "Vertices:\n0 0\n3 1\n1 4\n-2 1\n", ["-i", "safe"]),
    ("fe", "Vertices:\n0 0\n3 1\n1 4\n-2 1\n", ["-i", "16"]),
    ("fe", "Vertices:\n0\n5\n", []),
    ("fe", "Vertices:\n3\nRays:\n1\n", []),
    ("fe", "Vertices:\n1 2\n", []),
    ("fe", "Vertices:\n0 0\nRays:\n1 0\n-1 0\n0 1\n", []),
    ("fe", "Vertices:\n0 0 0\nRays:\n1 0 0\n-1 0 0\n0 1 0\n0 0 1\n", []),
    ("fe", "Vertices:\n" + "".join("%d %d %d\n" % (a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)), []),
    ("ve", "Inequalities:\n" + "".join(" ".join(str(s * (i == k)) for i in range(3)) + " -1\n" for k in range(3) for s in (1, -1)), []),
    ("ve", "Inequalities:\n-1 0\n", []),
]
FAILING = ("fe", "Names:\nx y z\nMaps:\ny x z\nVertices:\n1000000007 3 1\n3 1000000007 1\n0 0 7\n", ["-i", "inf"])
# entries of rows that do not fit the messages: the run ends visibly, but a single process works
WIDE = ("fe", "Vertices:\n0 0\n70000 1\n1 70001\n", ["-i", "inf"])


def inputs(ctx):
    rng, out = ctx.rng, []
    names = lambda t: "Names" in t
    for kind, text, args in FIXED + [FAILING]:
        out.append(Job(text, args, meta={"kind": kind, "names": names(text)}))
    n = 250 if ctx.quick else 2500
    U = fe.universe(ctx, 2, 1, 4, 1, invariants=False)
    for gens in rng.sample(U, min(len(U), n // 2)):
        out.append(Job(g.gens_text(gens), [], meta={"kind": "fe", "names": False}))
    while len(out) < n:
        kind = rng.choice(["fe", "fe", "ve"])
        if kind == "fe":
            j = Job(g.gens_text(fe.random_gens(rng)), [], meta={"kind": "fe", "names": False})
        else:
            A, E = fe.random_cons(rng)
            j = Job(g.cons_text(A, E), [], meta={"kind": "ve", "names": False})
        j.args = list(rng.choice([[], [], ["-i", "64"], ["-i", "safe"], ["-i", "inf"], ["-s", rng.choice(["lex_asc", "nz_desc", "rev"])], ["-c"]]))
        out.append(j)
    for _ in range(n // 10):
        out.append(Job(g.gens_text(fe.zero_one(rng, rng.choice([3, 4, 4]), rng.randint(6, 8))), [], meta={"kind": "fe", "names": False}))
    for _ in range(n // 3):
        gens, maps = sym.case(rng)
        red = rng.random() < .4
        if red:
            gens = sym.representatives(rng, gens, maps)
        out.append(Job(sym.gens_text(gens, maps, red), rng.choice([[], ["-i", "64"]]), meta={"kind": "fe", "names": True}))
    return out


def known(ctx, jobs):
    """Some of the runs once more, continued from a part of their result."""
    more = []
    for j in jobs:
        if not j.failed() and not j.meta["names"] and ctx.rng.random() < .3:
            try:
                eqs, rows = g.parse_fe(j.out) if j.meta["kind"] == "fe" else ([], g.parse_ve(j.out))
            except g.ParseError:
                continue
            if not rows:
                continue
            part = ctx.rng.sample(rows, ctx.rng.randint(1, len(rows)))
            text = "Inequalities:\n" + "".join(" ".join(map(str, r)) + "\n" for r in part) if j.meta["kind"] == "fe" else g.gens_text(part)
            if j.meta["kind"] == "ve" and not any(r[-1] for r in part):
                continue
            more.append(Job(j.text, j.args, known=text, meta=j.meta))
    return more


def profile(rng, nodes):
    p = {"FAKE_MPI_SEED": str(rng.randint(1, 10**6)), "FAKE_MPI_SYNC": rng.choice(["0", "0", "1"])}
    if rng.random() < .4:
        p["FAKE_MPI_SLOW"] = str(rng.randrange(nodes))
    if rng.random() < .15:
        p["FAKE_MPI_JITTER"] = "0"
    return p


def check(ctx):
    rng = ctx.rng
    asan = "-fsanitize=address -fno-omit-frame-pointer"
    network = ("communication", "job_", "message_", "fake_mpi", "list", "method_adjacency_decomposition.cpp")
    h = core.start_build(ctx, flags="-O1 -DMPI_SUPPORT -I%s/mpi" % core.HARNESS, extra_src=("mpi/fake_mpi.cpp",), linkflags=asan, ldflags="-ldl",
                         special=lambda b: " " + asan if b.startswith(network) else "", cxx=core.CXX)
    jobs = inputs(ctx)
    theory(ctx)
    exe = core.wait_build(ctx, h)
    single(ctx, exe, jobs)
    more = known(ctx, jobs)
    single(ctx, exe, more)
    jobs += more
    slow = [j for j in jobs if j.timeout]
    if len(slow) > len(jobs) // 4:
        ctx.violation("single", "runs of a single process with message passing do not end\n" + slow[0].text, slow[0].files())
        return
    jobs = [j for j in jobs if not j.timeout]
    runs = []
    for k, j in enumerate(jobs):
        for _ in range(3 if ctx.quick else 8):
            nodes = rng.choice([2, 2, 3, 3, 4, 5])
            t = rng.choice([1, 1, 2, 2, 3])
            if nodes * t > 10:
                t = 2
            job = Job(j.text, j.args + ["-t", str(t)], known=j.known, meta=j.meta)
            job.out, job.rc = j.out, j.rc
            runs.append((Run(job, nodes, profile(rng, nodes)), j))
    rng.shuffle(runs)
    hung = []

    def go(x):
        if len(hung) < 4:
            launch(ctx, exe, x[0], 25)
            if x[0].hung:
                hung.append(x)
            return x
        return None
    done = [x for x in core.pmap(go, runs, workers=6) if x]
    for x in hung[:2]:           # a slow machine is not a hang
        r = Run(x[0].job, x[0].nodes, x[0].env)
        launch(ctx, exe, r, 60)
        if not r.hung:
            done[done.index(x)] = (r, x[1])
    ctx.log("%d distributed runs" % len(done))
    wide = Job(WIDE[1], WIDE[2], meta={"kind": "fe", "names": False})
    single(ctx, exe, [wide])
    r = launch(ctx, exe, Run(wide, 2, {"FAKE_MPI_SEED": "1"}), 60)
    done.append((r, wide))
    obs = [observe(r, s) for r, s in done]
    for start in range(0, len(obs), 1000):
        for k, v in sorted(core.judge(ctx, "JudgeDistributed", obs[start:start + 1000]).items()):
            r, s = done[start + k]
            what = "%s\n%d nodes, %s, input\n%s%s" % (v, r.nodes, " ".join(r.job.args), r.job.text, "" if r.job.known is None else "known\n" + r.job.known)
            ctx.violation("wide entries" if s is wide and v == "a node fails" else "%d|%s|%s|%s" % (r.nodes, " ".join(r.job.args), r.job.text, r.job.known), what, r.files())
    ctx.count(distributed_runs=len(done), messages=sum(sum(1 for e in o["events"] if e["k"] == "post") for o in obs), inputs=len(jobs),
              distinct_nontrivial=sum(1 for o in obs if len(o["result"]["rows"]) > 1), evaluations=len(done))
    ctx.cov["nodes"] = sorted({r.nodes for r, _ in done})
    ctx.sample({"input": done[0][0].job.text, "args": done[0][0].job.args, "nodes": done[0][0].nodes, "messages": [list(map(str, e)) for e in done[0][0].events[:8]]})
    ctx.assumptions.append("messages between two processes with one tag keep their order and are delivered (what MPI promises)")


def single(ctx, exe, jobs):
    for j in jobs:
        j.meta.setdefault("kind", "fe")

    def one(j):
        r = launch(ctx, exe, Run(j, 1, {"FAKE_MPI_SEED": "1"}), 20)
        j.rc, j.out, j.err, j.timeout = r.status[0], r.outs[0], r.errs[0], r.hung
    core.pmap(one, jobs, workers=6)
