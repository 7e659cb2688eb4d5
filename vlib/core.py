"""Shared machinery: building panda, running it, running TLC, reporting."""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CXX = next((c for c in ("g++-11", "g++", "c++") if shutil.which(c)), "g++")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class CheckError(Exception):
    """The machinery itself failed (not a verdict on panda)."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        atexit.register(shutil.rmtree, self.work, True)
        self.t0 = time.time()
        self.violations = []
        self.cov = {}
        self.level = "model_checking"
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.modules = []
        self.known = load_known(prop)
        self.known_hit = set()
        self._lock = threading.Lock()
        self._n = 0
        # a marker that tells how much time is left for optional extra work
        self.budget = 60 if self.quick else 900

    # ---------------------------------------------------------------- time
    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, self.elapsed()), *a, flush=True)

    def sub(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ------------------------------------------------------------ verdicts
    def violation(self, key, what, files=None, detail=""):
        """Report one violation. `key` identifies the failing input/history."""
        with self._lock:
            for k in self.known:
                if k["key"] == key:
                    if key not in self.known_hit:
                        self.known_hit.add(key)
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
                    return
            self._n += 1
            d = os.path.join(VERIF, "replays", "%s-%s-%d" % (self.prop, self.tier, self._n))
            if self._n <= 20:
                shutil.rmtree(d, True)
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, "what.txt"), "w") as f:
                    f.write("property %s\nkey %s\n%s\n%s\n" % (self.prop, key, what, detail))
                for n, c in (files or {}).items():
                    with open(os.path.join(d, n), "wb") as f:
                        f.write(c if isinstance(c, bytes) else str(c).encode())
                print("VIOLATION property=%s replay=%s" % (self.prop, d), flush=True)
                print("   ", what.replace("\n", "\n    ")[:1500], flush=True)
            self.violations.append(key)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if isinstance(s, (str, dict, list)) else str(s))

    def count(self, **kw):
        with self._lock:
            for k, v in kw.items():
                self.cov[k] = self.cov.get(k, 0) + v

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples, "specifications": sorted(set(self.modules))}
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", "%s.json" % self.prop)
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        self.log("%d violation(s); %s" % (len(self.violations), {k: v for k, v in cov.items() if isinstance(v, int)}))
        return 1 if self.violations else 0


def watchdog(ctx, limit=None):
    """A broken panda can make many runs hang. Once something has been reported and the time is up,
    the verdict is final: finish instead of exploring the rest."""
    limit = limit or (240 if ctx.quick else 840)
    me = os.getpid()

    def descendants():
        kids = {}
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    with open("/proc/%s/stat" % d) as f:
                        kids.setdefault(int(f.read().rsplit(")", 1)[1].split()[1]), []).append(int(d))
                except (OSError, ValueError, IndexError):
                    pass
        todo, found = [me], []
        while todo:
            for k in kids.get(todo.pop(), []):
                found.append(k)
                todo.append(k)
        return found

    def loop():
        while True:
            time.sleep(2)
            if ctx.violations and ctx.elapsed() > limit:
                ctx.notes.append("stopped early")
                ctx.log("stopped early: violations were found and the time is up")
                ctx.cov["stopped_early"] = True
                ctx.finish()
                sys.stdout.flush()
                for k in descendants():
                    try:
                        os.kill(k, signal.SIGKILL)
                    except OSError:
                        pass
                shutil.rmtree(ctx.work, True)
                os._exit(1)

    threading.Thread(target=loop, daemon=True).start()


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)).get("findings", []):
            if k["property"] == prop:
                out.append(k)
    return out


# ------------------------------------------------------------------ building
def _limits(mem_gb):
    def f():
        os.setpgrp()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def start_build(ctx, name="panda", flags="-O1", std="c++11", extra_src=(), exclude=(), cxx=None, ldflags="", linkflags=None, special=None):
    """Compile all of /repo/src into work/<name>; returns a handle for wait_build."""
    out = ctx.sub("build-" + name)
    srcs = sorted(f for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cpp") and f not in exclude)
    # longest translation units first
    size = lambda f: -({"algorithm_fourier_motzkin_elimination.cpp": 10**9,
                        "method_adjacency_decomposition_implementation.cpp": 10**8}.get(f, os.path.getsize(os.path.join(REPO, "src", f))))
    srcs.sort(key=size)
    objs, rules = [], []
    for s in [os.path.join(REPO, "src", f) for f in srcs] + [os.path.join(HARNESS, f) for f in extra_src]:
        o = os.path.join(out, os.path.basename(s)[:-4] + ".o")
        objs.append(o)
        rules.append("%s: %s\n\t%s --std=%s -pthread -DNDEBUG %s -I%s/src -I%s -c $< -o $@\n" %
                     (o, s, cxx or CXX, std, flags + (special(os.path.basename(s)) if special else ""), REPO, HARNESS))
    exe = os.path.join(out, name)
    mk = os.path.join(out, "Makefile")
    with open(mk, "w") as f:
        f.write("%s: %s\n\t%s -pthread %s %s %s -o $@\n" % (exe, " ".join(objs), cxx or CXX, flags if linkflags is None else linkflags, " ".join(objs), ldflags))
        f.writelines(rules)
    logf = open(os.path.join(out, "log"), "w")
    p = subprocess.Popen(["make", "-s", "-j%d" % CPUS, "-f", mk], stdout=logf, stderr=subprocess.STDOUT, preexec_fn=os.setpgrp)
    atexit.register(lambda: p.poll() is None and os.killpg(p.pid, signal.SIGKILL))
    return {"p": p, "exe": exe, "log": logf.name, "name": name, "objs": objs, "dir": out}


def wait_build(ctx, h):
    rc = h["p"].wait()
    if rc != 0 or not os.path.exists(h["exe"]):
        raise CheckError("build of %s failed:\n%s" % (h["name"], open(h["log"]).read()[-3000:]))
    ctx.log("built", h["name"])
    return h["exe"]


def compile_harness(ctx, name, sources, flags="-O1", std="c++11", objs=(), ldflags="", cxx=None, optional=False):
    """One-shot compile of a harness with given absolute source paths.

    A harness built from some of panda's files is tried once more with all of them
    (code may have moved); an optional one that uses functions which no longer exist
    gives None: the caller goes on with runs of the whole program."""
    out = os.path.join(ctx.sub("h-" + name), name)

    def attempt(sources, objs):
        cmd = [cxx or CXX, "--std=" + std, "-pthread", "-DNDEBUG"] + flags.split() + ["-I" + REPO + "/src", "-I" + HARNESS] + \
              list(sources) + list(objs) + ldflags.split() + ["-o", out]
        return subprocess.run(cmd, capture_output=True, text=True)
    p = attempt(sources, objs)
    if p.returncode != 0 and any(s.startswith(REPO) for s in sources):
        h = start_build(ctx, name=name + "-all", flags=flags, std=std, cxx=cxx)
        wait_build(ctx, h)
        p = attempt([s for s in sources if not s.startswith(REPO)], [o for o in h["objs"] if not o.endswith("/main.o")])
    if p.returncode != 0:
        if optional:
            ctx.cov["harness_not_compiled"] = name
            ctx.log("harness %s does not compile; only the whole program is run" % name)
            return None
        raise CheckError("harness %s does not compile:\n%s" % (name, p.stderr[-3000:]))
    return out


# ------------------------------------------------------------------- running
class Result:
    __slots__ = ("rc", "out", "err", "timeout", "cmd")

    def __init__(self, rc, out, err, timeout, cmd):
        self.rc, self.out, self.err, self.timeout, self.cmd = rc, out, err, timeout, cmd


def run(cmd, timeout=60, stdin=None, env=None, merged=False, mem_gb=4, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merged else subprocess.PIPE,
                         env=e, preexec_fn=_limits(mem_gb), cwd=cwd)
    to = False
    try:
        o, er = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
    return Result(None if to else p.returncode, (o or b"").decode("latin-1"), (er or b"").decode("latin-1"), to, cmd)


class Job:
    """One run of the program: the input text, arguments, known data."""
    __slots__ = ("text", "args", "known", "meta", "rc", "out", "err", "timeout", "cmdline", "env", "exe", "log")

    def __init__(self, text, args=(), known=None, meta=None, env=None, exe=None):
        self.env, self.exe, self.log = env, exe, None
        self.text, self.args, self.known, self.meta = text, list(args), known, meta
        self.rc = self.out = self.err = self.cmdline = None
        self.timeout = False

    def files(self):
        f = {"input.txt": self.text if self.text is not None else "",
             "command.txt": "%s%s %s%s%s\n" % ("".join("%s=%s " % kv for kv in (self.env or {}).items()), os.path.basename(self.exe or "panda"), " ".join(self.args),
                                              " input.txt" if self.text is not None else "", " -k known.txt" if self.known is not None else ""),
             "stdout.txt": self.out or "", "stderr.txt": self.err or "", "status.txt": "timeout" if self.timeout else str(self.rc)}
        if self.known is not None:
            f["known.txt"] = self.known
        return f

    def failed(self):
        return self.timeout or self.rc != 0


class Panda:
    """Runs the program on many inputs in parallel (harness/batch.c)."""

    def __init__(self, ctx, exe, env=None):
        self.ctx, self.exe, self.env = ctx, exe, env
        self.batch = batch_runner(ctx)
        self._n = 0

    def run(self, jobs, timeout=20, merged=False, workers=None, mem_gb=4, env=None, retry=True):
        """Fill rc/out/err of all jobs. A time-out is confirmed alone with a longer limit."""
        jobs = list(jobs)
        if not jobs:
            return jobs
        self._n += 1
        d = self.ctx.sub("run-%d-%d" % (self._n, int(time.time() * 1e6) % 10**9))
        lines = []
        for i, j in enumerate(jobs):
            f = os.path.join(d, "i%d" % i)
            argv = ["@%s=%s" % (k, v.replace("@LOG@", f + ".log")) for k, v in (j.env or {}).items()] + [j.exe or self.exe]
            if j.text is not None:
                with open(f, "wb") as h:
                    h.write(j.text if isinstance(j.text, bytes) else j.text.encode())
                argv.append(f)
            argv += [a.replace("@FILE@", f) for a in j.args]
            if j.known is not None:
                with open(f + "k", "wb") as h:
                    h.write(j.known if isinstance(j.known, bytes) else j.known.encode())
                argv += ["-k", f + "k"]
            lines.append("\t".join([os.path.join(d, "r%d" % i), str(timeout), "1" if merged else "0"] + argv))
        e = dict(os.environ)
        e.update(self.env or {})
        e.update(env or {})
        p = subprocess.run([self.batch, str(workers or CPUS), str(mem_gb), "1" if retry else "0"], input="\n".join(lines) + "\n", capture_output=True, text=True, env=e)
        if p.returncode != 0:
            raise CheckError("batch runner failed")
        seen = 0
        for l in p.stdout.split("\n"):
            if not l:
                continue
            i, st, to = map(int, l.split())
            j = jobs[i]
            seen += 1
            j.timeout = bool(to)
            j.rc = None if to else (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st))
        if seen != len(jobs):
            raise CheckError("batch runner lost jobs")
        for i, j in enumerate(jobs):
            with open(os.path.join(d, "r%d.o" % i), "rb") as h:
                j.out = h.read().decode("latin-1")
            if j.env and "@LOG@" in j.env.values() and os.path.exists(os.path.join(d, "i%d.log" % i)):
                j.log = open(os.path.join(d, "i%d.log" % i)).read()
            j.err = ""
            if not merged:
                with open(os.path.join(d, "r%d.e" % i), "rb") as h:
                    j.err = h.read().decode("latin-1")
        shutil.rmtree(d, True)
        slow = [j for j in jobs if j.timeout]
        if slow and retry:
            # a slow machine is not a hang: a few of them again, apart from the others and longer
            self.run(slow[:3], timeout=3 * timeout, merged=merged, workers=3, mem_gb=mem_gb, env=env, retry=False)
        return jobs


_batch = {}


def batch_runner(ctx):
    with _batch_lock:
        if "exe" not in _batch:
            out = os.path.join(ctx.work, "batch")
            p = subprocess.run(["gcc", "-O1", os.path.join(HARNESS, "batch.c"), "-o", out], capture_output=True, text=True)
            if p.returncode != 0:
                raise CheckError("batch.c: " + p.stderr)
            _batch["exe"] = out
    return _batch["exe"]


_batch_lock = threading.Lock()


def pmap(f, items, workers=None):
    with ThreadPoolExecutor(workers or CPUS) as ex:
        return list(ex.map(f, items))


# ----------------------------------------------------------------------- TLC
def tlc(ctx, module, cfg_text, name=None, workers=None, env=None, args=(), timeout=800, heap="3g", cont=False, deadlock=True):
    """Run TLC on spec/<module>.tla with the given configuration; returns (output, stats)."""
    name = name or module
    d = ctx.sub("tlc-%s-%d" % (name, int(time.time() * 1e6) % 10**9))
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    cfg = os.path.join(d, name + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", TLAJAR, "tlc2.TLC",
           "-workers", str(workers or CPUS), "-metadir", os.path.join(d, "meta"), "-config", cfg]
    if cont:
        cmd.append("-continue")
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(args) + [os.path.join(d, module + ".tla")]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    out = "\n".join(l for l in (p.stdout + p.stderr).split("\n") if not re.match(r"(Parsing file|Semantic processing|Linting of|Computed \d+ initial)", l))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    st = {"generated": int(m[-1][0]) if m else 0, "distinct": int(m[-1][1]) if m else 0, "rc": p.returncode, "dir": d,
          "violated": re.findall(r"Invariant (\w+) is violated", out) + re.findall(r"(Temporal properties were violated|Action property \w+ is violated|Deadlock reached)", out)}
    ctx.modules.append(module)
    ctx.states += st["distinct"]
    ctx.transitions += st["generated"]
    return out, st


def tlc_model(ctx, module, cfg_text, name=None, **kw):
    """Model-check a specification; any error means the specification itself is broken."""
    out, st = tlc(ctx, module, cfg_text, name=name, **kw)
    if st["rc"] != 0:
        raise CheckError("TLC rejects %s:\n%s" % (module, out[-4000:]))
    ctx.count(**{"model_states_" + (name or module): st["distinct"]})
    return out, st


def excerpt(out):
    """The part of TLC's output that says what went wrong."""
    k = out.find("Error: ")
    while k >= 0 and out.startswith("Error: Invariant Accepted", k):
        k = out.find("Error: ", k + 1)
    return out[max(k, 0):][:3000] if k >= 0 else out[-3000:]


def _check_ints(x):
    if isinstance(x, bool) or isinstance(x, str):
        return
    if isinstance(x, int):
        if abs(x) > 2**31 - 1:
            raise CheckError("integer too wide for TLC: %d" % x)
    elif isinstance(x, dict):
        for v in x.values():
            _check_ints(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            _check_ints(v)
    else:
        raise CheckError("bad JSON value %r" % (x,))


def judge(ctx, module, observations, name=None, consts="", heap="3g", timeout=800, workers=None):
    """Let TLC decide every observation (operator Verdict of `module`).

    Returns {index: verdict string} of the rejected ones.  A module with a
    Verdict operator extends Judge's scheme: variable i walks over Obs."""
    if not observations:
        return {}
    d = ctx.sub("obs")
    p = os.path.join(d, "%s-%d.ndjson" % (name or module, int(time.time() * 1e6) % 10**9))
    with open(p, "w") as f:
        for o in observations:
            _check_ints(o)
            f.write(json.dumps(o) + "\n")
    w = workers or CPUS
    cfg = "CONSTANT Stride = %d\n%s\nINIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n" % (w, consts)
    out, st = tlc(ctx, module, cfg, name=name, env={"OBS": p}, cont=True, workers=w, heap=heap, timeout=timeout)
    bad = {}
    for m in re.finditer(r'REJECT (\d+) (.*?) ENDREJECT', out, re.S):
        bad[int(m.group(1)) - 1] = m.group(2).strip()
    if st["distinct"] != len(observations) or (st["rc"] != 0 and not bad) or (bad and not st["violated"]):
        raise CheckError("TLC judged %d of %d observations with %s (rc %s):\n%s" %
                         (st["distinct"], len(observations), module, st["rc"], excerpt(out)))
    if "Error:" in out and not bad:
        raise CheckError("TLC error in %s:\n%s" % (module, out[-4000:]))
    for m in re.finditer(r"Error: (.*)", out):
        if not re.search(r"Invariant Accepted is violated|The behavior up to this point", m.group(1)):
            raise CheckError("TLC error in %s: %s\n%s" % (module, m.group(1), out[-3000:]))
    with ctx._lock:
        ctx.traces += len(observations)
    return bad


# ------------------------------------------------------- scheduled execution
def build_shim(ctx):
    out = os.path.join(ctx.work, "sched.so")
    if not os.path.exists(out):
        p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", os.path.join(HARNESS, "sched.c"), "-o", out + ".tmp", "-ldl", "-pthread"], capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("sched.c: " + p.stderr)
        os.replace(out + ".tmp", out)
    return out


def judge_traces(ctx, module, observations, name=None, heap="3g", timeout=800, consts=""):
    """TLC decides whether every recorded execution is a behaviour of the specification.

    The module prints ACCEPT n or REJECT n; every trace must get one of them."""
    if not observations:
        return {}
    d = ctx.sub("obs")
    p = os.path.join(d, "%s-%d.ndjson" % (name or module, int(time.time() * 1e6) % 10**9))
    with open(p, "w") as f:
        for o in observations:
            _check_ints(o)
            f.write(json.dumps(o) + "\n")
    cfg = "CONSTANT Stride = 0\n" + consts + "\nINIT Init\nNEXT Next\nINVARIANTS Accepted Sane\nCHECK_DEADLOCK FALSE\n"
    out, st = tlc(ctx, module, cfg, name=name, env={"OBS": p}, cont=True, heap=heap, timeout=timeout)
    bad = {}
    for m in re.finditer(r'REJECT (\d+) (.*?) ENDREJECT', out, re.S):
        bad[int(m.group(1)) - 1] = m.group(2).strip()
    good = {int(x) - 1 for x in re.findall(r"ACCEPT (\d+)\"", out)}
    missing = [k for k in range(len(observations)) if k not in bad and k not in good]
    if missing or st["rc"] != 0:
        raise CheckError("TLC gave no verdict on %d of %d traces with %s (rc %s):\n%s" % (len(missing), len(observations), module, st["rc"], out[-4000:]))
    with ctx._lock:
        ctx.traces += len(observations)
    return bad
