"""Register machines over the real integer types: programs enumerated by TLC, executions judged by TLC (C12, C13)."""
import math, os
from . import core, geometry as g

BASE = 10000


def num(x):
    n, m = x < 0, []
    x = abs(x)
    while x:
        m.append(x % BASE)
        x //= BASE
    return {"neg": n, "mag": m}


def theory(ctx):
    q = ctx.quick
    for base, rng, bits in [(3, 32, 4), (7, 32, 5)] if q else [(3, 150, 5), (4, 150, 6), (10, 200, 7)]:
        core.tlc_model(ctx, "IntegerTheory", "CONSTANTS Base=%d Range=%d Bits=%d\nINIT Init\nNEXT Next\nINVARIANTS Exact Guards\nCHECK_DEADLOCK FALSE\n" % (base, rng, bits), name="IntegerTheory_b%d" % base)


def programs(ctx, length):
    dump = os.path.join(ctx.sub("programs"), "p%d" % length)
    core.tlc_model(ctx, "RegisterMachine", "CONSTANTS Registers=2 MaxLength=%d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" % length, name="RegisterMachine", args=["-dump", dump])
    return [[(i["op"], i["d"], i["s"]) for i in s["program"]] for s in g.dump_states(dump + ".dump") if s["program"]]


def build(ctx):
    src = [os.path.join(core.HARNESS, "integers.cpp")] + sorted(os.path.join(core.REPO, "src", f) for f in os.listdir(os.path.join(core.REPO, "src"))
           if f.startswith("big_integer") and f.endswith(".cpp")) + [os.path.join(core.REPO, "src", "algorithm_integer_operations.cpp")]
    return core.compile_harness(ctx, "integers", src)


def execute(ctx, exe, lines, chunk=500):
    """One answer per line; None where the program was killed or did not answer."""
    lost = []

    def one(part):
        out = []
        while len(out) < len(part):
            if len(lost) > 10:
                return out + [""] * (len(part) - len(out))
            r = core.run([exe], stdin="\n".join(part[len(out):]) + "\n", timeout=30, mem_gb=4)
            got = r.out.split("\n")
            got = got[:-1]
            out += got
            if len(out) < len(part):
                out.append(None)
                lost.append(1)
        return out
    parts = [lines[k:k + chunk] for k in range(0, len(lines), chunk)]
    return [x for p in core.pmap(one, parts) for x in p]


def rel(t):
    return [c == "1" for c in t]


def parse_state(tok, pivot):
    s = {"regs": [], "sign": [], "near": [], "int": [], "pivot": num(pivot)}
    for k in range(2):
        v, sg, nr, it = tok[4 * k:4 * k + 4]
        s["regs"].append(num(int(v)))
        s["sign"].append(rel(sg))
        s["near"].append(rel(nr))
        s["int"].append({"ok": it != "-", "v": num(0 if it == "-" else int(it))})
    s["rel"] = rel(tok[8])
    assert len(tok) == 9
    return s


class Case:
    def __init__(self, typ, vals, prog, pivot, ctors=None):
        self.typ, self.vals, self.prog, self.pivot = typ, vals, prog, pivot
        self.ctors = ctors or ["big" if typ == "inf" and not -2**63 <= v < 2**63 else "i64" if typ == "safe" or v % 2 else "big" for v in vals]

    def line(self):
        return "run %s %d %d %s %s" % (self.typ, self.pivot, len(self.vals), " ".join("%s %d" % x for x in zip(self.ctors, self.vals)),
                                       " ".join("%s %d %d" % i for i in self.prog))

    def observe(self, ans):
        steps = ans.split(" ;")
        run = []
        for k, s in enumerate(steps):
            tok = s.split()
            o = {"ok": tok[0] == "ok"}
            if k:
                o.update(op=self.prog[k - 1][0], d=self.prog[k - 1][1], s=self.prog[k - 1][2])
            if o["ok"]:
                o.update(parse_state(tok[1:], self.pivot))
            run.append(o)
        return {"kind": "run", "type": self.typ, "init": [num(v) for v in self.vals], "run": run}


class Make:
    def __init__(self, typ, ctor, v):
        self.typ, self.ctor, self.v = typ, ctor, v

    def line(self):
        return "make %s %s %d" % (self.typ, self.ctor, self.v)

    def observe(self, ans):
        tok = ans.split()
        ok = tok[0] == "ok"
        return {"kind": "make", "type": self.typ, "want": num(self.v), "ok": ok, "got": num(int(tok[1]) if ok else 0)}


def decide(ctx, exe, cases, name):
    answers = execute(ctx, exe, [c.line() for c in cases])
    obs, owner = [], []
    for c, a in zip(cases, answers):
        if a == "":  # not run after too many failures
            continue
        if a is None:
            ctx.violation(c.line(), "the operations abort or do not end: %s" % c.line(), {"program.txt": c.line()})
            continue
        try:
            obs.append(c.observe(a))
            owner.append((c, a))
        except (ValueError, IndexError, AssertionError):
            ctx.violation(c.line(), "unreadable answer %r to %s" % (a, c.line()), {"program.txt": c.line()})
    bad = {}
    for lo in range(0, len(obs), 20000):
        bad.update((lo + k, v) for k, v in core.judge(ctx, "JudgeIntegers", obs[lo:lo + 20000], name=name, consts="CONSTANT Base = %d" % BASE).items())
    for k, v in sorted(bad.items()):
        c, a = owner[k]
        ctx.violation(c.line(), "%s\nprogram %s\nanswer %s" % (v[:500], c.line(), a[:600]), {"program.txt": c.line(), "answer.txt": a})
    ctx.count(programs=len(cases), steps=sum(len(o.get("run", [0])) for o in obs))
    ctx.sample({"program": cases[-1].line(), "answer": answers[-1]})
    return obs


def boundary(safe):
    out = set()
    for k in [0, 1, 2, 7, 15, 16, 30, 31, 32, 33, 47, 61, 62, 63] + ([] if safe else [64, 65, 95, 96, 127, 128, 129, 191, 192]):
        for d in (-2, -1, 0, 1, 2):
            out.update((2**k + d, -2**k + d))
    for x in [3, 10, 46340, 46341, 10**9, 10**10, 3037000499, 3037000500, 2147483629] + ([] if safe else [10**18, 10**19, 10**20, 10**27, 6**40, (2**64 - 1)**2, 2**64 * (2**64 - 1), 2**128 - 2**64]):
        out.update((x, -x))
    return sorted(x for x in out if not safe or -2**63 <= x < 2**63)


def rand(rng, safe):
    r = rng.random()
    if safe:
        v = rng.getrandbits(rng.choice([1, 4, 8, 16, 31, 32, 33, 48, 62, 63]))
    else:
        v = rng.getrandbits(rng.choice([4, 16, 31, 33, 63, 64, 65, 100, 128, 129, 160, 192, 256]))
        if r < .3:  # long runs of ones and zeros
            v = 0
            for _ in range(rng.randint(1, 4)):
                v = (v << rng.choice([1, 31, 32, 33, 63, 64, 65])) | (0 if rng.random() < .5 else (1 << rng.choice([1, 5, 31, 32, 64])) - 1)
    return v if rng.random() < .5 else -v


def pivot(rng, vals):
    c = [0, 1, -1, 2**31 - 1, -2**31, 7]
    for v in vals:
        for d in (-1, 0, 1):
            if -2**31 <= v + d < 2**31:
                c.append(v + d)
    return rng.choice(c)


def quo(x, y):
    return abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)


VALUE = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "quo": quo, "mod": lambda x, y: x % y,
         "Gcd": math.gcd, "neg": lambda x, y: -y, "abs": lambda x, y: abs(y), "set": lambda x, y: y}


def trim(c):
    """Cut a program before values become too large for the judge; functions that must not throw are kept to representable results."""
    vals = list(c.vals)
    for k, (op, d, s) in enumerate(c.prog):
        x, y = vals[d - 1], vals[s - 1]
        if c.typ == "safe" and op == "Gcd" and -2**63 in (x, y) or op == "Gcd" and max(abs(x), abs(y)).bit_length() > 300:
            c.prog = c.prog[:k]
            break
        try:
            v = VALUE[op if op in VALUE else op.lower()](x, y)
        except ZeroDivisionError:
            break
        if c.typ == "safe" and not -2**63 <= v < 2**63:
            break
        if v.bit_length() > 640:
            c.prog = c.prog[:k]
            break
        vals[d - 1] = v
    return c


def check(ctx, typ):
    q, rng, safe = ctx.quick, ctx.rng, typ == "safe"
    exe = build(ctx)
    theory(ctx)
    p1, p2 = programs(ctx, 1), programs(ctx, 2)
    ctx.log("%d programs from the specification" % len(p2))
    b = boundary(safe)
    cases = []

    # construction
    for ctor, lo, hi in [("def", 0, 1), ("i16", -2**15, 2**15), ("i32", -2**31, 2**31), ("i64", -2**63, 2**63), ("u16", 0, 2**16), ("u32", 0, 2**32), ("u64", 0, 2**64)]:
        for v in sorted(set([x for x in b if lo <= x < hi] + [hi - 1, lo] + [rng.randrange(lo, hi) for _ in range(20)])):
            cases.append(Make(typ, ctor, v))

    # all one-instruction programs on pairs of boundary values
    pairs = [(x, y) for x in b for y in b]
    rng.shuffle(pairs)
    per = 1 if q else 5
    for x, y in pairs[:11000 if q else 40000]:
        for pr in rng.sample(p1, per):
            cases.append(Case(typ, (x, y), pr, pivot(rng, (x, y))))
    # products, quotients and sums close to the limits of the underlying types
    for k in (31, 32, 63, 64) if not safe else (31, 32, 63):
        for _ in range(200 if q else 3000):
            x = rand(rng, safe) or 1
            lim = rng.choice([1, -1]) * 2**k
            y = rng.choice([abs(lim) // abs(x) * (1 if (lim < 0) == (x < 0) else -1), lim - x, x - lim, -(abs(lim) // abs(x))]) + rng.randint(-1, 1)
            if safe and not (-2**63 <= x < 2**63 and -2**63 <= y < 2**63):
                continue
            pr = rng.choice([[(o, d, s)] for o in ("mul", "Mul", "add", "Add", "sub", "Sub", "quo") for d, s in ((1, 2), (2, 1))])
            cases.append(Case(typ, (x, y), pr, pivot(rng, (x, y))))
    # every program of two instructions on random values
    for rep in range(1 if q else 12):
        for pr in p2:
            v = (rand(rng, safe), rand(rng, safe))
            if rng.random() < .3:
                v = (v[0], rng.choice(b))
            if rng.random() < .2 and not safe:
                v = (v[0] * v[1], v[1])
            cases.append(Case(typ, v, pr, pivot(rng, v)))
    # long programs
    for _ in range(400 if q else 6000):
        pr = [rng.choice(p1)[0] for _ in range(rng.randint(3, 8))]
        v = (rand(rng, safe), rand(rng, safe))
        c = Case(typ, v, pr, pivot(rng, v))
        cases.append(c)
    cases = [trim(c) if isinstance(c, Case) else c for c in cases]
    obs = decide(ctx, exe, cases, "JudgeIntegers_" + typ)
    ctx.count(evaluations=len(cases), distinct_inputs=len({c.line() for c in cases}))
    ctx.assumptions.append("values of up to about 256 bits initially; gcd of the checked type is only called on operands whose absolute value is representable (it is declared not to throw)")
