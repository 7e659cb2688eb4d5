"""C18: the linear algebra below everything else."""
import os
from math import gcd
from . import core, geometry as g
from .integers import num, BASE, execute

TOP = {"16": 2**15 - 1, "32": 2**31 - 1, "64": 2**63 - 1, "safe": 2**63 - 1, "inf": 10**30}


def theory(ctx):
    q = ctx.quick
    for r, c, lo, hi in [(2, 2, 1, 2), (3, 2, 1, 1), (2, 3, 1, 1)] if q else [(3, 2, 1, 2), (2, 3, 2, 2), (3, 3, 0, 1), (4, 2, 1, 1), (2, 4, 1, 1)]:
        core.tlc_model(ctx, "Elimination", "CONSTANTS Rows=%d Cols=%d Below=%d Hi=%d\nINIT Init\nNEXT Next\nINVARIANTS Product Invertible OneEntry Kernel\nCHECK_DEADLOCK FALSE\n" % (r, c, lo, hi), name="Elimination_%dx%d" % (r, c))
    for n, lo, hi, e in [(2, 1, 2, 2), (3, 0, 1, 2)] if q else [(3, 1, 1, 2), (2, 2, 3, 2), (4, 0, 1, 2)]:
        core.tlc_model(ctx, "NormalForms", "CONSTANTS Length=%d Below=%d Hi=%d MaxEqs=%d\nINIT Init\nNEXT Next\nINVARIANTS Canonical Separates\nCHECK_DEADLOCK FALSE\n" % (n, lo, hi, e), name="NormalForms_%d" % n)


def small(rng, rows, cols, top):
    """A matrix with a chance of dependent, repeated and zero rows."""
    M = []
    for _ in range(rows):
        r = rng.random()
        if M and r < .15:
            M.append([rng.choice([1, -1, 2]) * x for x in rng.choice(M)])
        elif len(M) > 1 and r < .35:
            a, b = rng.sample(M, 2)
            M.append([x + rng.choice([1, -1]) * y for x, y in zip(a, b)])
        elif r < .4:
            M.append([0] * cols)
        else:
            z = rng.choice([0, .3, .6])
            M.append([0 if rng.random() < z else rng.randint(-top, top) for _ in range(cols)])
    if rng.random() < .2 and cols > 1:
        a, b = rng.sample(range(cols), 2)
        for v in M:
            v[a] = v[b] * rng.choice([0, 1, -1])
    rng.shuffle(M)
    return M


def spec(M):
    return "%d %d %s" % (len(M), len(M[0]), " ".join(str(x) for r in M for x in r))


def hadamard(M):
    n = min(len(M), len(M[0]))
    t = max([abs(x) for r in M for x in r] + [1])
    f = 1
    for k in range(2, n + 1):
        f *= k
    return f * t**n


def requests(ctx, rng):
    out = []
    # every small matrix (visited by TLC above as well, with all choices of pivots)
    import itertools
    for r, c, vals in [(1, 2, (-2, -1, 0, 1, 2)), (2, 2, (-1, 0, 1, 2)), (1, 3, (-1, 0, 1, 2)), (2, 3, (-1, 0, 1))] + ([] if ctx.quick else [(3, 3, (0, 1)), (3, 2, (-1, 0, 1, 2)), (2, 3, (-1, 0, 1, 2)), (3, 3, (-1, 0, 1)), (4, 3, (0, 1))]):
        allm = list(itertools.product(vals, repeat=r * c))
        for e in allm if len(allm) < 5000 else rng.sample(allm, 5000):
            M = [list(e[k * c:(k + 1) * c]) for k in range(r)]
            for op in ("equations", "elimination", "rank"):
                if not ctx.quick or r * c < 6 or rng.random() < .3:
                    out.append((rng.choice(["16", "32", "64", "safe", "inf"]), op, M, None))
    n = 700 if ctx.quick else 12000
    for _ in range(n):
        rows, cols = rng.randint(1, 6), rng.randint(1, 5)
        t = rng.choice(["16", "32", "64", "safe", "inf"])
        lim = {"16": 1 if cols > 3 else 2, "32": 4, "64": 30, "safe": 30, "inf": 10**rng.randint(1, 9)}[t]
        M = small(rng, rows, cols, rng.choice([1, 2, lim]) if t != "16" else lim)
        if t != "inf" and hadamard(M)**2 * 4 > TOP[t]:
            continue
        for op in ("equations", "elimination", "rank"):
            out.append((t, op, M, None))
    for _ in range(n):
        rows, cols = rng.randint(1, 5), rng.randint(2, 5)
        t = rng.choice(["32", "64", "safe", "inf"])
        M = small(rng, rows, cols, rng.choice([1, 2, 3]))
        R = []
        for _ in range(rng.randint(1, 3)):
            a = [rng.randint(-3, 3) for _ in range(cols)]
            R.append(a)
            E = kernel(M)
            for _ in range(rng.randint(1, 3)):
                k = rng.choice([1, 1, 2, 3])
                b = [k * x for x in a]
                for e in E:
                    c = rng.randint(-2, 2)
                    b = [x + c * y for x, y in zip(b, e)]
                R.append(b)
        if t != "inf" and (hadamard(M) * max(abs(x) for r in R for x in r) * 30)**2 > TOP[t]:
            t = "inf"
        out.append((t, "normalise", M, R))
    for _ in range(2 * n):
        t = rng.choice(["16", "32", "64", "safe", "inf"])
        cols = rng.randint(1, 6)
        op = rng.choice(["add", "sub", "scale", "lscale", "divide", "dot", "distance", "gcd", "lcm", "gcd2", "lcm2", "rhs", "transpose", "product", "nearest", "furthest"])
        if op in ("gcd2", "lcm2"):
            cols = 2
        half = int(TOP[t] ** .5) // (cols + 1) if op in ("scale", "lscale", "dot", "distance", "product", "nearest", "furthest") else (TOP[t] // 2 if op in ("add", "sub") else TOP[t])
        if op in ("lcm", "lcm2"):
            half = int(TOP[t] ** (1.0 / cols)) if t != "inf" else 10**8

        def val():
            r = rng.random()
            return rng.randint(-2, 2) if r < .35 else rng.randint(-half, half) if r < .8 else rng.choice([-half, half, half - 1])
        row = lambda: [max(-half, min(half, val())) for _ in range(cols)]
        a, b = row(), row()
        if op in ("gcd", "gcd2", "lcm", "lcm2") and rng.random() < .6:
            k = rng.randint(1, max(1, int(half ** .5)))
            a = [x // max(k, 1) * k if abs(x // max(k, 1) * k) <= half else x for x in a]
        if op in ("lcm", "lcm2"):
            if sum(x == 0 for x in a) > 1 or (op == "lcm" and 0 in a):
                continue
        if op == "divide":
            b[0] = rng.choice([x for x in (1, -1, 2, 3, -7, 10, rng.randint(1, half)) if abs(x) <= half])
            a = [x // b[0] * b[0] if abs(x // b[0] * b[0]) <= half else 0 for x in a]
        if op in ("transpose", "product", "nearest", "furthest"):
            out.append((t, op, [row() for _ in range(rng.randint(1, 5))], [a] if op != "transpose" else None))
        else:
            out.append((t, op, [a], [b]))
    return out


def kernel(M):
    """Some integer combinations that vanish on M (used to build equivalent rows; TLC checks that they are)."""
    from fractions import Fraction as F
    n = len(M[0])
    A = [[F(x) for x in r] for r in M]
    piv, r = [], 0
    for c in range(n):
        p = next((i for i in range(r, len(A)) if A[i][c]), None)
        if p is None:
            continue
        A[r], A[p] = A[p], A[r]
        A[r] = [x / A[r][c] for x in A[r]]
        for i in range(len(A)):
            if i != r and A[i][c]:
                f = A[i][c]
                A[i] = [x - f * y for x, y in zip(A[i], A[r])]
        piv.append(c)
        r += 1
    out = []
    for c in range(n):
        if c not in piv:
            v = [F(0)] * n
            v[c] = F(1)
            for i, p in enumerate(piv):
                v[p] = -A[i][c]
            m = 1
            for x in v:
                m = m * x.denominator // gcd(m, x.denominator)
            out.append([int(x * m) for x in v])
    return out


def lift(M):
    return [[num(x) for x in r] for r in M]


def observe(q, ans):
    t, op, M, X = q
    rows = [[int(x) for x in r.split()] for r in ans.split(";")[:-1]]
    if op == "equations":
        return {"kind": op, "M": lift(M), "eqs": lift(rows)}
    if op == "elimination":
        if not all(len(r) == len(M[0]) for r in rows[2:]):
            raise ValueError
        return {"kind": op, "A": lift(M), "L": [x + 1 for x in rows[0]], "T": [x + 1 for x in rows[1]], "M": lift(rows[2:])}
    if op == "normalise":
        if len(rows) != len(X) or any(len(r) != len(M[0]) for r in rows):
            raise ValueError
        return {"kind": op, "M": lift(M), "rows": lift(X), "results": lift(rows)}
    if op == "rank":
        return {"kind": "matrix", "op": op, "M": lift(M), "result": int(ans)}
    if op == "transpose":
        return {"kind": "matrix", "op": op, "M": lift(M), "result": lift(rows)}
    if op in ("product", "nearest", "furthest"):
        return {"kind": "matrix", "op": op, "M": lift(M), "a": lift(X)[0], "result": lift(rows)[0]}
    return {"kind": "row", "op": {"gcd2": "gcd", "lcm2": "lcm", "lscale": "scale"}.get(op, op), "a": lift(M)[0], "b": lift(X)[0], "x": num(X[0][0]), "result": lift(rows)[0]}


def check(ctx):
    rng = ctx.rng
    src = [os.path.join(core.HARNESS, "kernel.cpp")] + sorted(os.path.join(core.REPO, "src", f) for f in os.listdir(os.path.join(core.REPO, "src"))
           if f.endswith(".cpp") and f.startswith(("big_integer", "safe_integer", "algorithm_integer", "algorithm_row", "algorithm_matrix", "algorithm_inequality", "cast")))
    h = core.start_build(ctx)
    theory(ctx)
    core.wait_build(ctx, h)
    objs = [o for o in h["objs"] if not os.path.basename(o).startswith("main.")]
    exe = core.compile_harness(ctx, "kernel", [src[0]], objs=objs)
    reqs = requests(ctx, rng)
    lines = ["%s %s %s%s" % (t, op, spec(M), " " + spec(X) if X else "") for t, op, M, X in reqs]
    obs, owner = [], []
    for q, l, a in zip(reqs, lines, execute(ctx, exe, lines)):
        if a == "" and q[1] != "equations":
            continue
        if a is None or a.startswith("exception"):
            ctx.violation(l, "no result of %s (%s)" % (l, a), {"request.txt": l})
            continue
        try:
            obs.append(observe(q, a))
            owner.append((l, a))
        except (ValueError, IndexError):
            ctx.violation(l, "malformed result of %s: %s" % (l, a), {"request.txt": l})
    for k, v in sorted(core.judge(ctx, "JudgeKernel", obs, consts="CONSTANT Base = %d" % BASE).items()):
        ctx.violation(owner[k][0], "%s\nrequest %s\nresult %s" % (v, *owner[k]), {"request.txt": owner[k][0], "result.txt": owner[k][1]})
    for q in reqs:
        ctx.count(**{"op_" + q[1]: 1})
    ctx.count(requests=len(obs), distinct_requests=len(set(lines)))
    ctx.sample({"request": owner[0][0], "result": owner[0][1]})
    ctx.sample({"request": owner[-1][0], "result": owner[-1][1]})
    ctx.assumptions.append("operands for which no intermediate value of the operation leaves the integer type; lcm of numbers of which at most one is zero; division of rows by a divisor of all entries")
