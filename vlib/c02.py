"""C02: adjacency decomposition is exact, for every thread count and interleaving."""
from . import c01, c04, core


def check(ctx):
    c01.check(ctx, "ad", [1, 2, 3, 4, 8])
    shim = core.build_shim(ctx)
    jobs = c04.cli(ctx, ctx.panda, shim, 150 if ctx.quick else 3000, dims=[3, 3, 4, 4])
    ctx.cov["evaluations"] += len(jobs)
    ctx.log("scheduled runs judged")
