"""C13: integers of arbitrary precision."""
from . import integers


def check(ctx):
    integers.check(ctx, "inf")
