"""C12: checked integers."""
from . import integers


def check(ctx):
    integers.check(ctx, "safe")
