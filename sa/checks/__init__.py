"""All checks, by property."""

CHECKS: dict = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f

    return deco


from . import arrays, jacobian, kfac, linop, products  # noqa: E402,F401
from . import effects, robust, history  # noqa: E402,F401
