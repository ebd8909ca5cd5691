"""C04: total derivatives are exact at the current point after any history."""
from . import c03
from .common import REAL, STUB, DISTINCT, shrink  # noqa
from .c03 import gen as _gen, run as _run

PROP = 'C04'
COUNTS = {'quick': 3200, 'thorough': 9000}
RULE = ('as C03, with total derivatives computed repeatedly in forward or reverse mode and compared block by block with complex-step '
        'derivatives of the written expressions; non-trivial if the history evaluates the model at least twice')


def gen(rng, i, tier):
    c03.FOCUS = 'totals'
    return _gen(rng, i, tier)


def run(case):
    c03.FOCUS = 'totals'
    return _run(case)
