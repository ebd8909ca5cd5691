"""C10: total derivatives through implicit outputs obey the implicit function theorem at the current point."""
from . import c09
from .common import REAL, STUB, DISTINCT  # noqa
from .c09 import gen as _gen, run as _run, shrink  # noqa

PROP = 'C10'
COUNTS = {'quick': 400, 'thorough': 9000}
RULE = ('as C09, with total derivatives in forward or reverse mode, with the component\'s own, a direct or a Krylov linear solver, '
        'compared block by block with the implicit function theorem applied to the written residuals; non-trivial if the '
        'history evaluates the model at least twice')


def gen(rng, i, tier):
    c09.FOCUS = 'totals'
    return _gen(rng, i, tier)


def run(case):
    c09.FOCUS = 'totals'
    return _run(case)
