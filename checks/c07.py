"""C07: model arithmetic."""
from .mrun import *


def run(ck):
    ck.rule(RULE + '; terms of sums, products, transposes and traces')
    run_scen(ck, 'C07', ('terms',))
    from . import explicit
    explicit.obligations(ck, ('terms',))
