"""C09: momenta, kept symbols, shape and format of derived models."""
from .mrun import *


def run(ck):
    ck.rule(RULE + '; bookkeeping fields of every derived model')
    run_scen(ck, 'C09', ('momenta', 'keep', 'shape', 'format', 'class'))
    from . import explicit
    explicit.obligations(ck, ('shape',))
