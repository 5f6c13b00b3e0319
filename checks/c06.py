"""C06: Bloch coefficient algebra and conversion."""
from .mrun import *


def run(ck):
    ck.rule(RULE + '; BlochCoeff products, copies and conversion, BlochModel <-> Model')
    run_scen(ck, 'BC', ('terms',))
    run_scen(ck, 'C06', None)
