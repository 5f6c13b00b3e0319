"""C04: momentum rotation and conjugation."""
from .mrun import *


def run(ck):
    ck.rule(RULE + '; terms of rotate_momenta and conj of Model and BlochModel')
    run_scen(ck, 'C04', ('terms',))
