"""C01: key events need verified signatures from a satisfying set of keys."""
from .base import *
from . import kel

E = 'src/keri/core/eventing.py:'
FN = [E + x for x in ('verifySigs', 'Kever.__init__', 'Kever.incept', 'Kever.update', 'Kever.valSigsWigsDel', 'Kever.logEvent', 'Kevery.processEvent')] + [
    'src/keri/core/coring.py:Tholder.satisfy']
GROUPS = [
    Group('signatures', kel.gen_history(dict(sig=.6, chain=.05, expose=.1, wit=.05)), kel.check_history, n=1600, functions=FN, nontrivial=kel.nontrivial, chunks=8,
          bound='histories of up to 10 events, up to 4 keys, numeric, weighted and nested thresholds, up to 7 signatures'),
]


def units():
    from .p_kel import units_c01 as u
    return u()
