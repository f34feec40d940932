"""C06: first seen wins."""
from .base import *
from . import kel

E = 'src/keri/core/eventing.py:'
FN = [E + x for x in ('Kever.__init__', 'Kever.incept', 'Kever.rotate', 'Kever.deriveBacks', 'Kever.exposeds', 'Kever.update', 'Kever.valSigsWigsDel', 'Kever.logEvent', 'Kevery.processEvent')]
GROUPS = [
    Group('duplicates', kel.gen_history(dict(dup=.35, conflict=.35, recover=.2, chain=.1, sig=.1, wit=.05, expose=.05, icp=.12)), kel.check_history, n=1200, functions=FN, nontrivial=kel.nontrivial, chunks=8,
          bound='histories of up to 10 events, up to 4 keys, numeric, weighted and nested thresholds, up to 7 signatures'),
    Group('schedules', kel.gen_schedule(), kel.check_schedule, n=600, functions=FN + [E + 'Kevery.processEscrows'], chunks=8,
          bound='lawful histories of up to 8 events delivered in pieces and out of order with escrow processing in between'),
]


def units():
    from .p_kel import units_c06 as u
    return u()
