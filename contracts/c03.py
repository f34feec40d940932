"""C03: rotation exposes the committed keys."""
from .base import *
from . import kel

E = 'src/keri/core/eventing.py:'
FN = [E + x for x in ('Kever.__init__', 'Kever.incept', 'Kever.rotate', 'Kever.deriveBacks', 'Kever.exposeds', 'Kever.update', 'Kever.valSigsWigsDel', 'Kever.logEvent', 'Kevery.processEvent')]
GROUPS = [
    Group('exposure', kel.gen_history(dict(expose=.7, chain=.05, recover=.05, sig=.15, wit=.05, abandon=.12, dup=.02, conflict=.02)), kel.check_history, n=1200, functions=FN, nontrivial=kel.nontrivial, chunks=8,
          bound='histories of up to 10 events, up to 4 keys, numeric, weighted and nested thresholds, up to 7 signatures'),
    Group('schedules', kel.gen_schedule(), kel.check_schedule, n=600, functions=FN + [E + 'Kevery.processEscrows'], chunks=8,
          bound='lawful histories of up to 8 events delivered in pieces and out of order with escrow processing in between'),
]


def units():
    from .p_kel import units_c03 as u
    return u()
