"""C02: Key event logs grow only by the next correctly chained event."""
from .base import *
from . import kel

E = 'src/keri/core/eventing.py:'
FN = [E + x for x in ('Kever.__init__', 'Kever.incept', 'Kever.rotate', 'Kever.deriveBacks', 'Kever.exposeds', 'Kever.update', 'Kever.valSigsWigsDel', 'Kever.logEvent', 'Kevery.processEvent')]
GROUPS = [
    Group('chaining', kel.gen_history(dict(chain=.4, recover=.25, conflict=.15, dup=.1, sig=.05, expose=.05, wit=.05)), kel.check_history, n=1200, functions=FN, nontrivial=kel.nontrivial, chunks=8,
          bound='histories of up to 10 events, up to 4 keys, numeric, weighted and nested thresholds, up to 7 signatures'),
    Group('schedules', kel.gen_schedule(), kel.check_schedule, n=600, functions=FN + [E + 'Kevery.processEscrows'], chunks=8,
          bound='lawful histories of up to 8 events delivered in pieces and out of order with escrow processing in between'),
]


def units():
    from .p_kel import units_c02 as u
    return u()
