"""C05: delegated events need an anchoring seal from their delegator."""
from .base import *
from . import kel

E = 'src/keri/core/eventing.py:'
FN = [E + x for x in ('Kever.__init__', 'Kever.update', 'Kever.rotate', 'Kever.valSigsWigsDel', 'Kever.validateDelegation', 'Kever.fetchDelegatingEvent', 'Kever.logEvent',
                      'Kevery.processEvent', 'Kevery.processEscrows')]
GROUPS = [
    Group('delegation', kel.gen_delegation, kel.check_delegation, n=2000, functions=FN, nontrivial=lambda c: any(x[0] == 'ev' and x[1]['t'] == 'dip' for x in c), chunks=8,
          bound='up to 3 levels of delegation, up to 12 rounds of delegated events and anchors, superseding rotations included'),
]


def units():
    from .p_kel import units_c05 as u
    return u()
