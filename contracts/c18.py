"""C18: endpoint authorisations record exactly the latest accepted grant or denial."""
from .base import *
from . import replies

R = 'src/keri/core/routing.py:'
K = 'src/keri/core/eventing.py:Kevery.'
FN = [K + x for x in ('registerReplyRoutes', 'processReplyEndRole', 'processReplyLocScheme', 'updateEnd', 'updateLoc')] + [
    R + x for x in ('Router.dispatch', 'Router._find', 'Router.addRoute', 'Revery.processReply', 'Revery.acceptReply')]
GROUPS = [
    Group('endpoints', replies.gen('c18'), replies.check, n=2400, functions=FN, chunks=8,
          nontrivial=lambda c: sum(s[0] == 'rpy' for s in c['steps']) > 2,
          bound='histories of up to 25 steps over up to 5 identifiers as controllers and endpoints, all roles and schemes, unknown routes, roles, schemes, missing and '
                'malformed fields, replies signed by others'),
]


def units():
    from .p_replies import units_c18 as u
    return u()
