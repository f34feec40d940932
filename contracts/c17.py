"""C17: reply acceptance keeps only the best available data."""
from .base import *
from . import replies

R = 'src/keri/core/routing.py:Revery.'
K = 'src/keri/core/eventing.py:Kevery.'
FN = [R + x for x in ('processReply', 'acceptReply', 'fetchLatestSn', 'updateReply', 'removeReply', 'escrowReply', 'processEscrowReply')] + [
    K + x for x in ('processReplyEndRole', 'processReplyLocScheme', 'processReplyAddWatched')] + [
    'src/keri/core/eventing.py:' + x for x in ('validateSigs', 'verifySigs')]
GROUPS = [
    Group('replies', replies.gen('c17'), replies.check, n=2400, functions=FN, chunks=8,
          nontrivial=lambda c: sum(s[0] == 'rpy' for s in c['steps']) > 2,
          bound='histories of up to 25 steps over up to 3 transferable (up to 4 events, up to 3 keys) and 2 non transferable identifiers, up to 2 subjects, up to 3 '
                'signature groups a reply, escrow runs and timeouts'),
    Group('notices', replies.gen_notice, replies.check_notice, n=1200, functions=[K + 'processReplyKeyStateNotice', K + 'updateKeyState', R + 'acceptReply'], chunks=4,
          bound='up to 10 notices by up to 5 sources about one identifier with up to 4 events'),
]
ASSUMPTIONS = ['two replies to different subjects do not share a digest']


def units():
    from .p_replies import units_c17 as u
    return u()
