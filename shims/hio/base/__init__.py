from . import tyming, doing, filing
from .tyming import Tymee, Tymist
from .doing import Doer, DoDoer, Doist
