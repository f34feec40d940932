from . import ogling
ogler = ogling.initOgler(prefix="hio")
from . import decking, hicting, timing, helping
from .decking import Deck
from .hicting import Hict, Mict
from .helping import *
from .timing import *
