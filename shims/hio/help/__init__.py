from . import decking, helping, hicting, ogling, timing  # noqa
from .decking import Deck  # noqa
from .hicting import Mict, Hict  # noqa
from .helping import isNonStringIterable, isNonStringSequence, NonStringIterable, NonStringSequence  # noqa
ogler = ogling.initOgler(prefix="hio")
