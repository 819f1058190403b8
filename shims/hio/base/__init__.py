from . import tyming, doing, filing  # noqa
from .tyming import Tymist, Tymee, Tymer  # noqa
from .doing import Doist, Doer, DoDoer, doify, doize, bareDo  # noqa
from .filing import openFiler, Filer, FilerDoer  # noqa
