from . import clienting, serving  # noqa
from .clienting import Client, ClientDoer, ClientTls  # noqa
from .serving import Server, ServerDoer, ServerTls, Remoter  # noqa
