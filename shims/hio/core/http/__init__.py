from . import clienting, serving, httping  # noqa
from .clienting import Client, ClientDoer  # noqa
from .serving import Server, ServerDoer  # noqa
