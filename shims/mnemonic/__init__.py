from . import mnemonic  # noqa
