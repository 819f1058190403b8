"""Stand-in for cryptography: ECDSA on secp256r1/secp256k1 in pure Python."""
from . import exceptions  # noqa
