import hashlib


class SHA256:
    name = "sha256"
    h = staticmethod(lambda b: hashlib.sha256(b).digest())
