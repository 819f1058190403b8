class Ed25519PrivateKey:
    @classmethod
    def from_private_bytes(cls, b):
        raise NotImplementedError


class Ed25519PublicKey:
    @classmethod
    def from_public_bytes(cls, b):
        raise NotImplementedError
