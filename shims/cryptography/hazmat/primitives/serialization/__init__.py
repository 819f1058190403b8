class _E(str):
    pass


class Encoding:
    X962 = "X962"
    Raw = "Raw"
    PEM = "PEM"
    OpenSSH = "OpenSSH"
    DER = "DER"


class PublicFormat:
    CompressedPoint = "Compressed"
    UncompressedPoint = "Uncompressed"
    Raw = "Raw"
    OpenSSH = "OpenSSH"


class PrivateFormat:
    OpenSSH = "OpenSSH"
    PKCS8 = "PKCS8"


class NoEncryption:
    pass
