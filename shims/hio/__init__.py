"""Stand-in for hio 0.7.19 (the subset keripy uses): same scheduling semantics
(asymmetric generator coroutines driven by a tymist), no sockets."""
__version__ = "0.7.19"


class HioError(Exception):
    pass


class ValidationError(HioError):
    pass


class VersionError(ValidationError):
    pass


class OglerError(HioError):
    pass


class FilerError(HioError):
    pass


class hioing:
    HioError = HioError
    ValidationError = ValidationError
    FilerError = FilerError


from . import help, base  # noqa
