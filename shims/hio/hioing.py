from hio import HioError, ValidationError, VersionError, OglerError, FilerError  # noqa


class Mixin:
    def __init__(self, *pa, **kwa):
        super().__init__()
