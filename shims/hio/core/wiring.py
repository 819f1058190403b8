from hio.base import doing


class WireLog:
    def __init__(self, *a, **k):
        self.opened = False

    def reopen(self, **k):
        self.opened = True
        return True

    def close(self, **k):
        self.opened = False


class WireLogDoer(doing.Doer):
    def __init__(self, wl=None, **kwa):
        super().__init__(**kwa)
        self.wl = wl
