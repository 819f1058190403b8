class Tymist:
    Tock = 0.03125

    def __init__(self, tyme=0.0, tock=None, **kwa):
        self.tyme = float(tyme)
        self.tock = float(tock) if tock is not None else self.Tock

    @property
    def tyme(self):
        return self._tyme

    @tyme.setter
    def tyme(self, v):
        self._tyme = float(v)

    @property
    def tock(self):
        return self._tock

    @tock.setter
    def tock(self, v):
        self._tock = float(v)

    def tick(self, tock=None):
        self.tyme += float(tock if tock is not None else self.tock)
        return self.tyme

    def tymen(self):
        return lambda: self.tyme


class Tymee:
    def __init__(self, *, tymth=None, **kwa):
        self._tymth = None
        self._tyme = None
        if tymth:
            self.wind(tymth)

    @property
    def tyme(self):
        return self._tymth() if self._tymth else self._tyme

    @tyme.setter
    def tyme(self, v):
        raise AttributeError("tyme is read only")

    @property
    def tymth(self):
        return self._tymth

    @tymth.setter
    def tymth(self, v):
        self._tymth = v

    def wind(self, tymth):
        self._tymth = tymth


class Tymer(Tymee):
    Duration = 0.0

    def __init__(self, duration=None, start=None, **kwa):
        self._start = self._stop = None
        self._duration = float(duration) if duration is not None else self.Duration
        super().__init__(**kwa)
        if self.tymth or start is not None:
            self.start(duration=duration, start=start)

    def wind(self, tymth):
        super().wind(tymth)
        self.start()

    @property
    def duration(self):
        return self._duration

    @property
    def elapsed(self):
        return self.tyme - self._start

    @property
    def remaining(self):
        return self._stop - self.tyme

    @property
    def expired(self):
        return self.tyme is not None and self._stop is not None and self.tyme >= self._stop

    def start(self, *, duration=None, start=None):
        self._start = float(start) if start is not None else (self.tyme or 0.0)
        if duration is not None:
            self._duration = float(duration)
        self._stop = self._start + self._duration
        return self._start

    def restart(self, *, duration=None):
        return self.start(duration=duration, start=self._stop)
