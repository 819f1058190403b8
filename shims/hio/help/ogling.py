import logging


class Ogler:
    def __init__(self, prefix="hio", name="main", level=logging.CRITICAL, syslogged=False, **kwa):
        self.prefix, self.name = prefix, name
        self.level = level
        self.path = None
        self.headDirPath = None
        self.dirPath = None
        self.opened = False
        self.logger = logging.getLogger(prefix)
        self.baseConsoleHandler = logging.StreamHandler()
        self.baseFormatter = logging.Formatter("%(message)s")

    def getLogger(self, name=None, level=None, **kwa):
        lg = logging.getLogger(f"{self.prefix}.{name or __name__}")
        lg.setLevel(level if level is not None else self.level)
        lg.propagate = False
        if not lg.handlers:
            lg.addHandler(logging.NullHandler())
        return lg

    getLoggers = getLogger

    def reopen(self, **kwa):
        self.opened = True
        return True

    def resetLevels(self, *a, **k):
        pass

    def resetLevel(self, *a, **k):
        pass

    def close(self, **kwa):
        self.opened = False


def initOgler(level=logging.CRITICAL, **kwa):
    return Ogler(level=level, **kwa)


def openOgler(**kwa):
    return Ogler(**kwa)
