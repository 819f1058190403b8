from hio.base import doing, tyming


class Server(tyming.Tymee):
    def __init__(self, *pa, port=None, app=None, servant=None, **kwa):
        super().__init__()
        self.port, self.app, self.servant = port, app, servant

    def reopen(self):
        return True

    def close(self):
        pass

    def service(self):
        pass


class ServerDoer(doing.Doer):
    def __init__(self, server=None, **kwa):
        super().__init__(**kwa)
        self.server = server


class StaticSink:
    DefaultStaticSinkBasePath = '/static'
    StaticSinkBasePath = '/static'
    def __init__(self, *a, **k):
        pass


class Porter:
    pass
