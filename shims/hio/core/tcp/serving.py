from hio.base import doing, tyming


class Server(tyming.Tymee):
    def __init__(self, *pa, host="", port=5620, **kwa):
        super().__init__()
        self.host, self.port = host, port
        self.ixes = {}
        self.opened = False

    def reopen(self):
        self.opened = True
        return True

    def close(self):
        self.opened = False

    def service(self):
        pass

    def closeIx(self, ca):
        pass

    def removeIx(self, ca):
        self.ixes.pop(ca, None)


class ServerTls(Server):
    pass


class Remoter(tyming.Tymee):
    def __init__(self, *pa, **kwa):
        super().__init__()
        self.txbs, self.rxbs = bytearray(), bytearray()
        self.timeout = 0.0
        self.cutoff = False


class ServerDoer(doing.Doer):
    def __init__(self, server=None, **kwa):
        super().__init__(**kwa)
        self.server = server
