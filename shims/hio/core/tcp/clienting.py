from hio.base import doing, tyming


class Client(tyming.Tymee):
    """Socketless client: bytes sent accumulate in .txbs, bytes received in .rxbs."""

    def __init__(self, *pa, host="127.0.0.1", port=5620, **kwa):
        super().__init__(**{k: v for k, v in kwa.items() if k == "tymth"})
        self.host, self.port = host, port
        self.ha = (host, port)
        self.txbs, self.rxbs = bytearray(), bytearray()
        self.opened = self.connected = self.accepted = self.cutoff = False

    def reopen(self):
        self.opened = True
        return True

    def close(self):
        self.opened = False

    def connect(self):
        return self.connected

    def serviceConnect(self):
        return self.connected

    def tx(self, data):
        self.txbs.extend(data)
        return len(data)

    def service(self):
        pass

    serviceReceives = serviceSends = service


class ClientTls(Client):
    pass


class ClientDoer(doing.Doer):
    def __init__(self, client=None, **kwa):
        super().__init__(**kwa)
        self.client = client

    def recur(self, tyme):
        return False
