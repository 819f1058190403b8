from collections import deque, namedtuple
from hio.base import doing, tyming
from hio.help import Deck


class Client(tyming.Tymee):
    """Socketless HTTP client.  Requests are handed to Client.transport(client,
    request) when the harness sets it; responses are queued in .responses."""
    transport = None
    deferred = False       # as the real one: one request per turn of its doer

    def __init__(self, *pa, hostname="127.0.0.1", port=None, scheme="http", method="GET", path="/",
                 headers=None, qargs=None, body=b"", requests=None, responses=None, connector=None,
                 tymth=None, **kwa):
        super().__init__(tymth=tymth)
        self.hostname, self.port, self.scheme, self.path = hostname, port, scheme, path
        self.requests = requests if requests is not None else Deck()
        self.responses = responses if responses is not None else Deck()
        self.events = Deck()
        self.waited = False
        self.respondent = None
        self.connector = connector
        self.opened = False
        self.requester = self

    def request(self, method="GET", path="/", qargs=None, headers=None, body=b"", **kwa):
        req = dict(method=method, path=path, qargs=qargs, headers=headers, body=body, **kwa)
        self.requests.append(req)
        if not Client.deferred:
            self.service()

    def service(self):
        while self.requests:
            req = self.requests.popleft()
            if Client.transport is not None:
                rep = Client.transport(self, req)
                if rep is not None:
                    self.responses.append(rep)
            if Client.deferred:
                break

    def respond(self):
        return self.responses.popleft() if self.responses else None

    def redirect(self):
        pass

    def reopen(self):
        self.opened = True

    def close(self):
        self.opened = False


class ClientDoer(doing.Doer):
    def __init__(self, client=None, **kwa):
        super().__init__(**kwa)
        self.client = client

    def recur(self, tyme):
        self.client.service()
        return False


def openClient(*a, **k):
    raise NotImplementedError
