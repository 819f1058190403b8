class Console:
    def __init__(self, *a, **k):
        self.opened = False

    def reopen(self):
        return True

    def close(self):
        pass

    def put(self, data=b"\n"):
        return len(data)

    def get(self, *a):
        return b""
