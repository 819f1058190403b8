import json
import urllib.parse


class Result:
    def __init__(self, rep):
        self.status = rep.status if isinstance(rep.status, str) else str(rep.status)
        self.status_code = int(self.status.split()[0])
        self.headers = {k: v for k, v in rep.headers.items()}
        self.headers["content-type"] = rep.content_type
        if rep.text is not None:
            c = rep.text.encode() if isinstance(rep.text, str) else rep.text
        elif rep.data is not None:
            c = bytes(rep.data)
        elif rep.media is not None:
            c = json.dumps(rep.media).encode()
        elif rep.stream is not None:
            c = b"".join(rep.stream) if not hasattr(rep.stream, "read") else rep.stream.read()
        else:
            c = b""
        self.content = c

    @property
    def text(self):
        return self.content.decode()

    @property
    def json(self):
        return json.loads(self.content)


class TestClient:
    __test__ = False

    def __init__(self, app, headers=None):
        self.app = app
        self.headers = headers or {}

    def simulate_request(self, method="GET", path="/", body=b"", headers=None, params=None, json=None,
                         query_string=None, **kwa):
        from falcon import Request
        import json as j
        hs = dict(self.headers)
        hs.update(dict(headers.items()) if headers else {})
        if json is not None:
            body = j.dumps(json).encode()
            hs.setdefault("Content-Type", "application/json")
        if isinstance(body, str):
            body = body.encode()
        ps = dict(params or {})
        if "?" in path:
            path, q = path.split("?", 1)
            query_string = q
        if query_string:
            for k, v in urllib.parse.parse_qsl(query_string):
                ps[k] = v
        ps = {k: (v if isinstance(v, list) else str(v)) for k, v in ps.items()}
        return Result(self.app.handle(Request(method, path, hs, bytes(body or b""), ps)))

    def simulate_get(self, path, **k):
        return self.simulate_request("GET", path, **k)

    def simulate_post(self, path, **k):
        return self.simulate_request("POST", path, **k)

    def simulate_put(self, path, **k):
        return self.simulate_request("PUT", path, **k)

    def simulate_delete(self, path, **k):
        return self.simulate_request("DELETE", path, **k)


def create_environ(path="/", method="GET", **k):
    return dict(PATH_INFO=path, REQUEST_METHOD=method)


class helpers:
    @staticmethod
    def create_req(method="GET", path="/", headers=None, body=b"", **kwa):
        from falcon import Request
        if isinstance(body, str):
            body = body.encode()
        return Request(method, path, {k.replace("_", "-"): v for k, v in (headers or {}).items()}, body, {})
