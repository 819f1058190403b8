"""Stand-in for falcon (synchronous routing subset keripy uses), plus
falcon.testing.TestClient, all in process."""
import io
import json
import re
import urllib.parse

MEDIA_JSON = "application/json"
_codes = {200: "OK", 201: "Created", 202: "Accepted", 204: "No Content", 400: "Bad Request", 401: "Unauthorized",
          403: "Forbidden", 404: "Not Found", 405: "Method Not Allowed", 406: "Not Acceptable", 409: "Conflict",
          412: "Precondition Failed", 413: "Payload Too Large", 415: "Unsupported Media Type", 417: "Expectation Failed",
          500: "Internal Server Error", 501: "Not Implemented", 503: "Service Unavailable"}
for _c, _t in _codes.items():
    globals()[f"HTTP_{_c}"] = f"{_c} {_t}"
HTTP_OK, HTTP_NOT_FOUND, HTTP_NOT_ACCEPTABLE = HTTP_200, HTTP_404, HTTP_406  # noqa
HTTP_PRECONDITION_FAILED, HTTP_ACCEPTED, HTTP_NO_CONTENT = HTTP_412, HTTP_202, HTTP_204  # noqa
HTTP_BAD_REQUEST = HTTP_400  # noqa
HTTP_EXPECTATION_FAILED = HTTP_417  # noqa
HTTP_UNAUTHORIZED = HTTP_401  # noqa


class HTTPError(Exception):
    def __init__(self, status, title=None, description=None, headers=None, **kwa):
        if isinstance(status, int):
            status = f"{status} {_codes.get(status, '')}"
        self.status, self.title, self.description, self.headers = status, title, description, headers or {}
        super().__init__(f"{status}: {description}")


def _mk(code):
    class E(HTTPError):
        def __init__(self, *, title=None, description=None, headers=None, **kwa):
            super().__init__(f"{code} {_codes[code]}", title=title, description=description, headers=headers)
    return E


HTTPBadRequest, HTTPNotFound, HTTPUnauthorized = _mk(400), _mk(404), _mk(401)
HTTPMethodNotAllowed, HTTPUnsupportedMediaType, HTTPForbidden = _mk(405), _mk(415), _mk(403)
HTTPNotAcceptable, HTTPConflict, HTTPInternalServerError = _mk(406), _mk(409), _mk(500)


class MediaMalformedError(HTTPBadRequest):
    pass


class MediaNotFoundError(HTTPBadRequest):
    pass


class Request:
    def __init__(self, method, path, headers=None, body=b"", params=None):
        self.method, self.path = method, path
        self.headers = {k.upper(): v for k, v in (headers or {}).items()}
        self._body = body
        self.bounded_stream = self.stream = io.BytesIO(body)
        self.params = params or {}
        self.content_length = len(body)
        self.context = type("Ctx", (), {})()

    @property
    def content_type(self):
        return self.headers.get("CONTENT-TYPE")

    def get_header(self, name, required=False, default=None):
        v = self.headers.get(name.upper(), default)
        if v is None and required:
            raise HTTPBadRequest(description=f"missing header {name}")
        return v

    def get_media(self, default_when_empty=None):
        if not self._body:
            if default_when_empty is not None:
                return default_when_empty
            raise MediaNotFoundError(description="empty")
        try:
            return json.loads(self._body)
        except ValueError as ex:
            raise MediaMalformedError(description="Invalid JSON") from ex

    @property
    def media(self):
        return self.get_media()

    def get_param(self, name, required=False, store=None, default=None):
        if name in self.params:
            v = self.params[name]
            return v[-1] if isinstance(v, list) else v
        if required:
            raise HTTPBadRequest(description=f"missing param {name}")
        return default

    def get_param_as_int(self, name, required=False, default=None, **k):
        v = self.get_param(name, required=required)
        if v is None:
            return default
        try:
            return int(v)
        except ValueError as ex:
            raise HTTPBadRequest(description="The value must be an integer.") from ex


class Response:
    def __init__(self):
        self.status = HTTP_200  # noqa
        self.headers = {}
        self.text = None
        self.data = None
        self.media = None
        self.stream = None
        self.content_type = "application/json"
        self.complete = False
        self.context = type("Ctx", (), {})()

    def set_header(self, k, v):
        self.headers[k.lower()] = v

    append_header = set_header

    def get_header(self, k, default=None):
        return self.headers.get(k.lower(), default)


class _Route:
    def __init__(self, template, resource, suffix):
        self.template, self.resource, self.suffix = template, resource, suffix
        self.uri_template = template
        rx = re.sub(r"\\{([A-Za-z_]\w*)\\}", r"(?P<\1>[^/]+)", re.escape(template))
        self.rx = re.compile("^" + rx + "$")
        self.nparam = template.count("{")


class App:
    def __init__(self, middleware=None, cors_enable=False, **kwa):
        self._routes = []
        self._sinks = []
        self._mw = []
        if middleware:
            self.add_middleware(middleware)
        self.resp_options = type("O", (), {"media_handlers": {}})()
        self.req_options = type("O", (), {"media_handlers": {}})()

    def add_middleware(self, mw):
        self._mw.extend(mw if isinstance(mw, (list, tuple)) else [mw])

    def add_route(self, template, resource, suffix=None, **kwa):
        self._routes.append(_Route(template, resource, suffix))

    def add_sink(self, sink, prefix="/"):
        rx = prefix if hasattr(prefix, "match") else re.compile(prefix)
        self._sinks.insert(0, (rx, sink))

    def add_error_handler(self, *a, **k):
        pass

    def add_static_route(self, *a, **k):
        pass

    def handle(self, req):
        """Dispatch one Request; returns the Response."""
        rep = Response()
        try:
            for m in self._mw:
                if hasattr(m, "process_request"):
                    m.process_request(req, rep)
                if rep.complete:
                    return rep
            cands = [(r, m) for r in self._routes for m in [r.rx.match(req.path)] if m]
            cands.sort(key=lambda t: t[0].nparam)
            if cands:
                r, m = cands[0]
                name = f"on_{req.method.lower()}" + (f"_{r.suffix}" if r.suffix else "")
                h = getattr(r.resource, name, None)
                if h is None:
                    raise HTTPMethodNotAllowed()
                h(req, rep, **m.groupdict())
            else:
                for rx, sink in self._sinks:
                    m = rx.match(req.path)
                    if m:
                        sink(req, rep, **m.groupdict())
                        break
                else:
                    raise HTTPNotFound()
            for m in reversed(self._mw):
                if hasattr(m, "process_response"):
                    m.process_response(req, rep, None, True)
        except HTTPError as ex:
            rep.status = ex.status
            rep.text = json.dumps({"title": ex.title or ex.status, "description": ex.description})
        return rep


from . import testing  # noqa
