VALID_METHODS = {3: ["get", "post", "put", "delete", "patch"]}


class APISpec:
    def __init__(self, title=None, version=None, openapi_version="3.0.2", **k):
        self.openapi_version = type("V", (), {"major": int(openapi_version.split(".")[0])})()
        self.paths = {}

    def path(self, path=None, operations=None, **k):
        self.paths[path] = operations

    def to_yaml(self):
        return ""
