"""Stand-in for hjson: JSON superset reading limited to JSON plus # comments."""
import json


class HjsonDecodeError(ValueError):
    pass


def dumps(o, **k):
    return json.dumps(o, indent=2)


def loads(s, **k):
    if isinstance(s, bytes):
        s = s.decode()
    lines = [l for l in s.splitlines() if not l.strip().startswith(("#", "//"))]
    try:
        return json.loads("\n".join(lines))
    except ValueError as ex:
        raise HjsonDecodeError(str(ex)) from ex
