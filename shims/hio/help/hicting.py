from collections.abc import MutableMapping


class Mict(MutableMapping):
    """Ordered multi-valued dict."""

    def __init__(self, *pa, **kwa):
        self._l = []
        for a in pa:
            self.extend(a)
        for k, v in kwa.items():
            self.add(k, v)

    @staticmethod
    def _id(k):
        return k

    def extend(self, a):
        items = a.items() if hasattr(a, "items") else a
        for k, v in items:
            self.add(k, v)

    def add(self, k, v):
        self._l.append((k, v))

    def __getitem__(self, k):
        for kk, v in self._l:
            if self._id(kk) == self._id(k):
                return v
        raise KeyError(k)

    def __setitem__(self, k, v):
        out, done = [], False
        for kk, vv in self._l:
            if self._id(kk) == self._id(k):
                if not done:
                    out.append((k, v))
                    done = True
            else:
                out.append((kk, vv))
        if not done:
            out.append((k, v))
        self._l = out

    def __delitem__(self, k):
        if k not in self:
            raise KeyError(k)
        self._l = [(kk, vv) for kk, vv in self._l if self._id(kk) != self._id(k)]

    def __contains__(self, k):
        return any(self._id(kk) == self._id(k) for kk, _ in self._l)

    def __iter__(self):
        return iter([k for k, _ in self._l])

    def __len__(self):
        return len(self._l)

    def items(self):
        return list(self._l)

    def keys(self):
        return [k for k, _ in self._l]

    def values(self):
        return [v for _, v in self._l]

    def getall(self, k, default=None):
        r = [v for kk, v in self._l if self._id(kk) == self._id(k)]
        if not r and default is None:
            raise KeyError(k)
        return r or default

    def getone(self, k, *d):
        try:
            return self[k]
        except KeyError:
            if d:
                return d[0]
            raise

    def nabone(self, k, *d):
        r = [v for kk, v in self._l if self._id(kk) == self._id(k)]
        if r:
            return r[-1]
        if d:
            return d[0]
        raise KeyError(k)

    def nab(self, k, *d):
        r = [v for kk, v in self._l if self._id(kk) == self._id(k)]
        if r:
            return r[-1]
        return d[0] if d else None

    def naball(self, k, *d):
        return list(reversed(self.getall(k, *d)))

    def firsts(self):
        seen, out = set(), []
        for k, v in self._l:
            if self._id(k) not in seen:
                seen.add(self._id(k))
                out.append((k, v))
        return out

    def lasts(self):
        d = {}
        for k, v in self._l:
            d[k] = v
        return list(d.items())

    def __eq__(self, o):
        if isinstance(o, Mict):
            return self._l == o._l
        if hasattr(o, "items"):
            return dict(self._l) == dict(o.items()) and len(self._l) == len(o)
        return NotImplemented

    def __repr__(self):
        return f"{type(self).__name__}({self._l!r})"


class Hict(Mict):
    @staticmethod
    def _id(k):
        return k.lower() if isinstance(k, str) else k
