"""Stand-in for http_sfv: Dictionary of Items / InnerLists (RFC 8941 subset)."""
from collections import UserDict, UserList


def _sbare(v):
    if isinstance(v, bool):
        return "?1" if v else "?0"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return repr(round(v, 3))
    if isinstance(v, str):
        if any(ord(c) < 0x20 or ord(c) > 0x7e for c in v):
            raise ValueError("String contains disallowed characters")
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, bytes):
        import base64
        return ":" + base64.b64encode(v).decode() + ":"
    raise ValueError("bad bare item")


class Params(dict):
    def __str__(self):
        out = ""
        for k, v in self.items():
            out += f";{k}" if v is True else f";{k}={_sbare(v)}"
        return out


class Item:
    def __init__(self, value=None):
        self.value, self.params = value, Params()

    def __str__(self):
        return _sbare(self.value) + str(self.params)

    def __eq__(self, o):
        return self.value == (o.value if isinstance(o, Item) else o)


class InnerList(UserList):
    def __init__(self, vals=None):
        super().__init__([v if isinstance(v, Item) else Item(v) for v in (vals or [])])
        self.params = Params()

    def __str__(self):
        return "(" + " ".join(str(i) for i in self.data) + ")" + str(self.params)


class Dictionary(UserDict):
    def __setitem__(self, k, v):
        if not isinstance(v, (Item, InnerList)):
            v = InnerList(v) if isinstance(v, (list, tuple)) else Item(v)
        self.data[k] = v

    def __str__(self):
        out = []
        for k, v in self.data.items():
            if isinstance(v, Item) and v.value is True:
                out.append(k + str(v.params))
            else:
                out.append(f"{k}={v}")
        return ", ".join(out)

    def parse(self, s):
        if isinstance(s, bytes):
            s = s.decode("ascii")
        p = _P(s.strip(" "))
        while not p.end():
            k = p.key()
            if p.peek() == "=":
                p.i += 1
                v = p.member()
            else:
                v = Item(True)
                v.params = p.params()
            self.data[k] = v
            p.ows()
            if p.end():
                return
            if p.next() != ",":
                raise ValueError("Dictionary member has trailing characters")
            p.ows()
            if p.end():
                raise ValueError("Dictionary has trailing comma")


class _P:
    def __init__(self, s):
        self.s, self.i = s, 0

    def end(self):
        return self.i >= len(self.s)

    def peek(self):
        return "" if self.end() else self.s[self.i]

    def next(self):
        c = self.peek()
        self.i += 1
        return c

    def ows(self):
        while self.peek() in (" ", "\t") and not self.end():
            self.i += 1

    def key(self):
        j = self.i
        if not (self.peek().islower() or self.peek() == "*") or self.end():
            raise ValueError("Key does not begin with lcalpha or *")
        while not self.end() and (self.peek().islower() or self.peek().isdigit() or self.peek() in "_-.*"):
            self.i += 1
        return self.s[j:self.i]

    def params(self):
        ps = Params()
        while self.peek() == ";":
            self.i += 1
            while self.peek() == " ":
                self.i += 1
            k = self.key()
            v = True
            if self.peek() == "=":
                self.i += 1
                v = self.bare()
            ps[k] = v
        return ps

    def member(self):
        if self.peek() == "(":
            self.i += 1
            il = InnerList()
            while True:
                while self.peek() == " ":
                    self.i += 1
                if self.end():
                    raise ValueError("Inner list not terminated")
                if self.peek() == ")":
                    self.i += 1
                    il.params = self.params()
                    return il
                it = Item(self.bare())
                it.params = self.params()
                il.data.append(it)
                if self.peek() not in (" ", ")"):
                    raise ValueError("Inner list bad delimitation")
        it = Item(self.bare())
        it.params = self.params()
        return it

    def bare(self):
        c = self.peek()
        if c == '"':
            self.i += 1
            out = ""
            while True:
                if self.end():
                    raise ValueError("String not terminated")
                c = self.next()
                if c == "\\":
                    d = self.next()
                    if d not in ('"', "\\"):
                        raise ValueError("bad escape")
                    out += d
                elif c == '"':
                    return out
                else:
                    out += c
        if c == "?":
            self.i += 1
            return self.next() == "1"
        if c == ":":
            import base64
            j = self.s.index(":", self.i + 1)
            v = base64.b64decode(self.s[self.i + 1:j])
            self.i = j + 1
            return v
        if c == "-" or c.isdigit():
            j = self.i
            self.i += 1
            while not self.end() and (self.peek().isdigit() or self.peek() == "."):
                self.i += 1
            t = self.s[j:self.i]
            return float(t) if "." in t else int(t)
        if c.isalpha() or c == "*":
            j = self.i
            while not self.end() and (self.peek().isalnum() or self.peek() in ":/!#$%&'*+-.^_`|~"):
                self.i += 1
            return self.s[j:self.i]
        raise ValueError("bad bare item")
