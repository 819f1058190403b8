"""D10: see catalog.py."""
import bisect

import nativelib
import msggen as mg
import weblib
from weblib import Io, On, OnIo, Plain
from vh import must

RULE = ("random operation sequences through the public methods of every collection type of native sub-database (string, Base64-tuple, primitive and "
        "concatenated-primitive values; several separators; keys given as text, bytes or parts), each return value and, after each change, the whole contents "
        "compared with a model of the collection; several sub-databases share one environment; non-trivial: something was removed or replaced")
ASSUME = ["the lmdb binding behaves as its stand-in", "keys of one sub-database have the same number of parts, none of which contains the separator"]
REQUIRE = ["Suber", "B64Suber", "CesrSuber", "CatCesrSuber", "OnSuber", "CesrOnSuber", "IoSetSuber", "B64IoSetSuber", "CesrIoSetSuber", "CatCesrIoSetSuber", "OnIoSetSuber",
           "B64OnIoSetSuber", "DupSuber", "CesrDupSuber", "CatCesrDupSuber", "IoDupSuber", "B64IoDupSuber", "OnIoDupSuber", "B64OnIoDupSuber",
           "changes", "reads", "removed", "othersep", "neighbour"]


class Dup:
    """Sets of values in lexical order."""

    def __init__(self):
        self.d = {}

    def items(self):
        return [(k, v) for k in sorted(self.d) for v in self.vals(k)]

    def vals(self, k):
        return sorted(self.d.get(k, []))

    def put(self, k, vals):
        s = self.d.setdefault(k, [])
        for v in vals:
            if v not in s:
                s.append(v)
        return None

    def pin(self, k, vals):
        self.d.pop(k, None)
        return self.put(k, vals)

    def add(self, k, v):
        if v in self.d.get(k, []):
            return False
        self.d.setdefault(k, []).append(v)
        return True

    def rem(self, k, v=None):
        s = self.d.get(k, [])
        if not s or v is not None and v not in s:
            return False
        if v is not None:
            s.remove(v)
        if v is None or not s:
            del self.d[k]
        return True

    def trim(self, top):
        hit = [k for k in self.d if self.full(k).startswith(top)]
        for k in hit:
            del self.d[k]
        return bool(hit)

    def full(self, k):
        return k


class IoDup(Dup):
    """Sets of values in insertion order."""

    def vals(self, k):
        return list(self.d.get(k, []))

    def put(self, k, vals):
        new = [v for v in vals if v not in self.d.get(k, [])]
        self.d.setdefault(k, []).extend(new)
        if not self.d[k]:
            del self.d[k]
        return bool(new)

    def pin(self, k, vals):
        self.d.pop(k, None)
        return self.put(k, vals)


class OnIoDup(IoDup):
    """As IoDup, by (key, ordinal)."""
    sep = b"."

    def full(self, k):
        return k[0] + self.sep + b"%032x" % k[1]

    def groups(self):
        return sorted(self.d, key=self.full)

    def items(self):
        return [(*k, v) for k in self.groups() for v in self.d[k]]

    def append(self, k, v):
        on = max([o for kk, o in self.d if kk == k], default=-1) + 1
        self.d[(k, on)] = [v]
        return on


# ------------------------------------------------------------------ values
class Text:
    def __init__(self, rng, sep):
        self.pool = ["v", "w", "x.y", "", "v" * 40, "vv", "é", "0", "%032x.v" % 0, "z"]
        if rng.random() < 0.3:
            self.pool += [mg.digest(rng) for _ in range(3)]

    def make(self, rng):
        t = rng.choice(self.pool)
        return rng.choice([t, t.encode()]), t.encode()

    def view(self, out):
        must(isinstance(out, str), "value read as %r", out)
        return out.encode()


class B64(Text):
    def __init__(self, rng, sep):
        self.sep = sep
        self.pool = [("v",), ("w", "x"), ("w", "x", "y"), ("-", "_"), ("v", "v"), (mg.digest(rng), "0")]

    def make(self, rng):
        t = rng.choice(self.pool)
        ser = self.sep.join(t).encode()
        if len(t) == 1 and rng.random() < 0.5:
            return rng.choice([t[0], t[0].encode()]), ser
        return rng.choice([t, list(t), tuple(x.encode() for x in t)]), ser

    def view(self, out):
        must(isinstance(out, tuple) and all(isinstance(x, str) for x in out), "value read as %r", out)
        return self.sep.join(out).encode()


class Cesr(Text):
    def __init__(self, rng, sep):
        self.pool = [mg.digest(rng) for _ in range(6)]

    @staticmethod
    def klas():
        from keri.core.coring import Diger
        return dict(klas=Diger)

    def make(self, rng):
        from keri.core.coring import Diger
        t = rng.choice(self.pool)
        return Diger(qb64=t), t.encode()

    def view(self, out):
        must(type(out).__name__ == "Diger", "value read as %r", out)
        return out.qb64b


class Cat(Text):
    def __init__(self, rng, sep):
        self.pool = [(rng.randrange(3), mg.digest(rng)) for _ in range(4)]
        self.pool.append((3, self.pool[0][1]))
        self.pool.append((self.pool[1][0], self.pool[0][1]))

    @staticmethod
    def klas():
        from keri.core.coring import Diger, Number
        return dict(klas=(Number, Diger))

    def make(self, rng):
        from keri.core.coring import Diger, Number
        n, d = rng.choice(self.pool)
        n, d = Number(num=n), Diger(qb64=d)
        return rng.choice([tuple, list])([n, d]), n.qb64b + d.qb64b

    def view(self, out):
        must(len(out) == 2 and [type(x).__name__ for x in out] == ["Number", "Diger"], "value read as %r", out)
        return b"".join(x.qb64b for x in out)


PARTS = ["a", "aa", "a-", "a0", "b", "A", "ab", "é", "z", "0" * 32, "%032x" % 1, "f" * 32, "E" + "A" * 43, "E" + "A" * 42 + "B"]


class Bed:
    """A sub-database, its model and the means to call the one like the other."""

    def __init__(self, ctx, rng, db, sub, klas, codec, model):
        from keri.db import subing
        self.ctx, self.rng = ctx, rng
        self.on = "On" in klas
        self.sep = rng.choice([".", ".", "/", ">", "^"])
        self.codec = codec(rng, self.sep)
        kwa = dict(codec.klas()) if hasattr(codec, "klas") else {}
        if self.sep != ".":
            kwa["sep"] = self.sep
            ctx.saw("othersep")
        self.m = model()
        self.m.sep = self.sep.encode()
        self.db = getattr(subing, klas)(db=db, subkey=sub, **kwa)
        self.klas = klas
        n = rng.randint(1, 3)
        heads = [rng.sample(PARTS, 3) for _ in range(n)]
        self.keys = [tuple(rng.choice(h) for h in heads) for _ in range(6)]
        k = rng.choice(self.keys)
        self.keys += [(*k[:-1], p) for p in rng.sample(PARTS, 2)]
        self.keys = list(dict.fromkeys(self.keys))
        self.ons = rng.sample([0, 1, 2, 3, 4, 10, 16, 255, 256, 2 ** 40], 4) + [0, 1]

    def raw(self, key):
        return self.sep.join(key).encode()

    def form(self, key):
        f = self.rng.randrange(5)
        return [key, list(key), self.raw(key), self.raw(key).decode(), tuple(k.encode() for k in key)][f]

    def back(self, keys):
        must(isinstance(keys, tuple) and all(isinstance(k, str) for k in keys), "keys came back as %r", keys)
        return self.raw(keys)

    def top(self):
        """Branch arguments for the call and the byte prefix they stand for."""
        key = self.rng.choice(self.keys)
        c = self.rng.randrange(5)
        n = self.rng.randint(1, len(key))
        raw = self.raw(key)
        if c == 0:
            return ("", {}, b"")
        if c == 1 and not self.on:      # whole parts
            return (self.rng.choice([tuple, list])(key[:n]), dict(topive=True), self.raw(key[:n]) + self.sep.encode())
        if c == 2:
            return ((*key[:n], ""), {}, self.raw(key[:n]) + self.sep.encode())
        if c == 3:
            return (key[:n], {}, self.raw(key[:n]))
        t = raw.decode()[:self.rng.randint(1, len(raw.decode()))]
        return (t, {}, t.encode())

    def vals(self, many=True):
        vs = [self.codec.make(self.rng) for _ in range(self.rng.choice([1, 1, 2, 3]) if many else 1)]
        if "IoDup" in self.klas:            # a value given twice in one put is stored twice by these
            seen = set()
            vs = [seen.add(b) or (v, b) for v, b in vs if b not in seen]
        ins = [v for v, _ in vs]
        if len(ins) == 1 and isinstance(ins[0], (str, bytes)) and self.rng.random() < 0.5 and ins[0]:
            ins = ins[0]
        return ins, [s for _, s in vs]

    def one(self):
        return self.codec.make(self.rng)

    def same(self, what, got, want):
        if got != want:
            must(False, "%s.%s gave %r, expected %r", self.klas, what, got, want)

    def rd(self, item):
        """Read item normalised: keys joined, value serialized."""
        return (self.back(item[0]), *item[1:-1], self.codec.view(item[-1]))

    def change(self):
        raise NotImplementedError

    def act(self, change):
        name, args, kwa, want = self.change() if change else self.read()
        self.ctx.log(self.klas, self.sep, name, args, kwa)
        got = getattr(self.db, name)(*args, **kwa)
        if change:
            self.ctx.saw("changes")
            if want is not None:
                self.same(name, got, want)
            self.dump()
        else:
            self.ctx.saw("reads")
            fn, want = want
            self.same(name, fn(got), want)

    def dump(self):
        self.same("getTopItemIter", [self.rd(i) for i in self.db.getTopItemIter()], self.all())


PASS = lambda x: x


class PlainBed(Bed):
    def all(self):
        return self.m.raw()

    def change(self):
        rng, key = self.rng, self.rng.choice(self.keys)
        k, f = self.raw(key), self.form(key)
        v, s = self.one()
        c = rng.randrange(8)
        if c < 3:
            return "put", (f,), dict(val=v), self.m.putVal(k, s)
        if c < 5:
            return "pin", (f, v), {}, self.m.setVal(k, s)
        if c < 7:
            self.ctx.saw("removed")
            return "rem", (f,), {}, self.m.remVal(k)
        t, kwa, top = self.top()
        if not top:
            t, kwa, top = f, {}, k
        return rng.choice(["trim", "remTop"]), (t,), kwa, self.m.remTop(top)

    def read(self):
        rng, key = self.rng, self.rng.choice(self.keys)
        k, f = self.raw(key), self.form(key)
        c = rng.randrange(6)
        if c < 2:
            return "get", (f,), {}, (lambda o: o if o is None else self.codec.view(o), self.m.getVal(k))
        if c == 2:
            return rng.choice(["cnt", "cntAll"]), (), {}, (PASS, self.m.cntAll())
        t, kwa, top = self.top()
        if c == 3:
            return "cntTop", (t,), kwa, (PASS, self.m.cntTop(top))
        return rng.choice(["getTopItemIter", "getFullItemIter"]), (t,), kwa, (lambda o: [self.rd(i) for i in o], self.m.getTopItemIter(top)[1:])


class OnBed(Bed):
    def all(self):
        return self.m.items()

    def base(self):
        key = self.rng.choice(self.keys)
        return self.raw(key), self.form(key), self.rng.choice(self.ons)

    def change(self):
        rng = self.rng
        k, f, on = self.base()
        v, s = self.one()
        c = rng.randrange(12)
        if c < 2:
            return "put", (f,), dict(on=on, val=v), self.m.putOnVal(k, on, s)
        if c < 4:
            return "pin", (f, on, v), {}, self.m.pinOnVal(k, on, s)
        if c < 8:
            return "append", (f, v), {}, self.m.appendOnVal(k, s)
        self.ctx.saw("removed")
        if c < 10:
            return "rem", (f,), dict(on=on), self.m.remOn(k, on)
        if c == 10:
            return "remAll", (f,), dict(on=on), self.m.remOnAll(k, on)
        t, kwa, top = self.top()
        if not top:
            t, kwa, top = f, {}, k
        return "trim", (t,), kwa, self.m.remTop(top)

    def read(self):
        rng = self.rng
        k, f, on = self.base()
        c = rng.randrange(8)
        if c == 0:
            return "getItem", (f,), dict(on=on), (lambda o: o if o is None else self.rd(o), self.m.getOnItem(k, on))
        if c == 1:
            return "get", (f, on), {}, (lambda o: o if o is None else self.codec.view(o), self.m.getOnVal(k, on))
        if c == 2:
            return "cnt", (f,), dict(on=on), (PASS, self.m.cntOnAll(k, on))
        if c == 3:
            return ("cntAll", (f,), dict(on=on), (PASS, self.m.cntOnAll(k, on))) if rng.random() < 0.6 else ("cntAll", (), {}, (PASS, self.m.cntAll()))
        if c == 4:
            t, _, top = self.top()
            return "getTopItemIter", (t,), {}, (lambda o: [self.rd(i) for i in o], self.m.getOnTopItemIter(top)[1:])
        if c < 7:
            a = (f,) if rng.random() < 0.8 else ()
            w = self.m.getOnAllItemIter(k if a else b"", on)[1:]
            if c == 5:
                return "getAllItemIter", a, dict(on=on) if a else {}, (lambda o: [self.rd(i) for i in o], w)
            return "getAllIter", a, dict(on=on) if a else {}, (lambda o: [self.codec.view(i) for i in o], [i[-1] for i in w])
        t, kwa, top = self.top()
        return "cntTop", (t,), kwa, (PASS, self.m.cntTop(top))


class IoBed(Bed):
    def all(self):
        return self.m.items()

    def change(self):
        rng, key = self.rng, self.rng.choice(self.keys)
        k, f = self.raw(key), self.form(key)
        c = rng.randrange(12)
        if c < 3:
            v, s = self.vals()
            return "put", (f,), dict(vals=v), self.m.putIoSetVals(k, s)
        if c < 5:
            v, s = self.vals()
            return "pin", (f, v), {}, self.m.pinIoSetVals(k, s)
        v, s = self.one()
        if c < 8:
            return "add", (f,), dict(val=v), self.m.addIoSetVal(k, s)
        self.ctx.saw("removed")
        if c < 10:
            return "rem", (f,), dict(val=v), self.m.remIoSetVal(k, s)
        if c == 10:
            return "rem", (f,), {}, self.m.remIoSet(k)
        t, kwa, top = self.top()
        if not top:
            t, kwa, top = (key if len(key) > 1 else list(key)), dict(topive=True), k + self.sep.encode()
        return "trim", (t,), kwa, self.m.remTop(top)

    def read(self):
        rng, key = self.rng, self.rng.choice(self.keys)
        k, f = self.raw(key), self.form(key)
        c = rng.randrange(10)
        w = self.m.getIoSetItemIter(k)[1:]
        kwa = {}
        if k not in self.m.gap and rng.random() < 0.4:
            kwa = dict(ion=rng.randrange(4))
            w = w[kwa["ion"]:]
        items = lambda o: [self.rd(i) for i in o]
        if c < 2:
            return rng.choice(["getItem", "getItemIter"]), (f,), kwa, (items, w)
        if c < 4:
            return rng.choice(["get", "getIter"]), (f,), kwa, (lambda o: [self.codec.view(i) for i in o], [i[-1] for i in w])
        last = self.m.getIoSetLastItem(k)
        if c == 4:
            return "getLastItem", (f,), {}, (lambda o: self.rd(o) if o else (), last)
        if c == 5:
            return "getLast", (f,), {}, (lambda o: o if o is None else self.codec.view(o), last[1] if last else None)
        if c == 6:
            return ("cnt", (f,), kwa, (PASS, len(w))) if rng.random() < 0.7 else (rng.choice(["cnt", "cntAll"]), (), {}, (PASS, self.m.cntAll()))
        if c == 7:
            t, kwa, top = self.top()
            if rng.random() < 0.5:
                return "cntTop", (t,), kwa, (PASS, self.m.cntTop(top))
            return "getTopItemIter", (t,), kwa, (items, self.m.getTopIoSetItemIter(top)[1:])
        a = (f,) if rng.random() < 0.7 else ()
        w = self.m.getIoSetLastItemIterAll(k if a else b"")[1:]
        if c == 8:
            return "getLastItemIter", a, {}, (items, w)
        return "getLastIter", a, {}, (lambda o: [self.codec.view(i) for i in o], [i[-1] for i in w])


class OnIoBed(OnBed):
    def all(self):
        return self.m.getOnTopIoSetItemIter()[1:]

    def change(self):
        rng = self.rng
        k, f, on = self.base()
        c = rng.randrange(13)
        if c < 7:
            v, s = self.vals()
            if c < 3:
                return "put", (f,), dict(on=on, vals=v), self.m.putOnIoSetVals(k, on, s)
            if c < 5:
                return "pin", (f, on, v), {}, self.m.pinOnIoSetVals(k, on, s)
            if len(set(s)) == len(s):
                return "append", (f,), dict(vals=v), self.m.appendOnIoSetVals(k, s)
        v, s = self.one()
        if c < 9:
            return "add", (f, on, v), {}, self.m.addOnIoSetVal(k, on, s)
        self.ctx.saw("removed")
        if c == 9:
            return "rem", (f,), dict(on=on, val=v), self.m.remOnIoSetVal(k, on, s)
        if c == 10:
            return "rem", (f,), dict(on=on), self.m.remOnIoSetVal(k, on)
        if c == 11:
            return "remAll", (f,), dict(on=on), self.m.remOnAllIoSet(k, on)
        t, kwa, top = self.top()
        if not top:
            t, kwa, top = f, {}, k
        return "trim", (t,), kwa, self.m.remTop(top)

    def read(self):
        rng = self.rng
        k, f, on = self.base()
        items = lambda o: [self.rd(i) for i in o]
        vals = lambda o: [self.codec.view(i) for i in o]
        w = self.m.getOnIoSetItemIter(k, on)[1:]
        kwa = dict(on=on)
        if (k, on) not in self.m.gap and rng.random() < 0.4:
            kwa["ion"] = rng.randrange(4)
            w = w[kwa["ion"]:]
        c = rng.randrange(13)
        if c == 0:
            return rng.choice(["getItem", "getItemIter"]), (f,), kwa, (items, w)
        if c == 1:
            return rng.choice(["get", "getIter"]), (f,), kwa, (vals, [i[-1] for i in w])
        last = self.m.getOnIoSetLastItem(k, on)
        if c == 2:
            return "getLastItem", (f, on), {}, (lambda o: self.rd(o) if o else (), last)
        if c == 3:
            return "getLast", (f, on), {}, (lambda o: o if o is None else self.codec.view(o), last[2] if last else None)
        if c == 4:
            return "cnt", (f,), kwa, (PASS, len(w))
        if c == 5:
            return ("cntAll", (f, on), {}, (PASS, self.m.cntOnAllIoSet(k, on))) if rng.random() < 0.6 else (rng.choice(["cntAll", "cnt"]), (), {}, (PASS, self.m.cntAll()))
        if c == 6:
            t, kwa, top = self.top()
            if rng.random() < 0.3:
                return "cntTop", (t,), kwa, (PASS, self.m.cntTop(top))
            return "getTopItemIter", (t,), {}, (items, self.m.getOnTopIoSetItemIter(top)[1:])
        a = (f,) if rng.random() < 0.75 else ()
        kwa = dict(on=on) if a else {}
        kk = k if a else b""
        if c < 9:
            w = self.m.getOnAllIoSetItemIter(kk, on)[1:]
            return ("getAllItemIter", a, kwa, (items, w)) if c == 7 else ("getAllIter", a, kwa, (vals, [i[-1] for i in w]))
        if c < 11:
            w = self.m.getOnAllIoSetLastItemIter(kk, on)[1:]
            return ("getAllLastItemIter", a, kwa, (items, w)) if c == 9 else ("getAllLastIter", a, kwa, (vals, [i[-1] for i in w]))
        if a and rng.random() < 0.3:
            kwa, on = {}, None
        if c == 11:
            w = self.m.getOnAllIoSetItemBackIter(kk, on)[1:]
            return rng.choice([("getAllItemBackIter", a, kwa, (items, w)), ("getAllBackIter", a, kwa, (vals, [i[-1] for i in w]))])
        w = self.m.getOnAllIoSetLastItemBackIter(kk, on)[1:]
        return rng.choice([("getAllLastItemBackIter", a, kwa, (items, w)), ("getAllLastBackIter", a, kwa, (vals, [i[-1] for i in w]))])


class DupBed(Bed):
    def all(self):
        return self.m.items()

    def change(self):
        rng, key = self.rng, self.rng.choice(self.keys)
        k, f = self.raw(key), self.form(key)
        c = rng.randrange(12)
        if c < 5:
            v, s = self.vals()
            if c < 3:
                return "put", (f,), dict(vals=v), self.m.put(k, s)
            return "pin", (f, v), {}, self.m.pin(k, s)
        v, s = self.one()
        if c < 8:
            return "add", (f,), dict(val=v), self.m.add(k, s)
        self.ctx.saw("removed")
        if c < 10 and s:
            return "rem", (f,), dict(val=v), self.m.rem(k, s)
        if c == 10:
            return "rem", (f,), {}, self.m.rem(k)
        t, kwa, top = self.top()
        if not top:
            t, kwa, top = f, {}, k
        return "trim", (t,), kwa, self.m.trim(top)

    def read(self):
        rng, key = self.rng, self.rng.choice(self.keys)
        k, f = self.raw(key), self.form(key)
        w = self.m.vals(k)
        c = rng.randrange(6)
        if c < 2:
            return rng.choice(["get", "getIter"]), (f,), {}, (lambda o: [self.codec.view(i) for i in o], w)
        if c == 2:
            return "getLast", (f,), {}, (lambda o: o if o is None else self.codec.view(o), w[-1] if w else None)
        if c == 3:
            return ("cnt", (f,), {}, (PASS, len(w))) if rng.random() < 0.7 else (rng.choice(["cnt", "cntAll"]), (), {}, (PASS, len(self.m.items())))
        t, kwa, top = self.top()
        w = [i for i in self.m.items() if i[0].startswith(top)]
        if c == 4:
            return "cntTop", (t,), kwa, (PASS, len(w))
        return "getTopItemIter", (t,), kwa, (lambda o: [self.rd(i) for i in o], w)


class IoDupBed(DupBed):
    def read(self):
        key = self.rng.choice(self.keys)
        if self.rng.random() < 0.2:
            return "getItemIter", (self.form(key),), {}, (lambda o: [self.rd(i) for i in o], [(self.raw(key), v) for v in self.m.vals(self.raw(key))])
        return super().read()


class OnIoDupBed(OnBed):
    def all(self):
        return self.m.items()

    def change(self):
        rng = self.rng
        k, f, on = self.base()
        c = rng.randrange(13)
        if c < 6:
            v, s = self.vals()
            if c < 4:
                return "put", (f,), dict(on=on, vals=v), self.m.put((k, on), s)
            return "pin", (f, on, v), {}, self.m.pin((k, on), s)
        v, s = self.one()
        if c < 8:
            return "add", (f, on, v), {}, self.m.add((k, on), s)
        if c < 10:
            return "append", (f, v), {}, self.m.append(k, s)
        self.ctx.saw("removed")
        if c == 10:
            return "rem", (f,), dict(on=on, val=v), self.m.rem((k, on), s)
        if c == 11:
            return "rem", (f,), dict(on=on), self.m.rem((k, on))
        t, kwa, top = self.top()
        if not top:
            t, kwa, top = f, {}, k
        return "trim", (t,), kwa, self.m.trim(top)

    def read(self):
        rng = self.rng
        k, f, on = self.base()
        items = lambda o: [self.rd(i) for i in o]
        vals = lambda o: [self.codec.view(i) for i in o]
        w = self.m.vals((k, on))
        c = rng.randrange(10)
        if c == 0:
            return "getItemIter", (f,), dict(on=on), (items, [(k, on, v) for v in w])
        if c == 1:
            return rng.choice(["get", "getIter"]), (f, on), {}, (vals, w)
        if c == 2:
            return "getLast", (f, on), {}, (lambda o: o if o is None else self.codec.view(o), w[-1] if w else None)
        if c == 3:
            return ("cnt", (f, on), {}, (PASS, len(w))) if rng.random() < 0.7 else ("cnt", (), {}, (PASS, len(self.m.items())))
        if c == 4:
            t, kwa, top = self.top()
            return "getTopItemIter", (t,), {}, (items, [i for i in self.m.items() if self.m.full(i[:2]).startswith(top)])
        a = (f,) if rng.random() < 0.75 else ()
        kwa = dict(on=on) if a else {}
        gs = [g for g in self.m.groups() if not a or g[0] == k and g[1] >= on]
        w = [(*g, v) for g in gs for v in self.m.d[g]]
        last = [(*g, self.m.d[g][-1]) for g in gs]
        if c < 6:
            return rng.choice([("getAllItemIter", a, kwa, (items, w)), ("getAllIter", a, kwa, (vals, [i[-1] for i in w]))])
        if c < 8:
            return rng.choice([("getLastItemIter", a, kwa, (items, last)), ("getLastIter", a, kwa, (vals, [i[-1] for i in last]))])
        gs = [g for g in self.m.groups() if not a or g[0] == k and g[1] <= on][::-1]
        w = [(*g, v) for g in gs for v in self.m.d[g][::-1]]
        return rng.choice([("getItemBackIter", a, kwa, (items, w)), ("getBackIter", a, kwa, (vals, [i[-1] for i in w]))])


KINDS = [("Suber", Text, Plain, PlainBed), ("B64Suber", B64, Plain, PlainBed), ("CesrSuber", Cesr, Plain, PlainBed), ("CatCesrSuber", Cat, Plain, PlainBed),
         ("OnSuber", Text, On, OnBed), ("CesrOnSuber", Cesr, On, OnBed),
         ("IoSetSuber", Text, Io, IoBed), ("B64IoSetSuber", B64, Io, IoBed), ("CesrIoSetSuber", Cesr, Io, IoBed), ("CatCesrIoSetSuber", Cat, Io, IoBed),
         ("OnIoSetSuber", Text, OnIo, OnIoBed), ("B64OnIoSetSuber", B64, OnIo, OnIoBed),
         ("DupSuber", Text, Dup, DupBed), ("CesrDupSuber", Cesr, Dup, DupBed), ("CatCesrDupSuber", Cat, Dup, DupBed),
         ("IoDupSuber", Text, IoDup, IoDupBed), ("B64IoDupSuber", B64, IoDup, IoDupBed),
         ("OnIoDupSuber", Text, OnIoDup, OnIoDupBed), ("B64OnIoDupSuber", B64, OnIoDup, OnIoDupBed)]


def ops(ctx, rng, i):
    db, tag = nativelib.native("d10", every=25)
    first = i % len(KINDS)
    kinds = [KINDS[first]] + ([rng.choice(KINDS)] if rng.random() < 0.4 else [])
    beds = []
    for n, (klas, codec, model, bed) in enumerate(kinds):
        beds.append(bed(ctx, rng, db, tag.decode() + ".%d." % n, klas, codec, model))
        ctx.saw(klas)
    ctx.saw("neighbour", len(beds) > 1)
    for _ in range(rng.choice([20, 40, 80])):
        b = rng.choice(beds)
        b.act(rng.random() < 0.6)
        if len(beds) > 1 and rng.random() < 0.2:
            for o in beds:
                o.dump()
    ctx.case(tuple(k[0] for k in kinds) + (i,), True)


CASES = [("ops", ops, 19 * 20, 19 * 400)]
