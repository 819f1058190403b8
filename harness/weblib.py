"""Browser-store workloads: storage stand-in, reference models, operations."""
import asyncio
import importlib.util
import json
import os
import sys

import vh
from vh import Violation, must, same

MAXON = (1 << 128) - 1


def load():
    """webdbing as the standalone module the browser uses."""
    if "webdbing" not in sys.modules:
        for p in ("/opt/venv/lib/python3.12/site-packages",):
            if p not in sys.path:
                sys.path.append(p)
        path = os.path.join(vh.REPO, "src", "keri", "db", "webdbing.py")
        spec = importlib.util.spec_from_file_location("webdbing", path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules["webdbing"] = mod
        spec.loader.exec_module(mod)
    return sys.modules["webdbing"]


class Handle:
    """PyScript storage handle: local writes, durable only when sync completes."""

    def __init__(self, backend, ns):
        self.backend, self.ns = backend, ns
        self.local = {k: backend.form(v) for k, v in backend.durable.get(ns, {}).items()}

    def get(self, key, default=None):
        return self.local.get(key, default)

    def __getitem__(self, key):
        return self.local[key]

    def __contains__(self, key):
        return key in self.local

    def __setitem__(self, key, value):
        self.local[key] = value

    def __delitem__(self, key):
        del self.local[key]

    async def sync(self):
        await self.backend.syncing(self)


class Backend:
    """Opener over durable payloads; counts and records every sync."""

    # what a storage may hand back for the text it was given
    FORMS = [str, str, str, lambda v: v.encode(), lambda v: memoryview(v.encode()), json.loads]

    def __init__(self, form=str):
        self.durable = {}
        self.form = form
        self.opened = []
        self.syncs = []

    async def open(self, ns):
        self.opened.append(ns)
        return Handle(self, ns)

    async def syncing(self, handle):
        self.durable[handle.ns] = dict(handle.local)
        self.syncs.append(handle.ns)


def drive(coro):
    """Run a coroutine that never really suspends."""
    try:
        coro.send(None)
    except StopIteration as ex:
        return ex.value
    coro.close()
    raise RuntimeError("coroutine suspended unexpectedly")


def opendb(backend, name, stores, **kwa):
    return drive(load().WebDBer.open(name, stores, storageOpener=backend.open, **kwa))


# ---------------------------------------------------------------- outcomes
def norm(x):
    if isinstance(x, memoryview):
        return bytes(x)
    if isinstance(x, tuple):
        return tuple(norm(y) for y in x)
    if isinstance(x, list):
        return [norm(y) for y in x]
    return x


def outcome(fn, *pa, **kwa):
    """('ret', value) or ('exc', type name); iterators are drained."""
    try:
        r = fn(*pa, **kwa)
        if hasattr(r, "__next__"):
            r = ["iter"] + list(r)
        return ("ret", norm(r))
    except Exception as ex:
        return ("exc", type(ex).__name__, ex)


# ---------------------------------------------------------------- models
class Plain:
    """Ordered map of byte keys."""

    def __init__(self):
        self.d = {}

    def raw(self):
        return sorted(self.d.items())

    def putVal(self, key, val):
        if not key:
            return KeyError
        if key in self.d:
            return False
        self.d[key] = val
        return True

    def setVal(self, key, val):
        if not key:
            return KeyError
        self.d[key] = val
        return True

    def getVal(self, key):
        if not key:
            return KeyError
        return self.d.get(key)

    def remVal(self, key):
        return self.d.pop(key, None) is not None if key else False

    def getTopItemIter(self, top=b''):
        return ["iter"] + [(k, v) for k, v in self.raw() if k.startswith(top)]

    def cntTop(self, top=b''):
        return sum(1 for k in self.d if k.startswith(top))

    def remTop(self, top=b''):
        hit = [k for k in self.d if k.startswith(top)]
        for k in hit:
            del self.d[k]
        return bool(hit)

    def cntAll(self):
        return len(self.d)


class On:
    """Ordinal logs: d[(key, on)] = val."""

    def __init__(self):
        self.d = {}

    sep = b"."

    def okey(self, key, on):
        return key + self.sep + b"%032x" % on

    def items(self):
        return [(k, o, v) for (k, o), v in sorted(self.d.items(), key=lambda x: self.okey(*x[0]))]

    def raw(self):
        return [(self.okey(k, o), v) for k, o, v in self.items()]

    def putOnVal(self, key, on=0, val=None):
        if val is None or (key, on) in self.d:
            return False
        self.d[(key, on)] = val
        return True

    def pinOnVal(self, key, on=0, val=None):
        if val is None or not key:
            return False
        self.d[(key, on)] = val
        return True

    def appendOnVal(self, key, val):
        if not key or val is None:
            return ValueError
        ons = [o for k, o in self.d if k == key]
        on = max(ons) + 1 if ons else 0
        if on > MAXON:
            return ValueError
        self.d[(key, on)] = val
        return on

    def getOnItem(self, key, on=0):
        return (key, on, self.d[(key, on)]) if key and (key, on) in self.d else None

    def getOnVal(self, key, on=0):
        return self.d.get((key, on)) if key else None

    def remOn(self, key, on=0):
        return bool(key) and self.d.pop((key, on), None) is not None

    def sel(self, key, on):
        return [(k, o, v) for k, o, v in self.items() if not key or (k == key and o >= on)]

    def remOnAll(self, key=b'', on=0):
        hit = self.sel(key, on)
        for k, o, _ in hit:
            del self.d[(k, o)]
        return bool(hit)

    def cntOnAll(self, key=b'', on=0):
        return len(self.sel(key, on))

    def getOnAllItemIter(self, key=b'', on=0):
        return ["iter"] + self.sel(key, on)

    def getOnTopItemIter(self, top=b''):
        return ["iter"] + [(k, o, v) for k, o, v in self.items() if self.okey(k, o).startswith(top)]

    def remTop(self, top=b''):
        hit = [(k, o) for k, o in self.d if self.okey(k, o).startswith(top)]
        for x in hit:
            del self.d[x]
        return bool(hit)

    def cntTop(self, top=b''):
        return sum(1 for k, o in self.d if self.okey(k, o).startswith(top))

    def cntAll(self):
        return len(self.d)


class Io:
    sep = b"."
    """Insertion-ordered sets: d[key] = [val, ...]; key order is that of key + '.'."""

    def __init__(self):
        self.d = {}
        self.gap = set()  # keys whose hidden ordinals may have gaps

    def keys(self):
        return sorted((k for k in self.d if self.d[k]), key=lambda k: k + self.sep + b"0" * 32)

    def items(self, pred=lambda k: True):
        return [(k, v) for k in self.keys() if pred(k) for v in self.d[k]]

    def putIoSetVals(self, key, vals):
        if not key or not vals:
            return False
        new = False
        for v in vals:
            new = self.addIoSetVal(key, v) or new
        return new

    def pinIoSetVals(self, key, vals):
        if not key or not vals:
            return False
        self.d[key] = list(dict.fromkeys(vals))
        self.gap.discard(key)
        return True

    def addIoSetVal(self, key, val):
        if not key or val is None:
            return False
        s = self.d.setdefault(key, [])
        if val in s:
            return False
        s.append(val)
        return True

    def getIoSetItemIter(self, key, ion=0):
        return ["iter"] + [(key, v) for v in self.d.get(key, [])[ion:]]

    def getIoSetLastItem(self, key):
        s = self.d.get(key)
        return (key, s[-1]) if key and s else ()

    def remIoSet(self, key):
        self.gap.discard(key)
        return bool(self.d.pop(key, [])) if key else False

    def remIoSetVal(self, key, val=None):
        if val is None:
            return self.remIoSet(key)
        s = self.d.get(key, [])
        if not key or val not in s:
            return False
        if s[-1] != val:
            self.gap.add(key)
        s.remove(val)
        if not s:
            self.remIoSet(key)
        return True

    def cntIoSet(self, key, ion=0):
        return len(self.d.get(key, [])[ion:])

    def getTopIoSetItemIter(self, top=b''):
        # top is a prefix of the key or the key followed by the separator
        return ["iter"] + self.items(lambda k: (k + self.sep).startswith(top))

    def getIoSetLastItemIterAll(self, key=b''):
        return ["iter"] + [(k, self.d[k][-1]) for k in self.keys() if not key or k + self.sep + b"0" * 32 >= key + self.sep + b"0" * 32]

    def getIoSetLastIterAll(self, key=b''):
        return ["iter"] + [v for _, v in self.getIoSetLastItemIterAll(key)[1:]]

    def remTop(self, top=b''):
        hit = [k for k in self.keys() if (k + self.sep).startswith(top)]
        for k in hit:
            self.remIoSet(k)
        return bool(hit)

    def cntTop(self, top=b''):
        return sum(len(self.d[k]) for k in self.keys() if (k + self.sep).startswith(top))

    def cntAll(self):
        return sum(len(v) for v in self.d.values())


class OnIo:
    sep = b"."
    okey = On.okey
    """Sets keyed by (key, ordinal)."""

    def __init__(self):
        self.d = {}
        self.gap = set()

    def groups(self):
        return sorted((g for g in self.d if self.d[g]), key=lambda g: self.okey(*g) + self.sep + b"0" * 32)

    def put(self, key, on, vals):
        s = self.d.setdefault((key, on), [])
        seen = set(s)
        new = False
        for v in vals:
            if v not in seen:
                s.append(v)
                seen.add(v)
                new = True
        return new

    def drop(self, g):
        self.gap.discard(g)
        return bool(self.d.pop(g, []))

    def putOnIoSetVals(self, key, on=0, vals=None):
        return bool(key and vals) and self.put(key, on, vals)

    def pinOnIoSetVals(self, key, on=0, vals=None):
        if not key or not vals:
            return False
        self.drop((key, on))
        return self.put(key, on, vals)

    def appendOnIoSetVals(self, key, vals):
        if not key or not vals:
            return ValueError
        ons = [o for (k, o), s in self.d.items() if k == key and s]
        on = max(ons) + 1 if ons else 0
        if on > MAXON:
            return ValueError
        self.put(key, on, vals)
        return on

    def addOnIoSetVal(self, key, on=0, val=None):
        return bool(key) and val is not None and self.put(key, on, [val])

    def getOnIoSetItemIter(self, key, on=0, ion=0):
        return ["iter"] + [(key, on, v) for v in self.d.get((key, on), [])[ion:]]

    def getOnIoSetLastItem(self, key, on=0):
        s = self.d.get((key, on))
        return (key, on, s[-1]) if s else ()

    def remOnIoSetVal(self, key, on=0, val=None):
        g = (key, on)
        if val is None:
            return self.drop(g)
        s = self.d.get(g, [])
        if val not in s:
            return False
        if s[-1] != val:
            self.gap.add(g)
        s.remove(val)
        if not s:
            self.drop(g)
        return True

    def sel(self, key, on, back=False):
        if back:
            gs = [g for g in self.groups() if not key or (g[0] == key and (on is None or g[1] <= on))]
            return gs[::-1]
        return [g for g in self.groups() if not key or (g[0] == key and g[1] >= on)]

    def remOnAllIoSet(self, key=b'', on=0):
        hit = self.sel(key, on)
        for g in hit:
            self.drop(g)
        return bool(hit)

    def cntOnIoSet(self, key, on=0, ion=0):
        return len(self.d.get((key, on), [])[ion:])

    def cntOnAllIoSet(self, key=b'', on=0):
        return sum(len(self.d[g]) for g in self.sel(key, on))

    def getOnTopIoSetItemIter(self, top=b''):
        return ["iter"] + [(*g, v) for g in self.groups() if (self.okey(*g) + self.sep).startswith(top) for v in self.d[g]]

    def getOnAllIoSetItemIter(self, key=b'', on=0):
        return ["iter"] + [(*g, v) for g in self.sel(key, on) for v in self.d[g]]

    def getOnAllIoSetLastItemIter(self, key=b'', on=0):
        return ["iter"] + [(*g, self.d[g][-1]) for g in self.sel(key, on)]

    def getOnAllIoSetItemBackIter(self, key=b'', on=None):
        return ["iter"] + [(*g, v) for g in self.sel(key, on, True) for v in self.d[g][::-1]]

    def getOnAllIoSetLastItemBackIter(self, key=b'', on=None):
        return ["iter"] + [(*g, self.d[g][-1]) for g in self.sel(key, on, True)]

    def remTop(self, top=b''):
        hit = [g for g in self.groups() if (self.okey(*g) + self.sep).startswith(top)]
        for g in hit:
            self.drop(g)
        return bool(hit)

    def cntTop(self, top=b''):
        return sum(len(self.d[g]) for g in self.groups() if (self.okey(*g) + self.sep).startswith(top))

    def cntAll(self):
        return sum(len(v) for v in self.d.values())


# ---------------------------------------------------------------- inputs
PLAINKEYS = [b"a", b"aa", b"ab", b"a\x00", b"a\xff", b"a\xff\xff", b"b", b"B", b"\xff", b"\xff\xff", b"\x00",
             b"a.", b"a.b", b"a.b.c", b"a/", b"a-", b"key", b"key.1", b"k" * 60, b"zz", "é".encode()]
# base keys no one of which can be read as another plus an ordinal: same number
# of parts, with neighbours on both sides of the separator character
BASEKEYS = [[b"a", b"aa", b"a-", b"a/", b"a0", b"b", b"A", b"ab", b"\xc3\xa9", b"z"],
            [b"x.a", b"x.aa", b"x.a-", b"x.a/", b"x-.a", b"xx.a", b"y.a", b"x.b", b"w.zz"],
            [b"0", b"00", b"f", b"f" * 32, b"0" * 32, b"ff", b"g", b"00000"],
            [b"EAAA", b"EAAB", b"EAA_", b"EAA-", b"DAAA", b"EAAAA", b"E", b"BBBB"]]
# base keys that continue another one after the separator: their records sort
# past those of the shorter key for every ordinal these histories use
NESTED = [b"a", b"a.z", b"a.b", b"a.x.b", b"a.G", b"ab", b"a-", b"b", b"b.zz", b"b.g"]
VALS = [b"", b"v", b"w", b"x", b"y", b"z", b"\x00", b"\xff\xfe", b"v" * 300, b"v.", b"0"]
ONS = [0, 1, 2, 3, 5, 9, 10, 15, 16, 17, 255, 256, 4096, 2 ** 32, 2 ** 64, 2 ** 127]
TOPONS = [MAXON, MAXON - 1, MAXON - 2]


def tops(rng, keys, stored, sep=b"."):
    c = rng.random()
    if c < 0.12:
        return b""
    k = rng.choice(keys)
    if c < 0.55:
        return k[:rng.randint(1, len(k))]
    if c < 0.7:
        return k + sep
    if stored and c < 0.95:
        s = rng.choice(stored)
        return s[:rng.randint(1, len(s))]
    return k


class PlainGen:
    model = Plain

    def __init__(self, rng):
        n = rng.randint(3, len(PLAINKEYS))
        self.keys = rng.sample(PLAINKEYS, n)
        if rng.random() < 0.3:
            self.keys += [bytes(rng.randrange(256) for _ in range(rng.randint(1, 12))) for _ in range(4)]

    def op(self, rng, m):
        key = rng.choice(self.keys) if rng.random() > 0.03 else b""
        val = rng.choice(VALS) if rng.random() < 0.8 else rng.randbytes(rng.randint(1, 40))
        k = rng.randrange(16)
        if k < 4:
            return "putVal", dict(key=key, val=val)
        if k < 7:
            return "setVal", dict(key=key, val=val)
        if k < 9:
            return "getVal", dict(key=key)
        if k < 11:
            return "remVal", dict(key=key)
        top = tops(rng, self.keys, list(m.d)) if rng.random() < 0.9 else b"\xff" * rng.randint(1, 3)
        if k == 11:
            return "remTop", dict(top=top if rng.random() < 0.5 and top else rng.choice(self.keys))
        if k == 12:
            return "cntTop", dict(top=top)
        if k == 13:
            return "cntAll", {}
        return "getTopItemIter", dict(top=top)

    def full(self, db, sdb, sep=b"."):
        return norm(list(db.getTopItemIter(db=sdb)))

    def want(self, m):
        return m.raw()


class OnGen:
    model = On

    def __init__(self, rng):
        pool = rng.choice(BASEKEYS)
        self.keys = rng.sample(pool, rng.randint(2, len(pool)))
        self.ons = rng.sample(ONS, 4) + ([rng.choice(TOPONS)] if rng.random() < 0.35 else []) + [0, 1, 2]

    def op(self, rng, m):
        key = rng.choice(self.keys)
        on = rng.choice(self.ons) if rng.random() < 0.8 else rng.randrange(0, 12)
        val = rng.choice(VALS) if rng.random() < 0.95 else None
        k = rng.randrange(24)
        if k < 3:
            return "putOnVal", dict(key=key, on=on, val=val)
        if rng.random() < 0.04:
            key = b""
        if k < 5:
            return "pinOnVal", dict(key=key, on=on, val=val)
        if k < 11:
            return "appendOnVal", dict(key=key, val=val)
        if k < 12:
            return "getOnItem", dict(key=key, on=on)
        if k < 13:
            return "getOnVal", dict(key=key, on=on)
        if k < 15:
            return "remOn", dict(key=key, on=on)
        if k < 16:
            return "remOnAll", dict(key=key, on=on)
        if k < 17:
            return "cntOnAll", dict(key=key, on=on)
        if k < 20:
            return "getOnAllItemIter", dict(key=key, on=on)
        top = tops(rng, self.keys, [m.okey(*x) for x in m.d], m.sep)
        if k == 20:
            return "cntTop", dict(top=top)
        if k == 21 and rng.random() < 0.4:
            return "remTop", dict(top=top)
        if k == 22:
            return "cntAll", {}
        return "getOnTopItemIter", dict(top=top)

    def full(self, db, sdb, sep=b"."):
        return norm(list(db.getOnTopItemIter(db=sdb, sep=sep)))

    def want(self, m):
        return m.items()


class IoGen:
    model = Io

    def __init__(self, rng):
        pool = rng.choice(BASEKEYS)
        self.keys = rng.sample(pool, rng.randint(2, len(pool)))
        self.vals = rng.sample(VALS, rng.randint(3, len(VALS)))

    def some(self, rng):
        return [rng.choice(self.vals) for _ in range(rng.randint(0, 5))]

    def op(self, rng, m):
        key = rng.choice(self.keys) if rng.random() > 0.03 else b""
        val = rng.choice(self.vals)
        k = rng.randrange(24)
        if k < 5:
            return "addIoSetVal", dict(key=key, val=val if rng.random() < 0.95 else None)
        if k < 8:
            return "putIoSetVals", dict(key=key, vals=self.some(rng))
        if k < 10:
            return "pinIoSetVals", dict(key=key, vals=self.some(rng))
        if k < 15:
            return "remIoSetVal", dict(key=key, val=val if rng.random() < 0.9 else None)
        if k < 16:
            return "remIoSet", dict(key=key)
        ion = rng.choice([0, 0, 1, 2, 3, 7]) if key not in m.gap else 0
        if k < 18:
            return "getIoSetItemIter", dict(key=key, ion=ion)
        if k < 19:
            return "getIoSetLastItem", dict(key=key)
        if k < 20:
            return "cntIoSet", dict(key=key, ion=ion)
        if k == 20:
            return "getIoSetLastItemIterAll", dict(key=key)
        if k == 21:
            return "getIoSetLastIterAll", dict(key=key)
        top = tops(rng, self.keys, [], m.sep)
        if k == 22:
            c = rng.random()
            if c < 0.35:
                return "cntTop", dict(top=top)
            if c < 0.5:
                return "remTop", dict(top=top)
            return "cntAll", {}
        return "getTopIoSetItemIter", dict(top=top)

    def full(self, db, sdb, sep=b"."):
        return norm(list(db.getTopIoSetItemIter(db=sdb, sep=sep)))

    def want(self, m):
        return m.items()


class OnIoGen:
    model = OnIo

    def __init__(self, rng):
        pool = rng.choice(BASEKEYS)
        self.keys = rng.sample(pool, rng.randint(2, min(5, len(pool))))
        self.vals = rng.sample(VALS, rng.randint(3, 6))
        self.ons = rng.sample(ONS, 2) + ([rng.choice(TOPONS)] if rng.random() < 0.3 else []) + [0, 1, 2]

    def op(self, rng, m):
        key = rng.choice(self.keys) if rng.random() > 0.03 else b""
        on = rng.choice(self.ons)
        val = rng.choice(self.vals)
        vals = [rng.choice(self.vals) for _ in range(rng.randint(0, 4))]
        k = rng.randrange(30)
        if k < 4:
            return "addOnIoSetVal", dict(key=key, on=on, val=val if rng.random() < 0.95 else None)
        if k < 7:
            return "putOnIoSetVals", dict(key=key, on=on, vals=vals)
        if k < 9:
            return "pinOnIoSetVals", dict(key=key, on=on, vals=vals)
        if k < 13:
            return "appendOnIoSetVals", dict(key=key, vals=list(dict.fromkeys(vals)))
        if k < 16:
            return "remOnIoSetVal", dict(key=key, on=on, val=val if rng.random() < 0.85 else None)
        if k < 17:
            return "remOnAllIoSet", dict(key=key, on=on)
        ion = rng.choice([0, 0, 1, 2, 5]) if (key, on) not in m.gap else 0
        if k < 18:
            return "getOnIoSetItemIter", dict(key=key, on=on, ion=ion)
        if k < 19:
            return "getOnIoSetLastItem", dict(key=key, on=on)
        if k < 20:
            return "cntOnIoSet", dict(key=key, on=on, ion=ion)
        if k < 21:
            return "cntOnAllIoSet", dict(key=key, on=on)
        if k < 23:
            return "getOnAllIoSetItemIter", dict(key=key, on=on)
        if k < 24:
            return "getOnAllIoSetLastItemIter", dict(key=key, on=on)
        bon = on if rng.random() < 0.7 else None
        if k < 26:
            return "getOnAllIoSetItemBackIter", dict(key=key, on=bon)
        if k < 28:
            return "getOnAllIoSetLastItemBackIter", dict(key=key, on=bon)
        top = tops(rng, self.keys, [m.okey(*g) for g in m.d], m.sep)
        if k == 28:
            c = rng.random()
            if c < 0.35:
                return "cntTop", dict(top=top)
            if c < 0.5:
                return "remTop", dict(top=top)
            return "cntAll", {}
        return "getOnTopIoSetItemIter", dict(top=top)

    def full(self, db, sdb, sep=b"."):
        return norm(list(db.getOnTopIoSetItemIter(db=sdb, sep=sep)))

    def want(self, m):
        return [(*g, v) for g in m.groups() for v in m.d[g]]


GENS = dict(plain=PlainGen, on=OnGen, io=IoGen, onio=OnIoGen)
MUTATING = {"putVal", "setVal", "remVal", "remTop", "putOnVal", "pinOnVal", "appendOnVal", "remOn", "remOnAll",
            "putIoSetVals", "pinIoSetVals", "addIoSetVal", "remIoSet", "remIoSetVal", "putOnIoSetVals",
            "pinOnIoSetVals", "appendOnIoSetVals", "addOnIoSetVal", "remOnIoSetVal", "remOnAllIoSet"}


NOSEP = {"putVal", "setVal", "getVal", "remVal", "remTop", "cntTop", "cntAll", "getTopItemIter"}
SEPS = [b"."] * 6 + [b"|", b"!"]


def withsep(name, kwa, model):
    if name in NOSEP or getattr(model, "sep", b".") == b".":
        return kwa
    return dict(kwa, sep=model.sep)


def step(ctx, db, sdb, gen, model, rng, prop=None):
    """One generated operation on the database and on the model; compare."""
    name, kwa = gen.op(rng, model)
    ctx.log(name, kwa)
    want = getattr(model, name)(**kwa)
    kwa = withsep(name, kwa, model)
    if "vals" in kwa and rng.random() < 0.2:
        kwa = dict(kwa, vals=tuple(kwa["vals"]))
    got = outcome(getattr(db, name), db=sdb, **kwa)
    ctx.saw("ops")
    if isinstance(want, type):
        ctx.saw("refusals")
        if got[0] != "exc":
            raise Violation(f"{name}{kwa} should raise {want.__name__}, returned {got[1]!r}")
        if got[1] != want.__name__:
            raise Violation(f"{name}{kwa} should raise {want.__name__}, raised {got[2]!r}")
    elif got[0] == "exc":
        raise Violation(f"{name}{kwa} raised {got[2]!r}, expected {want!r}")
    else:
        r = got[1]
        if isinstance(want, list) and want[:1] == ["iter"] and r != want:
            raise Violation(f"{name}{kwa} yielded {r!r}, expected {want!r}"[:5000])
        if isinstance(want, bool):
            ok = r is want
        else:
            ok = r == want and type(r) is type(want)
        if not ok:
            raise Violation(f"{name}{kwa} returned {r!r}, expected {want!r}")
        if name in MUTATING:
            ctx.saw("changes" if (r if not isinstance(r, int) or isinstance(r, bool) else True) else "no_ops")
    return name, kwa


WIDTHS = [17, 40, 130, 257, 300, 700, 1100]


def prefill(ctx, db, sdb, gen, model, rng, kind):
    """Many entries in one store: boundaries of widths only large stores reach."""
    key, n = rng.choice(gen.keys), rng.choice(WIDTHS)
    on = rng.choice([0, 1, 2, 5]) if kind in ("on", "onio") else 0
    vals = [b"w%d" % j for j in range(n)]
    if kind == "plain":
        calls = [("putVal", dict(key=key + b"%03x" % j, val=v)) for j, v in enumerate(vals)]
    elif kind == "on":
        calls = [("putOnVal", dict(key=key, on=on, val=b"first"))]
        calls += [("appendOnVal", dict(key=key, val=v)) for v in vals]
    elif kind == "io":
        calls = [("putIoSetVals", dict(key=key, vals=vals))]
        gen.vals += rng.sample(vals, 4) + vals[-2:]
    else:
        calls = [("putOnIoSetVals", dict(key=key, on=on, vals=vals))]
        gen.vals += rng.sample(vals, 4) + vals[-2:]
        gen.ons += [on] * 6
    for name, kwa in calls:
        want = getattr(model, name)(**kwa)
        got = outcome(getattr(db, name), db=sdb, **withsep(name, kwa, model))
        same(got[1], want, "%s while filling", name)
    gen.keys += [key] * len(gen.keys)
    ctx.saw("wide_histories")
    return ("fill", repr((key, on, n)))


def nest(gen, rng, native=False):
    """Make this generator use base keys some of which continue others."""
    gen.keys = list(dict.fromkeys([b"a", rng.choice(NESTED[1:5])] + rng.sample(NESTED, rng.randint(1, 5))))
    if hasattr(gen, "ons"):
        gen.ons = [o for o in gen.ons if o <= 2 ** 127]
    op = gen.op

    def safe(rng, m):
        """Appending to a key with records of keys below it: see known-findings.txt;
        likewise native iteration back from such a key's largest ordinal."""
        while True:
            name, kwa = op(rng, m)
            if not ((name.startswith("append") or (native and "BackIter" in name and kwa["on"] is None)) and kwa["key"] and any(
                    g[0].startswith(kwa["key"] + m.sep) and m.d[g] is not None for g in m.d)):
                return name, kwa
    gen.op = safe


def nestedappend(kind):
    """Appending below and above keys that continue one another."""
    def case(ctx, rng, i):
        db = opendb(Backend(), "wallet", ["main."])
        sdb = db.env.open_db(key=b"main.", dupsort=False)
        name = "appendOnVal" if kind == "on" else "appendOnIoSetVals"
        low, high = b"pre" + b"%d" % i, b"pre" + b"%d" % i + rng.choice([b".z", b".b", b".topic"])
        nxt = {low: 0, high: 0}
        for j in range(rng.randint(3, 12)):
            key = rng.choice([low, high])
            v = dict(val=b"v%d" % j) if kind == "on" else dict(vals=[b"v%d" % j])
            got = outcome(getattr(db, name), db=sdb, key=key, **v)
            ctx.saw("nested_appends")
            if got[1] != nxt[key] or got[0] == "exc":
                if key == low and nxt[high]:
                    ctx.known("nested-append", f"{name} at {low} after {nxt[low]} appends and {nxt[high]} at {high}: {got[1:]}")
                    break
                raise Violation(f"{name} at {key} gave {got[1:]}, expected {nxt[key]}")
            nxt[key] += 1
        ctx.case((kind, i, tuple(nxt.values())))
    return case


def history(kind, nested=False):
    """Case function: one history on a fresh store of this kind."""
    def case(ctx, rng, i):
        n = rng.choice([6, 12, 25, 60, 120])
        wide = i % 100 == 99 and not nested
        if wide:
            n = 25
        gen = GENS[kind](rng)
        model = gen.model()
        if nested:
            nest(gen, rng)
            ctx.saw("nested_key_histories")
        elif kind != "plain":
            model.sep = rng.choice(SEPS)
        back = Backend()
        db = opendb(back, "wallet", ["other.", "main."])
        sdb = db.env.open_db(key=b"main.", dupsort=False)
        other = db.env.open_db(key="other.")
        db.putVal(other, b"sentinel", b"1")
        names = []
        if wide:
            names.append(prefill(ctx, db, sdb, gen, model, rng, kind))
        for _ in range(n):
            name, kwa = step(ctx, db, sdb, gen, model, rng)
            names.append((name, repr(kwa)))
            full = gen.full(db, sdb, getattr(model, 'sep', b'.'))
            want = gen.want(model)
            if full != want:
                raise Violation(f"after {name}{kwa} contents are {full!r}, expected {want!r}"[:6000])
            ctx.saw("full_content_comparisons")
            ctx.saw("op_" + name)
        same(norm(list(db.getTopItemIter(other))), [(b"sentinel", b"1")], "neighbour store changed")
        ctx.case((kind, tuple(names)), nontrivial=any(x[0] in MUTATING for x in names))
        if i < 2:
            ctx.sample(dict(kind=kind, ops=[f"{a} {b}"[:120] for a, b in names[:12]]))
    return case


def sizing(i, small=1100):
    """Size and shape number i: every small size, then around round numbers."""
    big = sorted({b + d for b in [1280, 1500, 1536, 2000, 2048, 3000, 4000, 4096, 5000, 8192, 10000] for d in (-1, 0, 1, 2)})
    return (i // 2 + 1 if i // 2 < small else big[(i // 2 - small) % len(big)]), i % 2 == 0


def battery(kind, key, n, one):
    """Every operation over n entries, one key or n keys."""
    vals = [b"w%d" % j for j in range(n)]
    if kind == "plain":
        for j in range(n):
            yield "putVal", dict(key=(key + b".%05x" % j if one else b"%05x." % j + key), val=vals[j])
        top = key + b"." if one else b""
        yield "putVal", dict(key=b"zzz", val=b"z")
        yield "cntTop", dict(top=top)
        yield "cntAll", {}
        yield "getTopItemIter", dict(top=top)
        yield "remTop", dict(top=top or b"0")
        yield "getTopItemIter", dict(top=b"")
    elif kind == "on":
        for j in range(n):
            yield "appendOnVal", dict(key=key if one else b"%05x" % j + key, val=vals[j])
        yield "appendOnVal", dict(key=b"zzz", val=b"z")
        k = key if one else b"%05x" % (n - 1) + key
        for on in (0, 1, n - 1):
            yield "cntOnAll", dict(key=k, on=on)
            yield "getOnAllItemIter", dict(key=k, on=on)
        yield "getOnTopItemIter", dict(top=b"")
        yield "cntOnAll", dict(key=b"", on=0)
        yield "getOnAllItemIter", dict(key=b"", on=0)
        yield "appendOnVal", dict(key=k, val=b"more")
        yield "remOnAll", dict(key=k, on=n // 3)
        yield "appendOnVal", dict(key=k, val=b"again")
        yield "remOnAll", dict(key=k, on=0)
        yield "getOnTopItemIter", dict(top=b"")
        yield "remOnAll", dict(key=b"", on=0)
        yield "getOnTopItemIter", dict(top=b"")
    elif kind == "io":
        if one:
            yield "putIoSetVals", dict(key=key, vals=vals)
        else:
            for j in range(n):
                yield "addIoSetVal", dict(key=b"%05x" % j + key, val=vals[j])
        k = key if one else b"%05x" % (n - 1) + key
        yield "addIoSetVal", dict(key=b"zzz", val=b"z")
        yield "cntIoSet", dict(key=k)
        yield "getIoSetItemIter", dict(key=k)
        yield "getIoSetLastItem", dict(key=k)
        yield "getIoSetLastItemIterAll", dict(key=b"")
        yield "getTopIoSetItemIter", dict(top=b"")
        for v in (vals[0], vals[-1], vals[n // 2]):
            yield "addIoSetVal", dict(key=k, val=v)
            yield "remIoSetVal", dict(key=k, val=v)
            yield "addIoSetVal", dict(key=k, val=v)
        yield "putIoSetVals", dict(key=k, vals=[vals[0], b"new", vals[-1]])
        yield "getTopIoSetItemIter", dict(top=b"")
        yield "pinIoSetVals", dict(key=k, vals=vals[:n // 2 + 1][::-1])
        yield "getTopIoSetItemIter", dict(top=b"")
        yield "remIoSet", dict(key=k)
        yield "getTopIoSetItemIter", dict(top=b"")
    else:
        if one == "set":
            yield "putOnIoSetVals", dict(key=key, on=1, vals=vals)
        else:
            for j in range(n):
                yield "appendOnIoSetVals", dict(key=key if one else b"%05x" % j + key, vals=[vals[j], b"two"])
        k = key if one else b"%05x" % (n - 1) + key
        yield "addOnIoSetVal", dict(key=b"zzz", on=0, val=b"z")
        last = 1 if one == "set" else n - 1 if one else 0
        for on in (0, last):
            yield "cntOnAllIoSet", dict(key=k, on=on)
            yield "cntOnIoSet", dict(key=k, on=on)
            yield "getOnAllIoSetItemIter", dict(key=k, on=on)
            yield "getOnAllIoSetLastItemIter", dict(key=k, on=on)
            yield "getOnAllIoSetItemBackIter", dict(key=k, on=on)
            yield "getOnAllIoSetLastItemBackIter", dict(key=k, on=on)
            yield "getOnIoSetLastItem", dict(key=k, on=on)
        for name in ("getOnAllIoSetItemIter", "getOnAllIoSetLastItemIter", "getOnAllIoSetItemBackIter", "getOnAllIoSetLastItemBackIter"):
            yield name, dict(key=b"")
        yield "addOnIoSetVal", dict(key=k, on=last, val=vals[-1])
        yield "remOnIoSetVal", dict(key=k, on=last, val=vals[-1])
        yield "addOnIoSetVal", dict(key=k, on=last, val=vals[-1])
        yield "appendOnIoSetVals", dict(key=k, vals=[b"more"])
        yield "getOnAllIoSetItemIter", dict(key=b"")
        yield "remOnAllIoSet", dict(key=k, on=last // 2)
        yield "appendOnIoSetVals", dict(key=k, vals=[b"again"])
        yield "remOnAllIoSet", dict(key=k, on=0)
        yield "getOnTopIoSetItemIter", dict(top=b"")


def sizes(kind, small=1100):
    """Case function: one size of store, each operation once."""
    def case(ctx, rng, i):
        n, one = sizing(i, small)
        if kind == "onio" and one and rng.random() < 0.4:
            one = "set"
        gen = GENS[kind](rng)
        model = gen.model()
        back = Backend()
        db = opendb(back, "wallet", ["main."])
        sdb = db.env.open_db(key=b"main.", dupsort=False)
        key = rng.choice([b"k", b"EAAA", b"x"])
        for name, kwa in battery(kind, key, n, one):
            want = getattr(model, name)(**kwa)
            got = outcome(getattr(db, name), db=sdb, **kwa)
            if got[0] == "exc" or got[1] != want:
                at = f"{name}{kwa}"[:300]
                must(got[0] != "exc", f"{at} raised {got[2] if got[0] == 'exc' else None!r} with {n} entries")
                raise Violation(f"{at} with {n} entries returned {repr(got[1])[-600:]}, expected {repr(want)[-600:]}")
        ctx.saw("sizes")
        ctx.case((kind, "size", n, str(one)))
    return case
