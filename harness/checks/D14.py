"""D14: the browser registry database against the native one, over sessions of storage."""
import os
import tempfile
import vboot
import msggen as mg
import weblib as wl
from vh import Violation, must, same

RULE = ("each case runs random typed reads and writes on every table of the browser registry database and of the native one, over sessions ended by closing (allowed or refused), asynchronous "
        "closing (with storage failing at times), clearing or loss of the page, and compares every answer, and after each reopening everything stored; non-trivial if something was written")
REQUIRE = ["ops", "sessions", "closed", "refused", "lost", "cleared", "failed_storage", "retried", "temp", "other_names", "versions", "flushed", "gone"] + [
    "table " + t for t in ("evts", "ancs", "tels", "heads", "maes", "ooes")]
ASSUME = ["the native tables are right (D10, D11)", "storage keeps what a completed sync gave it"]
TABLES = ("evts", "ancs", "tels", "heads", "maes", "ooes")


class Broken(Exception):
    pass


class Disk(wl.Backend):
    fail = 0

    async def syncing(self, handle):
        if self.fail > 0:
            self.fail -= 1
            if self.fail == 0:
                raise Broken("storage failed")
        await super().syncing(handle)


def plain(x):
    """Value as comparable text."""
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return x
    if hasattr(x, "raw") and hasattr(x, "sad"):
        return ("serder", bytes(x.raw))
    if hasattr(x, "qb64"):
        return (type(x).__name__, x.qb64)
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if hasattr(x, "__next__"):
        return [plain(y) for y in x]
    return repr(x)


def ask(base, table, op, pa, kwa):
    try:
        r = getattr(getattr(base, table), op)(*pa, **kwa)
        return plain(r)
    except Exception as e:
        return ("raised", "KeyError" if type(e).__name__ in ("KeyError", "BadValsizeError") else type(e).__name__)


def dump(base):
    out = {}
    for t in TABLES:
        s = getattr(base, t)
        out[t] = [plain(x) for x in (s.getFullItemIter() if t in ("maes", "ooes") else s.getTopItemIter())]
        if t in ("tels", "maes", "ooes"):
            out[t + " all"] = [plain(x) for x in s.getAllItemIter()]
    return out


def make(rng):
    """Random arguments: saids, ordinals, values."""
    from keri.core import Diger, Number, Saider, SerderACDC
    from keri.acdc import messaging
    issuer = mg.digest(rng)
    evs = [messaging.regcept(israid=issuer, uuid=None, stamp="2020-08-22T17:50:09.988921+00:00") if rng.random() < 0.5 else
           messaging.regcept(israid=mg.digest(rng), stamp="2021-08-22T17:50:09.%06d+00:00" % rng.randrange(10 ** 6)) for _ in range(rng.randint(1, 5))]
    saids = [e.said for e in evs] + [mg.digest(rng) for _ in range(rng.choice([0, 2]))]

    def call():
        t = rng.choice(TABLES)
        k = rng.choice(saids)
        keys = rng.choice([k, (k,), k.encode()])
        on = rng.choice([0, 1, 2, 3, 15, 16, 255, 1 << 64, (1 << 128) - 1]) if rng.random() < 0.5 else rng.randrange(4)
        if t == "evts":
            val = rng.choice(evs)
        elif t == "ancs":
            val = (Number(num=rng.randrange(1 << 20)), Diger(qb64=rng.choice(saids)))
        elif t in ("tels", "heads"):
            val = Saider(qb64=rng.choice(saids))
        else:
            val = rng.choice(saids)
        if t in ("evts", "ancs", "heads"):
            op = rng.choice(["put", "put", "pin", "get", "get", "rem", "cntAll", "getTopItemIter", "getFullItemIter", "trim", "cntTop", "cnt"])
            if op in ("put", "pin"):
                return t, op, (), dict(keys=keys, val=val)
            if op in ("get", "rem"):
                return t, op, (), dict(keys=keys)
            if op in ("cntAll", "cnt"):
                return t, op, (), {}
            if op == "trim" and rng.random() < 0.6:
                op = "cntTop"
            return t, op, (), dict(keys=rng.choice(["", k, k[:4]]))
        if t == "tels":
            op = rng.choice(["put", "put", "pin", "append", "append", "get", "getItem", "rem", "remAll", "cnt", "cntAll", "getAllItemIter", "getAllIter", "getTopItemIter"])
            if op in ("put", "pin"):
                return t, op, (), dict(keys=keys, on=on, val=val)
            if op == "append":
                return t, op, (), dict(keys=keys, val=val)
            if op == "getTopItemIter":
                return t, op, (), dict(keys=rng.choice(["", k, k[:4]]))
            if op in ("remAll", "cntAll", "getAllItemIter", "getAllIter") and rng.random() < 0.2:
                return t, op, (), dict(keys="") if op != "remAll" or rng.random() < 0.3 else dict(keys=keys)
            return t, op, (), dict(keys=keys, on=on)
        op = rng.choice(["add", "add", "add", "put", "pin", "append", "get", "getLast", "getItemIter", "rem", "remVal", "cnt", "cntAll", "getAllItemIter", "getAllIter", "getTopItemIter", "remAll",
                         "getLastItemIter", "getAllItemBackIter", "getAllLastItemIter", "getAllLastItemBackIter", "getLastIter"])
        if op == "add":
            return t, op, (), dict(keys=keys, on=on, val=val)
        if op in ("put", "pin"):
            return t, op, (), dict(keys=keys, on=on, vals=[rng.choice(saids) for _ in range(rng.randint(0, 3))])
        if op == "append":
            return t, op, (), dict(keys=keys, vals=[rng.choice(saids) for _ in range(rng.randint(1, 3))])
        if op == "remVal":
            return t, "rem", (), dict(keys=keys, on=on, val=val)
        if op == "getTopItemIter":
            return t, op, (), dict(keys=rng.choice(["", k, k[:4]]))
        return t, op, (), dict(keys=keys, on=on)
    return call


def case(ctx, rng, i):
    wl.load()
    from keri.acdc.regbasing import RegBaser
    from keri.acdc.webregbasing import WebRegBaser
    disk = Disk()
    call = make(rng)
    with tempfile.TemporaryDirectory() as top:
        made = [0]

        def native(ops):
            made[0] += 1
            b = RegBaser(name=f"n{made[0]}", headDirPath=top, reopen=True)
            for c in ops:
                ask(b, *c)
            return b
        kept, ops, ver, keptver = [], [], None, None       # what storage should hold, what the open page has done
        nat = native([])
        temp = rng.random() < 0.1
        ctx.saw("temp", temp)
        other = None
        wrote = False
        for session in range(rng.randint(2, 5)):
            web = WebRegBaser(name="r", temp=temp)
            clear = rng.random() < 0.1
            wl.drive(web.reopen(clear=clear, storageOpener=disk.open))
            if clear or temp:
                kept, keptver = [], None
                ctx.saw("cleared")
            nat.close(clear=True)
            nat = native(kept)
            ops, ver = list(kept), keptver
            ctx.saw("sessions")
            same(dump(web), dump(nat), "what session %d finds", session)
            same(web.getVer(), ver, "version session %d finds", session)
            if other is None and rng.random() < 0.4:        # a database of another name in the same storage
                other = WebRegBaser(name=rng.choice(["r2", "R", "r:evts.", ""]))
                wl.drive(other.reopen(storageOpener=disk.open))
                must(not any(dump(other).values()), "a database of another name is not empty")
                oc = [c for c in (call() for _ in range(6)) if c[1] in ("put", "add", "pin")]
                for c in oc:
                    ask(other, *c)
                odump = dump(other)
                wl.drive(other.aclose())
                ctx.saw("other_names")
            for _ in range(rng.choice([0, 3, 15, 40])):
                c = call()
                a, b = ask(web, *c), ask(nat, *c)
                same(a, b, "%s.%s%r in the browser and natively", c[0], c[1], tuple(sorted(c[3].items(), key=lambda x: x[0])))
                ops.append(c)
                ctx.saw("ops")
                ctx.saw("table " + c[0])
                wrote |= c[1] in ("put", "add", "pin", "append")
                ctx.log(c[0], c[1], {k: plain(x) for k, x in c[3].items()})
                if rng.random() < 0.03:
                    ver = rng.choice(["1.0.0", "2.0.0-dev6", "0.1"])
                    web.version = ver
                    ctx.saw("versions")
                if rng.random() < 0.04:
                    wl.drive(web.db.flush())
                    kept, keptver = list(ops), ver
                    ctx.saw("flushed")
            same(dump(web), dump(nat), "what session %d leaves", session)
            end = rng.choice(["close", "aclose", "aclose", "lost", "clear", "flush"])
            ctx.log("end", end)
            if end == "flush":
                wl.drive(web.db.flush())
                kept, keptver = list(ops), ver
                end = "close"
            if end == "close":
                before = {n: dict(s) for n, s in disk.durable.items()}
                try:
                    web.close(clear=rng.random() < 0.1)
                except RuntimeError:
                    must(web.opened and web.db is not None, "a refused closing leaves the database open")
                    same(dump(web), dump(nat), "after a refused closing")
                    ctx.saw("refused")
                    end = "aclose"
                else:
                    must(not temp, "temporary database closed without clearing its storage")
                    same({n: dict(s) for n, s in disk.durable.items()}, before, "storage over a closing")
                    probe = WebRegBaser(name="r")
                    wl.drive(probe.reopen(storageOpener=disk.open))
                    same(dump(probe), dump(nat), "stored after a closing which was not refused")
                    same(probe.getVer(), ver, "version stored after a closing which was not refused")
                    kept, keptver = list(ops), ver
                    ctx.saw("closed")
            if end in ("aclose", "clear"):
                clear = end == "clear"
                if rng.random() < 0.3:
                    disk.fail = rng.randint(1, 7)
                    try:
                        wl.drive(web.aclose(clear=clear))
                        failed = False
                    except Broken:
                        failed = True
                    disk.fail = 0
                    ctx.saw("failed_storage", failed)
                    if failed:
                        must(web.opened and web.db is not None, "a failed closing leaves the database open")
                        if not (clear or temp):
                            same(dump(web), dump(nat), "after a failed closing")
                        wl.drive(web.aclose(clear=clear))
                        ctx.saw("retried")
                else:
                    wl.drive(web.aclose(clear=clear))
                kept, keptver = ([], None) if clear or temp else (list(ops), ver)
                ctx.saw("cleared", clear)
            if end == "lost":
                ctx.saw("lost")
                temp = False if temp else temp
            else:
                must(not web.opened and web.db is None and web.env is None, "closed database still open")
                must(not any(hasattr(web, t) for t in TABLES), "closed database still has tables")
                ctx.saw("gone")
                if rng.random() < 0.3:
                    wl.drive(web.aclose())
                    web.close()
        if other is not None:
            wl.drive(other.reopen(storageOpener=disk.open))
            same(dump(other), odump, "a database of another name after all that")
        web = WebRegBaser(name="r")
        wl.drive(web.reopen(storageOpener=disk.open))
        nat.close(clear=True)
        nat = native(kept)
        same(dump(web), dump(nat), "what is stored at the end")
        same(web.getVer(), keptver, "version stored at the end")
        nat.close(clear=True)
    ctx.case(tuple((c[0], c[1], repr(plain(list(c[3].values())))) for c in ops[-30:]), wrote)


CASES = [("sessions", case, 500, 8000)]
