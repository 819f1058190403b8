"""D11: see catalog.py."""
import dataclasses
import datetime
import json
import typing

import nativelib  # noqa: F401
import vboot
import kellib as kl
import msggen as mg
from vh import must

RULE = ("every sub-database the library itself declares in its stores (key event, keeper, mailbox, registry, registry log, notice) filled through its own write methods "
        "with random values of its declared type, and ad hoc ones over many primitive classes, record classes and encodings; read back through every read method, "
        "before and after closing and reopening the store; also with values of other types; non-trivial: read back after reopening")
ASSUME = ["the lmdb, msgpack and cbor2 bindings behave as their stand-ins"]
REQUIRE = ["Baser", "Keeper", "Mailboxer", "Reger", "RegBaser", "Noter", "adhoc", "reopened", "written", "read", "Komer", "IoSetKomer", "DupKomer", "SerderSuber",
           "SchemerSuber", "SignerSuber", "CryptSignerSuber", "DicterSuber", "encrypted", "plainsecret", "wrongtype", "nested", "mgpk", "cbor", "json", "B64OnIoSetSuber", "CesrIoSetSuber",
           "CatCesrIoSetSuber", "OnIoDupSuber", "CesrOnSuber", "twice"]


# ------------------------------------------------------------------ values
def primitive(rng, name):
    """Random instance of the primitive class of that name."""
    from keri.core import coring, indexing, signing
    M = coring.MtrDex
    k = kl.Key(rng)
    n = kl.Key(rng, False)
    if name == "Matter":
        return coring.Matter(qb64=rng.choice([mg.digest(rng), k.qb64, n.qb64, coring.Number(num=rng.randrange(1 << 30)).qb64]))
    if name in ("Diger", "Saider"):
        return getattr(coring, name)(qb64=mg.digest(rng))
    if name == "Prefixer":
        return coring.Prefixer(qb64=rng.choice([mg.digest(rng), k.qb64, n.qb64]))
    if name == "Verfer":
        return coring.Verfer(qb64=rng.choice([k.qb64, n.qb64]))
    if name == "Cigar":
        return coring.Cigar(qb64=kl.csig(k.sign(b"x")))
    if name == "Siger":
        return indexing.Siger(qb64=rng.choice([kl.isig("A", rng.randrange(64), None, k.sign(b"y")), kl.isig("B", rng.randrange(64), None, k.sign(b"y")),
                                               kl.isig("2A", rng.randrange(64, 4000), rng.randrange(4000), k.sign(b"y")), kl.isig("2B", rng.randrange(4000), None, k.sign(b"y"))]))
    if name == "Number":
        return coring.Number(num=rng.choice([0, 1, 255, 256, 65535, 65536, 2 ** 32, 2 ** 64 - 1, 2 ** 64, 2 ** 100]))
    if name == "Seqner":
        return coring.Seqner(sn=rng.choice([0, 1, 2 ** 64, 2 ** 128 - 1]))
    if name == "Dater":
        tz = datetime.timezone(datetime.timedelta(minutes=rng.choice([0, 0, 330, -480])))
        t = datetime.datetime.fromtimestamp(rng.randrange(1 << 31), tz) + datetime.timedelta(microseconds=rng.randrange(10 ** 6))
        return coring.Dater(dts=t.isoformat(timespec="microseconds"))
    if name == "Texter":
        return coring.Texter(text=rng.choice(["a", "hello", "é" * rng.randrange(1, 60), "x" * rng.randrange(1, 9000), '{"a": 1}']))
    if name == "Noncer":
        return rng.choice([lambda: coring.Noncer(qb64=mg.salt(rng)), lambda: coring.Noncer(qb64=mg.digest(rng)), lambda: coring.Noncer(nonce="")])()
    if name == "Verser":
        return coring.Verser(qb64=rng.choice(["YKERIBAA", "YACDCBAA", "YKERICAA"]))
    if name == "Labeler":
        return coring.Labeler(label=rng.choice(["a", "ab", "issued", "_long_label_" + "z" * rng.randrange(40)]))
    if name == "Signer":
        return signing.Signer(raw=rng.randbytes(32), transferable=rng.random() < 0.5)
    if name == "Cipher":
        v = kl.Key(rng, False)
        enc = signing.Encrypter(verkey=v.qb64)
        return enc.encrypt(prim=rng.choice([signing.Signer(raw=rng.randbytes(32)), signing.Salter(raw=rng.randbytes(16))]))
    raise NotImplementedError(name)


def shown(o):
    """Comparable form of what a read gave."""
    if isinstance(o, (tuple, list)):
        return tuple(shown(i) for i in o)
    if isinstance(o, dict):
        return ("dict", tuple((k, shown(v)) for k, v in o.items()))
    if dataclasses.is_dataclass(o):
        return (type(o).__name__, tuple((f.name, shown(getattr(o, f.name))) for f in dataclasses.fields(o)))
    name = type(o).__name__
    if name.startswith("Serder") or name in ("Schemer", "Notice", "Dicter"):
        return (name, o.raw, json.dumps(o.sed if name == "Schemer" else getattr(o, "sad", None) or getattr(o, "pad", None), default=str))
    if hasattr(o, "qb64"):
        extra = dict(Number=("num",), Seqner=("sn",), Dater=("dts",), Texter=("text",), Siger=("index", "ondex"), Noncer=("nonce",), Labeler=("label",)).get(name, ())
        return (name, o.qb64, o.raw, o.code, *(getattr(o, x) for x in extra), *((o.verfer.qb64,) if name == "Signer" else ()))
    return (type(o).__name__, o)


def text(rng):
    return rng.choice(["", "a", "name with space", "é\u4e2d", "line\nbreak", 'q"uote\\', mg.digest(rng), "x" * rng.randrange(300)])


def jsonish(rng, depth=2):
    c = rng.randrange(9 if depth else 6)
    if c < 6:
        return [rng.randrange(-5, 10 ** 6), text(rng), True, None, 1.5, 2 ** 40][c]
    if c < 8:
        return {f"k{i}": jsonish(rng, depth - 1) for i in range(rng.randrange(3))}
    return [jsonish(rng, depth - 1) for _ in range(rng.randrange(3))]


def record(ctx, rng, klas):
    """Random instance of a record class, by its field annotations."""
    args = {}
    short = klas.__name__ == "PrePrm"      # also kept as lexical duplicates, limited in size
    for f in dataclasses.fields(klas):
        t = f.type
        if short and t is str:
            args[f.name] = rng.choice(["", "a", "salty", mg.digest(rng)])
            continue
        if rng.random() < 0.2 and not (f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING):
            continue                       # its default
        args[f.name] = fill(ctx, rng, t)
    if klas.__name__ == "HabitatRecord":    # records of identifiers with no events are dropped as stores open, but for groups
        args.update(hid=mg.digest(rng), mid=mg.digest(rng))
    return klas(**args)


def fill(ctx, rng, t):
    if dataclasses.is_dataclass(t):
        ctx.saw("nested")
        return record(ctx, rng, t)
    o = typing.get_origin(t)
    if o is list:
        return [fill(ctx, rng, typing.get_args(t)[0]) for _ in range(rng.randrange(4))]
    if o is not None:                      # optional
        return rng.choice([None, fill(ctx, rng, rng.choice([a for a in typing.get_args(t) if a is not type(None)]))])
    if t is str:
        return text(rng)
    if t is bool:
        return rng.choice([True, False])
    if t is int:
        return rng.choice([0, 1, rng.randrange(2 ** 40)])
    if t is float:
        return 1.5
    if t is list:
        return [rng.choice([text(rng), rng.randrange(5)]) for _ in range(rng.randrange(4))]
    if t is dict:
        return {text(rng): jsonish(rng) for _ in range(rng.randrange(4))}
    raise NotImplementedError(t)


def event(rng):
    c = kl.Ctl(rng, nkeys=1, wits=[], nwits=0) if False else kl.Ctl(rng, wits=[])
    for _ in range(rng.randrange(2)):
        rng.choice([lambda: c.rot(rotwits=0), c.ixn])()
    return rng.choice(c.branch).raw


_acdc = {}


def credential(rng):
    from keri.core import coring
    from keri.kering import Kinds
    from keri.core.serdering import SerderACDC
    n = rng.randrange(6)
    if n not in _acdc:
        a = dict(d="", i=mg.prefix(rng), dt=mg.stamp(rng), n=n)
        _, a = coring.Saider.saidify(sad=a)
        _acdc[n] = SerderACDC(makify=True, sad=dict(v="ACDC10JSON000000_", d="", i=mg.prefix(rng), ri=mg.digest(rng), s=mg.digest(rng), a=a),
                              kind=rng.choice([Kinds.json, Kinds.cbor, Kinds.mgpk])).raw
    return SerderACDC(raw=_acdc[n])


def schema(rng):
    from keri.core.scheming import JSONSchema, Schemer
    sed = {"$id": "", "$schema": "http://json-schema.org/draft-07/schema#", "type": "object", "title": text(rng),
           "properties": {f"p{i}": {"type": rng.choice(["string", "integer"])} for i in range(rng.randrange(4))}}
    return Schemer(sed=sed, typ=JSONSchema())


# ------------------------------------------------------------------ sub-databases
def maker(ctx, rng, sub):
    """Function making a value for the sub-database, by its declared type."""
    from keri.core import serdering
    kind = type(sub).__name__
    if hasattr(sub, "kind") and dataclasses.is_dataclass(getattr(sub, "klas", None)):
        return lambda: record(ctx, rng, sub.klas)
    if kind == "SchemerSuber":
        return lambda: schema(rng)
    if kind in ("SerderSuber", "SerderIoSetSuber"):
        if issubclass(sub.klas, serdering.SerderACDC):
            return lambda: credential(rng)
        return lambda: serdering.SerderKERI(raw=event(rng))
    if kind == "DicterSuber":
        from keri.app.notifying import Dicter, Notice, notice
        return lambda: notice(attrs={f"a{i}": jsonish(rng) for i in range(3)}, dt=mg.stamp(rng), read=rng.random() < 0.3)
    if kind in ("SignerSuber", "CryptSignerSuber"):
        return lambda: primitive(rng, "Signer")
    if kind.startswith("CatCesr"):
        return lambda: tuple(primitive(rng, k.__name__) for k in sub.klas)
    if kind.startswith("Cesr"):
        return lambda: primitive(rng, sub.klas.__name__)
    if kind.startswith("B64"):
        return lambda: tuple(mg.digest(rng) for _ in range(rng.randint(1, 3)))
    return lambda: rng.choice([mg.digest(rng), text(rng) or "v"])


def many(sub):
    return hasattr(sub, "add")


def ordinal(sub):
    return type(sub).__name__.replace("B64", "").replace("Cesr", "").startswith("On")


def write(rng, sub, key, on, vals, kwa):
    """Write the values of one key in some way; kwa: encrypter."""
    a = (key, on) if ordinal(sub) else (key,)
    if many(sub):
        c = rng.randrange(3)
        if c == 0:
            sub.put(*a, vals)
        elif c == 1:
            sub.pin(*a, vals)
        else:
            for v in vals:
                sub.add(*a, v)
    else:
        getattr(sub, rng.choice(["put", "pin"]))(*a, vals[0], **kwa)


def exercise(ctx, rng, subs, reopen):
    """Fill sub-databases given as {name: getter}, then read before and after reopening."""
    from keri.core import signing
    kept = {}
    seed = kl.Key(rng, False)
    crypt = dict(encrypter=signing.Encrypter(verkey=seed.qb64))
    plain = dict(decrypter=signing.Decrypter(seed=signing.Signer(raw=seed.seed, transferable=False).qb64b)) if hasattr(seed, "seed") else None
    names = list(subs())
    for name in rng.sample(names, min(len(names), 12)):
        sub = subs()[name]
        kind = type(sub).__name__
        ctx.saw(kind)
        make = maker(ctx, rng, sub)
        secret = "CryptSigner" in kind and rng.random() < 0.6
        if "CryptSigner" in kind:
            ctx.saw("encrypted" if secret else "plainsecret")
        for j in range(rng.randint(1, 4)):
            key = (mg.digest(rng),) if rng.random() < 0.5 else (mg.digest(rng), f"p{j}")
            if name in ("evts",) or kind == "SchemerSuber" or kind.startswith("On") or "On" in kind:
                key = (mg.digest(rng),)
            on = rng.choice([0, 1, 7, 2 ** 40]) if ordinal(sub) else None
            vals = [make() for _ in range(rng.randint(1, 3) if many(sub) else 1)]
            uniq = {shown(v if not isinstance(v, list) else tuple(v)): v for v in vals}
            vals = list(uniq.values())
            if "Signer" in kind:
                key = (*key, vals[0].verfer.qb64)
            if key in [k[1] for k in kept if k[0] == name]:
                continue
            ctx.log(name, kind, key, on, [shown(v) for v in vals])
            write(rng, sub, key, on, vals, crypt if secret else {})
            if not many(sub) and rng.random() < 0.3:      # replaced
                ctx.saw("twice")
                new = make()
                if "Signer" in kind:
                    new = signing.Signer(raw=vals[0].raw, transferable=vals[0].verfer.transferable)
                a = (key, on) if ordinal(sub) else (key,)
                sub.pin(*a, new, **(crypt if secret else {}))
                vals = [new]
            ctx.saw("written")
            kept[(name, key, on)] = ([shown(v) for v in vals], secret)
    for again in range(2):
        if again:
            reopen()
            ctx.saw("reopened")
        for (name, key, on), (want, secret) in kept.items():
            check(ctx, rng, subs()[name], name, key, on, want, plain if secret else {})
    return kept


def check(ctx, rng, sub, name, key, on, want, kwa):
    kind = type(sub).__name__
    where = f"{name} ({kind}) at {key}" + (f".{on}" if on is not None else "")
    ctx.saw("read")
    if "Dup" in kind and "Io" not in kind:
        want = sorted(want, key=str)
        order = lambda x: sorted(x, key=str)
    else:
        order = list
    sep = sub.sep
    a = (key, on) if ordinal(sub) else (key,)

    def eq(how, got):
        if got != want:
            must(False, "%s: %s gave %s, stored %s", where, how, str(got)[:600], str(want)[:600])

    if many(sub):
        eq("get", order(shown(v) for v in sub.get(*a)))
        if hasattr(sub, "getIter"):
            eq("getIter", order(shown(v) for v in sub.getIter(*a)))
        if hasattr(sub, "getItem") and "IoSet" in kind:
            eq("getItem", order(shown(i[-1]) for i in sub.getItem(*a)))
        if hasattr(sub, "getLast"):
            got = shown(sub.getLast(*a))
            must(got == want[-1] or order is not list and got in want, "%s: getLast gave %s, stored %s", where, got, want)
    else:
        eq("get", [shown(sub.get(*a, **kwa))])
        if hasattr(sub, "getDict"):
            d = sub.getDict(key)
            must(d == dataclasses.asdict(sub.get(key)), "%s: getDict gave %s", where, d)
    raw = sep.join(key)
    rows = [i for i in sub.getTopItemIter(key, **kwa) if sep.join(i[0]) == raw and (on is None or i[1] == on)]
    eq("getTopItemIter", order(shown(i[-1]) for i in rows))
    if on is not None and hasattr(sub, "getAllItemIter"):
        eq("getAllItemIter", order(shown(i[-1]) for i in sub.getAllItemIter(key, on) if i[1] == on))
    if "Io" not in kind and on is None and hasattr(sub, "getFullItemIter"):
        rows = [i for i in sub.getFullItemIter(key, **kwa) if sep.join(i[0]) == raw]
        eq("getFullItemIter", order(shown(i[-1]) for i in rows))


def declared(db):
    from keri.db import koming, subing
    return {n: s for n, s in sorted(vars(db).items()) if isinstance(s, (subing.SuberBase, koming.KomerBase))}


def stores():
    from keri.acdc.regbasing import RegBaser
    from keri.app.keeping import Keeper
    from keri.app.notifying import Noter
    from keri.app.storing import Mailboxer
    from keri.db.basing import Baser
    from keri.vdr.eventing import Reger
    return [Baser, Keeper, Mailboxer, Reger, RegBaser, Noter]


def own(ctx, rng, i):
    klas = stores()[i % 6] if i % 12 else stores()[0]
    ctx.saw(klas.__name__)
    db = klas(name=f"d11.{i}", temp=True, reopen=True)
    cell = [db]
    subs = lambda: declared(cell[0])

    def reopen():
        db.close(clear=False)
        db.reopen(reuse=True)
    try:
        kept = exercise(ctx, rng, subs, reopen)
    finally:
        db.close(clear=True)
    ctx.case((klas.__name__, tuple(sorted({k[0] for k in kept}))), True)


CLASSES = ["Matter", "Diger", "Saider", "Prefixer", "Verfer", "Cigar", "Siger", "Number", "Seqner", "Dater", "Texter", "Noncer", "Verser", "Labeler", "Cipher"]


def adhoc(ctx, rng, i):
    """Every typed class over every primitive and record class and encoding."""
    from keri import recording
    from keri.app import keeping
    from keri.core import coring, indexing, signing
    from keri.db import koming, subing
    from keri.db.dbing import LMDBer
    from keri.vdr import vdring
    db = LMDBer(name=f"d11a.{i}", temp=True, reopen=True)
    recs = [r for m in (recording, keeping, vdring) for r in vars(m).values() if dataclasses.is_dataclass(r)
            and dataclasses.fields(r) and r.__module__ == m.__name__ and r.__name__ not in ("Algos",)]
    find = lambda n: getattr(coring, n, None) or getattr(indexing, n, None) or getattr(signing, n)
    spec = {}
    for j in range(8):
        c = rng.randrange(10)
        n = f"s{j}."
        if c < 3:
            k = rng.choice(["Komer", "IoSetKomer", "DupKomer"])
            r = rng.choice(recs)
            if k == "DupKomer":             # such values are limited to 511 bytes
                r = keeping.PrePrm
            kind = rng.choice(["JSON", "MGPK", "CBOR"])
            ctx.saw(dict(JSON="json", MGPK="mgpk", CBOR="cbor")[kind])
            spec[n] = (koming, k, dict(klas=r, kind=kind, **(dict(sep=rng.choice("/|")) if rng.random() < 0.3 else {})))
        elif c < 6:
            k = rng.choice(["CesrSuber", "CesrOnSuber", "CesrIoSetSuber", "CesrDupSuber"])
            names = CLASSES if k != "CesrDupSuber" else [x for x in CLASSES if x != "Texter"]
            spec[n] = (subing, k, dict(klas=find(rng.choice(names)), strict=rng.random() < 0.5))
        elif c < 8:
            k = rng.choice(["CatCesrSuber", "CatCesrIoSetSuber", "CatCesrDupSuber"])
            names = CLASSES if k != "CatCesrDupSuber" else ["Diger", "Number", "Prefixer", "Siger"]
            spec[n] = (subing, k, dict(klas=tuple(find(rng.choice(names)) for _ in range(rng.randint(1, 4))), strict=rng.random() < 0.5))
        else:
            k = rng.choice(["SerderSuber", "SerderIoSetSuber", "SchemerSuber", "SignerSuber", "CryptSignerSuber"])
            spec[n] = (subing, k, {})
    cell = {}

    def build():
        for n, (m, k, kwa) in spec.items():
            cell[n] = getattr(m, k)(db=db, subkey=n, **kwa)

    def reopen():
        db.close(clear=False)
        db.reopen(reuse=True)
        build()
    try:
        build()
        ctx.saw("adhoc")
        exercise(ctx, rng, lambda: cell, reopen)
        for n, (m, k, kwa) in spec.items():
            sub = cell[n]
            bad = None
            if k.endswith("Komer"):
                bad = rng.choice([dict(a=1), "text", record(ctx, rng, rng.choice([r for r in recs if r is not kwa["klas"] and not issubclass(r, kwa["klas"])]))])
            elif kwa.get("strict") and not k.startswith("Cat"):
                other = [x for x in CLASSES if not issubclass(find(x), kwa["klas"])]
                bad = primitive(rng, rng.choice(other)) if other else None
            elif kwa.get("strict"):
                other = [x for x in CLASSES if not issubclass(find(x), kwa["klas"][0])]
                rest = [primitive(rng, x.__name__) for x in kwa["klas"]]
                bad = rng.choice(([(primitive(rng, rng.choice(other)), *rest[1:])] if other else []) + [tuple(rest[:-1]), (*rest, primitive(rng, "Diger"))])
            if bad is None:
                continue
            ctx.saw("wrongtype")
            key = (mg.digest(rng),)
            try:
                if many(sub):
                    sub.add(key, bad)
                elif ordinal(sub):
                    sub.put(key, 0, bad)
                else:
                    sub.put(key, bad)
                must(False, "%s of %s accepted %r", k, kwa, bad)
            except (TypeError, ValueError):
                pass
            must(not list(sub.getTopItemIter(key)), "%s of %s kept a refused value", k, kwa)
    finally:
        db.close(clear=True)
    ctx.case(tuple((k, str(kwa)) for _, k, kwa in spec.values()), True)


CASES = [("own", own, 120, 3000), ("adhoc", adhoc, 150, 4000)]
