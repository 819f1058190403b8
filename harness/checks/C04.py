"""C04: see catalog.py."""
import copy
import hashlib
import json
import vboot
import nativelib
import blake3
import cbor2
import msgpack
import cesrlib as cl
from vh import Violation, must, same

RULE = ("seeded nested structures (unicode, numbers, nulls, lists, empty containers) with and without version string, for "
        "every digest algorithm, serialization kind and identifier field, each with single alterations of every kind; "
        "identifier compared with an independent computation; non-trivial: every case")
ASSUME = ["cbor and msgpack encoders are stand-ins for the missing libraries",
          "alterations that leave the serialization unchanged (such as none) are not alterations"]
REQUIRE = ["identifiers", "verified", "alterations_refused", "versioned", "ignored_fields", "order_changes_refused",
           "identifier_alterations_refused"]
DIGS = {"E": lambda m: blake3.blake3(m).digest(), "F": lambda m: hashlib.blake2b(m, digest_size=32).digest(),
        "G": lambda m: hashlib.blake2s(m).digest(), "H": lambda m: hashlib.sha3_256(m).digest(),
        "I": lambda m: hashlib.sha256(m).digest(), "0D": lambda m: blake3.blake3(m).digest(length=64),
        "0E": lambda m: hashlib.blake2b(m).digest(), "0F": lambda m: hashlib.sha3_512(m).digest(),
        "0G": lambda m: hashlib.sha512(m).digest()}
SER = {"JSON": lambda d: json.dumps(d, separators=(",", ":"), ensure_ascii=False).encode(),
       "CBOR": cbor2.dumps, "MGPK": msgpack.dumps}
WORDS = ["", "a", "name", "é€", "日本", "😀", "line\nbreak", 'quote"', "back\\slash", "\t", "/", "0", "A" * 44, "true", "\u2028"]
LABELS = ["d", "i", "$id", "id", "dd"]


def value(rng, depth=0):
    c = rng.random()
    if depth < 3 and c < 0.2:
        return {rng.choice(WORDS) + str(k): value(rng, depth + 1) for k in range(rng.randint(0, 4))}
    if depth < 3 and c < 0.35:
        return [value(rng, depth + 1) for _ in range(rng.randint(0, 4))]
    return rng.choice([rng.choice(WORDS), rng.choice(WORDS), rng.randrange(-5, 2 ** 40), 0, 1, True, False, None, 1.5, -0.25,
                       rng.choice(WORDS) * 3])


def structure(rng, label, version):
    d = {}
    if version:
        d["v"] = version
    fields = [(f"{rng.choice(WORDS)}{k}", value(rng)) for k in range(rng.randint(1, 6))]
    fields.insert(rng.randint(0, len(fields)), (label, rng.choice(["", "", "E" + "x" * 43])))
    d.update(fields)
    return d


def expect(sad, label, code, kind, ignore):
    """Independent identifier and completed structure."""
    fs = {"E": 44, "F": 44, "G": 44, "H": 44, "I": 44}.get(code, 88)
    d = dict(sad)
    d[label] = "#" * fs
    if "v" in d:
        kind = kind or d["v"][6:10]
        for _ in range(2):
            d["v"] = d["v"][:6] + kind + f"{len(SER[kind](d)):06x}_"
    kind = kind or "JSON"
    raw = DIGS[code](SER[kind]({k: v for k, v in d.items() if k not in (ignore or ())}))
    out = dict(d)
    out[label] = cl.matter(code, "", raw)[0].decode()
    return out, kind


def spots(x, path=()):
    """Paths of every leaf and container below x."""
    if isinstance(x, dict):
        for k in x:
            yield path + (k,)
            yield from spots(x[k], path + (k,))
    elif isinstance(x, list):
        for k in range(len(x)):
            yield path + (k,)
            yield from spots(x[k], path + (k,))


def at(x, path):
    for k in path:
        x = x[k]
    return x


def changed(rng, v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, str):
        return rng.choice([v + "x", v + " ", (v[:-1] if v else "y"), v.swapcase() if v.swapcase() != v else v + "z"])
    if isinstance(v, (int, float)):
        return rng.choice([v + 1, -v - 1, str(v)])
    if v is None:
        return rng.choice([False, "", 0, "null"])
    if isinstance(v, list):
        return rng.choice([v + [None], v[:-1] if v else [0], {"0": v}])
    return rng.choice([{**v, "extra": 1}, [v], dict(list(v.items())[:-1]) if v else {"k": None}])


def alterations(rng, sad, label):
    """(what, altered copy) of single alterations anywhere."""
    places = [p for p in spots(sad) if p != (label,) and p != ("v",)]
    for p in rng.sample(places, min(4, len(places))):
        d = copy.deepcopy(sad)
        at(d, p[:-1])[p[-1]] = changed(rng, at(d, p))
        yield "value", d
    maps = [()] + [p for p in places if isinstance(at(sad, p), dict) and len(at(sad, p)) > 1]
    p = rng.choice(maps)
    d = copy.deepcopy(sad)
    m = at(d, p)
    items = list(m.items())
    a = rng.randrange(len(items) - 1)
    items[a], items[a + 1] = items[a + 1], items[a]
    m.clear()
    m.update(items)
    yield "order", d
    for p in rng.sample(maps, min(2, len(maps))):
        d = copy.deepcopy(sad)
        m = at(d, p)
        k = rng.choice([k for k in m if not p and k not in (label, "v") or p])
        items = [((x + "_" if x == k else x), y) for x, y in m.items()]
        m.clear()
        m.update(items)
        yield "name", d
        d = copy.deepcopy(sad)
        at(d, p)["added"] = rng.choice([1, "", None])
        yield "added", d
        d = copy.deepcopy(sad)
        m = at(d, p)
        del m[rng.choice([k for k in m if not p and k not in (label, "v") or p])]
        yield "removed", d


def flips(rng, said):
    for p in rng.sample(range(len(said)), 4):
        yield said[:p] + rng.choice([c for c in cl.B64 if c != said[p]]) + said[p + 1:]
    yield "E" + said[1:] if said[0] != "E" else "F" + said[1:]


def says(fn, *pa, **kwa):
    try:
        return fn(*pa, **kwa)
    except Exception:
        return False


def saids(ctx, rng, i):
    from keri.core.coring import Saider
    code = list(DIGS)[i % len(DIGS)]
    label = rng.choice(LABELS)
    vkind = rng.choice([None, None, "JSON", "CBOR", "MGPK"])
    version = f"{rng.choice(['KERI', 'ACDC'])}10{vkind}000000_" if vkind else None
    kind = None if version and rng.random() < 0.7 else rng.choice([None, "JSON", "CBOR", "MGPK"])
    sad = structure(rng, label, version)
    ignore = None
    if rng.random() < 0.3:
        ignore = [rng.choice([k for k in sad if k not in ("v", label)])]
        ctx.saw("ignored_fields")
    want, knd = expect(sad, label, code, kind, ignore)
    said = want[label]
    before = copy.deepcopy(sad)
    saider, got = Saider.saidify(sad=sad, code=code, kind=kind, label=label, ignore=ignore)
    same(saider.qb64, said, "identifier")
    same(list(got.items()), list(want.items()), "completed structure")
    same(sad, before, "structure given")
    must(SER[knd](got) == SER[knd](want), "completed structure")
    if version:
        ctx.saw("versioned")
    ctx.saw("identifiers")
    # the same content however supplied
    for given in (dict(sad), dict(got), dict(sad, **{label: "#" * len(said)})):
        s2, g2 = Saider.saidify(sad=given, code=code, kind=kind, label=label, ignore=ignore)
        same((s2.qb64, g2), (said, got), "identifier of the same content")
    s3 = Saider(sad=dict(sad, **{label: ""}), code=code, kind=kind, label=label, ignore=ignore)
    same(s3.qb64, said, "identifier of the same content by construction")
    s4 = Saider(sad=got, kind=kind, label=label, ignore=ignore)
    same(s4.qb64, said, "identifier of completed structure by construction")
    kwa = dict(kind=kind, label=label, ignore=ignore)
    for x in (saider, Saider(qb64=said), Saider(qb2=saider.qb2)):
        must(x.verify(got, **kwa) is True, "own structure refused")
        must(x.verify(got, prefixed=True, **kwa) is True, "own structure with identifier in place refused")
        ctx.saw("verified")
    base = SER[knd]({k: v for k, v in got.items() if k not in (ignore or ())})
    for what, d in alterations(rng, got, label):
        if SER[knd]({k: v for k, v in d.items() if k not in (ignore or ())}) == base:
            continue  # only ignored fields differ
        must(says(saider.verify, d, prefixed=True, **kwa) is False, "altered (%s) structure accepted: %s from %s", what, d, got)
        ctx.saw("order_changes_refused" if what == "order" else "alterations_refused")
    for bad in flips(rng, said):
        must(says(lambda: Saider(qb64=bad).verify(got, **kwa)) is False, "altered identifier %s for %s accepted", bad, said)
        must(says(saider.verify, dict(got, **{label: bad}), prefixed=True, **kwa) is False, "altered identifier in place accepted")
        ctx.saw("identifier_alterations_refused")
    must(says(saider.verify, dict(got, **{label: ""}), prefixed=True, **kwa) is False, "missing identifier in place accepted")
    if version:
        v = got["v"]
        for bad in (v[:4] + "11" + v[6:], v[:10] + f"{int(v[10:16], 16) + 1:06x}_",
                    ("ACDC" if v[:4] == "KERI" else "KERI") + v[4:], v[:16] + "+", v[:6] + ("CBOR" if knd != "CBOR" else "JSON") + v[10:], ""):
            must(says(saider.verify, dict(got, v=bad), **kwa) is False, "altered version %s accepted", bad)
            ctx.saw("alterations_refused")
    ctx.case((code, label, kind, repr(sad)))
    if i < 2:
        ctx.sample(dict(code=code, said=said, structure=repr(got)[:300]))


CASES = [("saids", saids, 9000, 200000)]
