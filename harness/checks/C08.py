"""C08: see catalog.py."""
import base64
import copy
import vboot
import nativelib
import cesrlib as cl
import cesrtab
import msggen as mg
from vh import Violation, must, same

RULE = ("seeded nested maps, seals, blinded states, typed media, aggregate lists, compactable maps and credentials in every "
        "serialization, their text and binary forms, every kind of disclosure, and single alterations of each; identifiers "
        "compared with an independent computation over the most compact form")
ASSUME = ["cbor and msgpack encoders are stand-ins for the missing libraries",
          "bytes values read back as the text they hold; map labels without strictness are any text"]
REQUIRE = ["maps", "maps_binary", "lookalikes", "map_alterations_refused", "seals", "enclosed", "blinds", "blinds_refused", "media",
           "aggregates", "disclosures", "disclosures_refused", "compacted", "partials", "compact_alterations", "credentials",
           "credential_alterations_refused", "sections"]
KINDS = ["CESR", "CESR", "JSON", "CBOR", "MGPK"]
CODES = ["E", "E", "F", "G", "H", "I"]


def refused(fn, *pa, **kwa):
    try:
        return False, fn(*pa, **kwa)
    except Exception as ex:
        return True, ex


def lookalike(rng):
    """Text that is, or nearly is, the encoding of some primitive."""
    code = rng.choice(list(cesrtab.MATTER))
    hs, ss, xs, fs, ls = cesrtab.MATTER[code]
    if fs is None:
        n = rng.randrange(0, 12)
        try:
            code, soft = cl.varcode(code, n)
            s = cl.matter(code, soft, rng.randbytes(n))[0].decode()
        except Exception:
            s = "4AAB" + "AAAA"
    else:
        n = (fs - hs - ss) * 3 // 4
        soft = "".join(rng.choice(cl.B64) for _ in range(ss - xs))
        s = cl.pack(code + "_" * xs + soft, rng.randbytes(n), fs)[0].decode()
    if rng.random() < 0.4:
        s = rng.choice([s[:-1], s + "A", s + "AAAA", s[:4], s[1:], s.lower(), " " + s])
    return s


def text(rng):
    return rng.choice(mg.WORDS + [rng.choice(["-AAA", "1AAK", "1AAL", "1AAM", "1AAP", "AAAA", "____", "-", "_", "--", "A", "AB", "ABC", "ABCD"])]) \
        * rng.choice([1, 1, 2])


def value(rng, ctx, depth=0):
    c = rng.random()
    if depth < 3 and c < 0.2:
        return {k: value(rng, ctx, depth + 1) for k in rng.sample(mg.LABELS, rng.randint(0, 4))}
    if depth < 3 and c < 0.35:
        return [value(rng, ctx, depth + 1) for _ in range(rng.randint(0, 4))]
    if c < 0.55:
        ctx.saw("lookalikes")
        return lookalike(rng)
    if c < 0.7:
        return text(rng)
    return rng.choice([mg.digest(rng), mg.key(rng), mg.stamp(rng), rng.randrange(-5, 2 ** 60), 0, 1, True, False, None, 1.5, -0.25,
                       rng.randrange(10 ** 6) / 1000, -7, 1e22, 1e-9])


def mapping(rng, ctx, least=0):
    return {k: value(rng, ctx) for k in rng.sample(mg.LABELS, rng.randint(least, 6))}


def alike(a, b):
    """Equal with types and order."""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def keeps(got, want, what):
    must(alike(got, want), "%s: got %r, expected %r", what, got, want)


def said_of(raw, said):
    return cl.matter(said[0], "", mg.DIGS[said[0]](raw.replace(said.encode(), b"#" * len(said))))[0].decode()


def spots(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield path + (k,)
            yield from spots(x[k], path + (k,))
    elif isinstance(x, list):
        for k in range(len(x)):
            yield path + (k,)
            yield from spots(x[k], path + (k,))


def at(x, path):
    for k in path:
        x = x[k]
    return x


def changed(rng, v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, str):
        return v + "x"
    if isinstance(v, (int, float)):
        return v + 1 if v + 1 != v else 0
    if v is None:
        return False
    if isinstance(v, list):
        return v + [None]
    return {**v, "extra": 1}


def alter(rng, x, skip=()):
    """Copy of x with one value changed."""
    places = [p for p in spots(x) if p not in skip]
    p = rng.choice(places)
    d = copy.deepcopy(x)
    at(d, p[:-1])[p[-1]] = changed(rng, at(d, p))
    return d, p


def maps(ctx, rng, i):
    from keri.core.mapping import Mapper
    kind = rng.choice(KINDS)
    strict = rng.random() < 0.7
    mad = mapping(rng, ctx)
    if not strict:
        mad = {rng.choice(mg.WORDS + ["$id", "a b", "日"]) + k: v for k, v in mad.items()}
    before = copy.deepcopy(mad)
    kwa = dict(kind=kind, strict=strict)
    m = Mapper(mad=mad, **kwa)
    keeps(mad, before, "map given")
    keeps(m.mad, before, "map")
    raw = m.raw
    if kind != "CESR":
        same(raw, mg.SER[kind](before), "serialization")
        keeps(Mapper(raw=raw, **kwa).mad, before, "map read from %s" % kind)
        same(m.size, len(raw), "size")
    else:
        same(len(raw) % 4, 0, "alignment")
        same((m.size, m.byteCount()), (len(raw), len(raw)), "size")
        tail = rng.choice([b"", b"-IAA", raw, b"EAAA"])
        for x in (Mapper(raw=raw, **kwa), Mapper(qb64=m.qb64, **kwa), Mapper(qb64b=raw + tail, **kwa), Mapper(mad=m.mad, **kwa)):
            keeps(x.mad, before, "map read back")
            same(x.raw, raw, "map re-encoded")
        b2 = base64.urlsafe_b64decode(raw)
        same(m.qb2, b2, "binary form")
        t2 = base64.urlsafe_b64decode(tail)
        for x in (Mapper(qb2=b2, **kwa), Mapper(qb2=b2 + t2, **kwa)):
            keeps(x.mad, before, "map read back from binary")
            same(x.raw, raw, "map re-encoded from binary")
        buf = bytearray(raw + tail)
        keeps(Mapper(qb64b=buf, strip=True, **kwa).mad, before, "map stripped")
        same(bytes(buf), tail, "rest of stream")
        buf = bytearray(b2 + t2)
        keeps(Mapper(qb2=buf, strip=True, **kwa).mad, before, "map stripped from binary")
        same(bytes(buf), t2, "rest of binary stream")
        ctx.saw("maps_binary")
    ctx.saw("maps")
    # self addressed
    label = rng.choice(["d", "d", "id" if strict else "$id"])
    code = rng.choice(CODES)
    items = [(k, v) for k, v in before.items() if k != label]
    items.insert(rng.randint(0, len(items)), (label, ""))
    sad = dict(items)
    kwa.update(saids={label: code}, saidive=True)
    m = Mapper(mad=sad, makify=True, **kwa)
    same(m.said, m.mad[label], "identifier")
    same(m.said[0], code, "identifier code")
    keeps({k: v for k, v in m.mad.items() if k != label}, {k: v for k, v in sad.items() if k != label}, "self addressed map")
    same(list(m.mad), list(sad), "order of self addressed map")
    same(said_of(m.raw, m.said), m.said, "identifier of map")
    x = Mapper(raw=m.raw, **kwa)
    keeps(x.mad, m.mad, "self addressed map read back")
    same(Mapper(mad=m.mad, **kwa).raw, m.raw, "self addressed map again")
    same(Mapper(mad=m.mad, makify=True, **kwa).raw, m.raw, "self addressed map made again")
    for _ in range(3):
        d, p = alter(rng, m.mad)
        ok, y = refused(Mapper, mad=d, **kwa)
        must(ok, "map with %s altered accepted: %s", p, d)
        ctx.saw("map_alterations_refused")
    bad = bytearray(m.raw)
    p = rng.randrange(len(bad))
    bad[p] ^= 1 << rng.randrange(7)
    ok, y = refused(Mapper, raw=bytes(bad), **kwa)
    must(ok or y.mad.get(label) != m.said or alike(y.mad, m.mad), "map with byte %d altered accepted: %s", p, bytes(bad))
    if len(m.mad) > 1:
        it = list(m.mad.items())
        it.reverse()
        must(refused(Mapper, mad=dict(it), **kwa)[0], "map with order reversed accepted")
    ctx.case(("map", kind, raw))
    if i < 2:
        ctx.sample(dict(map=repr(before)[:300], raw=raw[:200].decode("latin1")))


def structs(ctx, rng, i):
    from keri.core.structing import Sealer, Structor
    n = rng.randint(1, 4)
    first = mg.seal(rng)
    crews = [first]
    while len(crews) < n:
        s = mg.seal(rng)
        if list(s) == list(first):
            crews.append(s)
    made = []
    for crew in crews:
        s = Sealer(crew=crew)
        made.append(s)
        want = {k: (f"{int(v, 16):x}" if k == "s" else v) for k, v in crew.items()}
        same(s.asdict, want, "seal")
        same(list(s.asdict), list(crew), "seal order")
        same(s.crew._asdict(), want, "seal crew")
        tail = rng.choice([b"", b"AAAA", s.qb64b])
        for x in (Sealer(clan=s.clan, qb64=s.qb64), Sealer(clan=s.clan, qb64b=s.qb64b + tail), Sealer(cast=s.cast, qb64b=s.qb64b),
                  Sealer(clan=s.clan, qb2=s.qb2), Sealer(clan=s.clan, qb2=s.qb2 + base64.urlsafe_b64decode(tail)),
                  Sealer(data=s.data), Sealer(crew=s.crew), Sealer(clan=s.clan, crew=list(crew.values()))):
            same((x.asdict, x.qb64b, x.qb2), (want, s.qb64b, s.qb2), "seal read back")
        buf = bytearray(s.qb64b + tail)
        same(Sealer(clan=s.clan, qb64b=buf, strip=True).asdict, want, "seal stripped")
        same(bytes(buf), tail, "rest of stream")
        buf = bytearray(s.qb2 + base64.urlsafe_b64decode(tail))
        same(Sealer(clan=s.clan, qb2=buf, strip=True).asdict, want, "seal stripped from binary")
        same(bytes(buf), base64.urlsafe_b64decode(tail), "rest of binary stream")
        cut = rng.randrange(len(s.qb64b))
        must(refused(Sealer, clan=s.clan, qb64b=s.qb64b[:cut])[0], "seal truncated to %d accepted", cut)
        ctx.saw("seals")
    for cold in ("txt", "bny"):
        g = Sealer.enclose(made, cold=cold)
        key = "qb64b" if cold == "txt" else "qb2"
        tail = b"-IAA" if cold == "txt" else base64.urlsafe_b64decode("-IAA")
        got = Sealer.extract(**{key: g})
        same([x.asdict for x in got], [x.asdict for x in made], "enclosed seals")
        buf = bytearray(g + tail)
        got = Sealer.extract(**{key: buf}, strip=True)
        same([x.asdict for x in got], [x.asdict for x in made], "enclosed seals at the head of a stream")
        same(bytes(buf), tail, "rest of stream")
        ctx.saw("enclosed")
    g = Sealer.enclose(made)
    same(base64.urlsafe_b64decode(g), bytes(Sealer.enclose(made, cold="bny")), "binary group")
    other = Sealer(crew=next(s for s in iter(lambda: mg.seal(rng), None) if list(s) != list(first)))
    must(refused(Sealer.enclose, made + [other])[0], "seals of several kinds enclosed in one group")
    ctx.case(("seals", repr(crews)))


def blinds(ctx, rng, i):
    from keri.core.structing import Blinder, Mediar
    bound = rng.random() < 0.5
    salt = mg.salt(rng)
    sn = rng.choice([0, 1, 2, 16, rng.randrange(2 ** 32)])
    acdc = rng.choice(["", mg.digest(rng)])
    state = rng.choice(["", "issued", "revoked", "two words", "日本", "1AAP", "A" * 40])
    bsn = rng.choice([0, 1, rng.randrange(2 ** 20)])
    bd = rng.choice(["", mg.digest(rng)])
    kwa = dict(salt=salt, sn=sn, acdc=acdc, state=state)
    if bound:
        kwa.update(bound=True, bsn=bsn, bd=bd)
    b = Blinder.blind(**kwa)
    u = Blinder.makeUUID(salt=salt, sn=sn)
    same((b.uuid, b.acdc, b.state), (u, acdc, state), "blinded state")
    if bound:
        same((b.bsn, b.bd), (bsn, bd), "bound state")
    same(said_of(b.qb64b, b.said), b.said, "blinded identifier")
    same(Blinder.blind(**kwa).said, b.said, "blinded identifier again")
    must(Blinder.makeUUID(salt=salt, sn=sn + 1) != u, "same factor at another number")
    must(Blinder.makeUUID(salt=mg.salt(rng), sn=sn) != u, "same factor from another salt")
    for x in (Blinder(clan=b.clan, qb64=b.qb64), Blinder(clan=b.clan, qb2=b.qb2), Blinder(crew=b.crew), Blinder(clan=b.clan, qb64b=b.qb64b + b"AAAA")):
        same((x.crew, x.said, x.qb64b), (b.crew, b.said, b.qb64b), "blinded state read back")
    for cold, key in (("txt", "qb64b"), ("bny", "qb2")):
        b3 = Blinder.blind(**dict(kwa, sn=sn + 1))
        g = Blinder.enclose([b, b3], cold=cold)
        same([x.crew for x in Blinder.extract(**{key: g})], [b.crew, b3.crew], "enclosed blinded states")
        ctx.saw("enclosed")
    unk = dict(said=b.said, salt=salt, sn=sn, acdc=acdc, states=[s for s in ("issued", "revoked", state)])
    if bound:
        unk.update(bound=True, bounds=[(5, mg.digest(rng)), (bsn, bd)])
    x = Blinder.unblind(**copy.deepcopy(unk))
    same(x and x.crew, b.crew, "unblinded state")
    x = Blinder.unblind(**{k: v for k, v in copy.deepcopy(unk).items() if k not in ("salt", "sn")}, uuid=u)
    same(x and x.crew, b.crew, "unblinded state by factor")
    wrong = [dict(salt=mg.salt(rng)), dict(sn=sn + 1), dict(said=Blinder.blind(**dict(kwa, sn=sn + 2)).said)]
    if acdc:
        wrong.append(dict(acdc=mg.digest(rng)))
    if state:
        wrong.append(dict(states=["other"]))
    if bound and (bsn, bd) != (0, ""):
        wrong.append(dict(bounds=[(bsn + 1, bd)]))
    for w in wrong:
        k = dict(copy.deepcopy(unk), **w)
        if "salt" not in w and "sn" not in w:
            k["uuid"] = u
        x = Blinder.unblind(**k)
        must(x is None, "unblinded with wrong %s: %s", w, x and x.crew)
        ctx.saw("blinds_refused")
    crew = b.crew._asdict()
    f = rng.choice([k for k in crew])
    alt = dict(crew)
    alt[f] = {"d": mg.digest(rng), "u": mg.salt(rng), "td": mg.digest(rng), "ts": state + "x", "bn": f"{bsn + 1:x}", "bd": mg.digest(rng)}[f]
    must(refused(Blinder, crew=alt)[0], "blinded state with %s altered accepted", f)
    ctx.saw("blinds")
    # typed media
    mcrew = dict(d="", u=mg.salt(rng), mt=rng.choice(["text/plain", "application/json", "x", ""]), mv=rng.choice(mg.WORDS) * rng.choice([1, 20]))
    m = Mediar(crew=mcrew, makify=True)
    same((m.uuid, m.mt, m.mv), (mcrew["u"], mcrew["mt"], mcrew["mv"]), "typed media")
    same(said_of(m.qb64b, m.said), m.said, "typed media identifier")
    for x in (Mediar(clan=m.clan, qb64=m.qb64), Mediar(clan=m.clan, qb2=m.qb2), Mediar(crew=m.crew)):
        same((x.crew, x.qb64b), (m.crew, m.qb64b), "typed media read back")
    same([x.crew for x in Mediar.extract(qb64b=Mediar.enclose([m]))], [m.crew], "enclosed typed media")
    for f, w in (("u", mg.salt(rng)), ("mt", mcrew["mt"] + "x"), ("mv", mcrew["mv"] + "x"), ("d", mg.digest(rng))):
        must(refused(Mediar, crew=dict(m.crew._asdict(), **{f: w}))[0], "typed media with %s altered accepted", f)
    ctx.saw("media")
    ctx.case(("blind", b.qb64, m.qb64))


def aggregates(ctx, rng, i):
    from keri.core.mapping import Aggor, Mapper
    kind = rng.choice(KINDS)
    code = rng.choice(CODES)
    n = rng.randint(0, 5)
    ael = [""]
    for _ in range(n):
        ael.append({"d": "", "u": mg.salt(rng), **{k: v for k, v in mapping(rng, ctx).items() if k != "d"}})
    before = copy.deepcopy(ael)
    kwa = dict(kind=kind, code=code)
    a = Aggor(ael=ael, makify=True, **kwa)
    full = a.ael
    same(len(full), n + 1, "elements")
    for x, y in zip(full[1:], before[1:]):
        keeps({k: v for k, v in x.items() if k != "d"}, {k: v for k, v in y.items() if k != "d"}, "element")
    digs = [Mapper(mad=x, saidive=True, kind=kind).said for x in full[1:]]
    for d, x in zip(digs, full[1:]):
        same(said_of(Mapper(mad=x, kind=kind).raw, d), d, "element identifier")
    if kind == "CESR":
        body = "#" * 44 + "".join(digs)
        q = len(body) // 4
        ser = ("-J" + cl.intb64(q, 2) + body).encode()
    else:
        ser = mg.SER[kind](["#" * 44] + digs)
    same(a.agid, cl.matter(code, "", mg.DIGS[code](ser))[0].decode(), "aggregate identifier")
    same(full[0], a.agid, "aggregate identifier in place")
    for x in [Aggor(raw=a.raw, **kwa)] + ([Aggor(qb2=a.qb2, **kwa), Aggor(qb64b=a.qb64b + b"AAAA", **kwa)] if kind == "CESR" else []):
        keeps(x.ael, full, "aggregate read back")
        same((x.raw, x.agid), (a.raw, a.agid), "aggregate re-encoded")
    if kind == "CESR":
        buf = bytearray(a.raw + b"-IAA")
        keeps(Aggor(qb64b=buf, strip=True, **kwa).ael, full, "aggregate stripped")
        same(bytes(buf), b"-IAA", "rest of stream")
    ctx.saw("aggregates")
    for _ in range(4):
        want = sorted(rng.sample(range(1, n + 1), rng.randint(0, n)))
        ask = list(want)
        if rng.random() < 0.3:
            ask += [n + 1, n + 5] + want
        rng.shuffle(ask)
        dael, knd = a.disclose(indices=ask)
        same(knd, kind, "kind")
        keeps(dael, [a.agid] + [full[j] if j in want else digs[j - 1] for j in range(1, n + 1)], "disclosure of %s" % want)
        must(Aggor.verifyDisclosure(dael, kind=kind, code=code) is True, "disclosure of %s refused", want)
        same(Aggor(ael=dael, **kwa).agid, a.agid, "identifier of disclosure")
        same(Aggor(ael=dael, makify=True, **kwa).agid, a.agid, "identifier of disclosure made again")
        ctx.saw("disclosures")
        bads = []
        if len(dael) > 1:
            j = rng.randrange(1, len(dael))
            d = copy.deepcopy(dael)
            if isinstance(d[j], dict):
                d[j], _ = alter(rng, d[j])
                bads.append(d)
                d = copy.deepcopy(dael)
                d[j] = Mapper(mad=alter(rng, d[j], skip=[("d",)])[0], makify=True, saidive=True, kind=kind).mad
                bads.append(d)
            else:
                d[j] = mg.digest(rng)
                bads.append(d)
            d = copy.deepcopy(dael)
            del d[j]
            bads.append(d)
            d = copy.deepcopy(dael)
            d.append(copy.deepcopy(dael[j]))
            bads.append(d)
        if len(dael) > 2:
            d = copy.deepcopy(dael)
            j = rng.randrange(1, len(d) - 1)
            d[j], d[j + 1] = d[j + 1], d[j]
            bads.append(d)
        bads.append([mg.digest(rng)] + dael[1:])
        for d in bads:
            must(Aggor.verifyDisclosure(d, kind=kind, code=code) is False, "altered disclosure accepted: %s from %s", d, dael)
            ctx.saw("disclosures_refused")
    ctx.case(("agg", kind, a.raw))


def nested(rng, ctx, depth=0):
    """Map with self addressed maps nested in it."""
    m = {}
    keys = rng.sample([k for k in mg.LABELS if k != "d"], rng.randint(1, 4))
    if depth == 0 or rng.random() < 0.7:
        m["d"] = ""
    for k in keys:
        if depth < 3 and rng.random() < 0.4:
            m[k] = nested(rng, ctx, depth + 1)
        else:
            v = value(rng, ctx, 2)
            if isinstance(v, dict):
                v.pop("d", None)
            m[k] = v
    return m


def saidive(m):
    return "d" in m or any(isinstance(v, dict) and saidive(v) for v in m.values())


def most_compact(m, kind, top=True):
    """Independent most compact form of a nested map."""
    from keri.core.mapping import Mapper
    out = {}
    for k, v in m.items():
        out[k] = most_compact(v, kind, False) if isinstance(v, dict) and saidive(v) else v
    if "d" in out:
        out["d"] = "E" + "A" * 43
        raw = mg.SER[kind](dict(out, d="#" * 44)) if kind != "CESR" else \
            Mapper(mad=out).raw.replace(out["d"].encode(), b"#" * 44, 1)
        out["d"] = cl.matter("E", "", mg.DIGS["E"](raw))[0].decode()
        return out if top else out["d"]
    return out


def fill(m, kind):
    """Nested map with the identifiers of its most compact form in place."""
    out = {}
    for k, v in m.items():
        out[k] = fill(v, kind) if isinstance(v, dict) and saidive(v) else v
    if "d" in m:
        out["d"] = most_compact(m, kind)["d"]
    return out


def places(m, path=""):
    """Paths of nested self addressed maps."""
    for k, v in m.items():
        if isinstance(v, dict) and saidive(v):
            if "d" in v:
                yield path + "." + k
            yield from places(v, path + "." + k)


def disclose(rng, m, top=True):
    """Random disclosure of a filled nested map."""
    out = {}
    for k, v in m.items():
        if isinstance(v, dict) and saidive(v):
            out[k] = v["d"] if "d" in v and rng.random() < 0.4 else disclose(rng, v, False)
        else:
            out[k] = v
    return out


def compacts(ctx, rng, i):
    from keri.core.mapping import Compactor
    kind = rng.choice(KINDS)
    m = nested(rng, ctx)
    want = most_compact(m, kind)
    full = fill(m, kind)
    kwa = dict(kind=kind)
    c = Compactor(mad=m, makify=True, **kwa)
    c.compact()
    keeps(c.mad, want, "most compact form")
    same(c.said, want["d"], "identifier")
    must(c.iscompact is True, "compacted map is not compact")
    keeps(Compactor(raw=Compactor(mad=want, **kwa).raw, **kwa).mad, want, "most compact form read back")
    ctx.saw("compacted")
    c.expand()
    seen = []
    for index, part in c.partials.items():
        p = Compactor(mad=part.mad, makify=True, **kwa)
        p.compact()
        same(p.said, want["d"], "identifier of partial disclosure %s" % (index,))
        keeps(p.mad, want, "partial disclosure compacted")
        seen.append(part.mad)
        keeps(Compactor(raw=part.raw, verify=False, **kwa).mad, part.mad, "partial disclosure read back")
        ctx.saw("partials")
    must(any(alike(x, full) for x in seen), "no partial disclosure is the whole: %s", full)
    must(any(alike(x, want) for x in seen), "no partial disclosure is the most compact form")
    c2 = Compactor(mad=m, makify=True, compactify=True, **kwa)
    same((c2.said, {k: v.mad for k, v in c2.partials.items()}), (c.said, {k: v.mad for k, v in c.partials.items()}), "compactify")
    # any disclosure has the same identifier
    for _ in range(3):
        d = disclose(rng, full)
        p = Compactor(mad=d, makify=True, **kwa)
        p.compact()
        keeps(p.mad, want, "disclosure %s compacted" % d)
        ctx.saw("partials")
        alt, path = alter(rng, d)
        ok, p = refused(lambda: (lambda x: (x.compact(), x)[1])(Compactor(mad=alt, makify=True, **kwa)))
        isd = path[-1] == "d" and (len(path) == 1 or isinstance(at(d, path[:-1]), dict))
        if not ok and not isd:
            must(p.said != want["d"], "altered disclosure at %s has the same identifier", path)
            ctx.saw("compact_alterations")
    ctx.case(("compact", kind, repr(m)))


def credentials(ctx, rng, i):
    from keri.core.mapping import Compactor, Aggor, Mapper
    from keri.core.serdering import SerderACDC
    from keri.kering import Versionage
    kind = rng.choice(KINDS)
    ilk = rng.choice([None, "acm", "act", "acg", "acm"])
    sad, _ = mg.message(rng, "ACDC", 2, ilk, kind)
    compact = {}
    for l in ("s", "a", "A", "e", "r"):
        if l not in sad or rng.random() < 0.3:
            continue
        if l == "A":
            els = [""] + [{"d": "", "u": mg.salt(rng), **{k: v for k, v in mapping(rng, ctx).items() if k != "d"}} for _ in range(rng.randint(1, 3))]
            x = Aggor(ael=els, makify=True, kind=kind)
            dael, _ = x.disclose(rng.sample(range(1, len(els)), rng.randint(0, len(els) - 1)))
            sad[l], compact[l] = (x.ael if rng.random() < 0.5 else dael), x.agid
        elif l == "s":
            m = {"$id": "", "$schema": "http://json-schema.org/draft-07/schema#", "title": rng.choice(mg.WORDS), "properties": {"a": {"type": "string"}}}
            x = Mapper(mad=m, makify=True, saids={"$id": "E"}, saidive=True, strict=False, kind=kind)
            sad[l], compact[l] = x.mad, x.said
        else:
            m = nested(rng, ctx)
            full = fill(m, kind)
            sad[l], compact[l] = disclose(rng, full), full["d"]
    if kind == "CESR":
        csad = {**sad, **compact}
    kwa = dict(pvrsn=Versionage(2, 0), kind=kind, ilk=ilk)
    s = SerderACDC(sad=copy.deepcopy(sad), makify=True, **kwa)
    c = SerderACDC(sad=copy.deepcopy({**sad, **compact}), makify=True, **kwa)
    z = SerderACDC(sad=copy.deepcopy(sad), makify=True, compactify=True, **kwa)
    same(s.said, c.said, "identifier of expanded and compact credential")
    same((z.said, z.raw, z.sad), (c.said, c.raw, c.sad), "compactified credential")
    if kind != "CESR":
        want, wraw = mg.finish(dict(c.sad, d=""), kind, {"d": "E"})
        same((c.sad, c.raw), (want, wraw), "compact credential")
    same(said_of(c.raw, c.said), c.said, "identifier of compact credential")
    for l in compact:
        keeps(s.sad[l], sad[l], "section %s" % l)
    for x in (s, c):
        y = SerderACDC(raw=x.raw)
        keeps(y.sad, x.sad, "credential read back")
        same((y.raw, y.said), (x.raw, x.said), "credential read back")
        y = SerderACDC(raw=x.raw + b"-IAA")
        keeps(y.sad, x.sad, "credential read from a stream")
        must(y.verify() is True, "credential does not verify")
    ctx.saw("credentials")
    for l in compact:
        d = copy.deepcopy(s.sad)
        d[l], path = alter(rng, d[l]) if isinstance(d[l], dict) else (None, None)
        if path is None:
            d[l] = copy.deepcopy(s.sad[l])
            j = rng.randrange(1, len(d[l]))
            if isinstance(d[l][j], dict):
                d[l][j], path = alter(rng, d[l][j])
            else:
                d[l][j], path = mg.digest(rng), ("",)
        if kind == "CESR":
            ok, y = refused(SerderACDC, sad=d)
        else:
            n = len(mg.SER[kind](d))
            d["v"] = mg.vstring("ACDC", 2, kind, n)
            raw = mg.SER[kind](d)
            ok, y = refused(SerderACDC, raw=raw)
        if not ok and (path[-1] == "d" or path == ("$id",)):
            ctx.known("section-identifier", "credential with identifier of disclosed section %s altered at %s accepted" % (l, path))
            continue
        must(ok, "credential with section %s altered at %s accepted: %s", l, path, d)
        ctx.saw("credential_alterations_refused")
    # section messages
    for l, t in (("s", "sch"), ("a", "att"), ("A", "agg"), ("e", "edg"), ("r", "rul")):
        if l not in compact:
            continue
        sec = sad[l]
        if l in ("a", "e", "r"):
            sec = dict(sec)
        m = SerderACDC(sad={"v": "", "t": t, "d": "", l: sec}, makify=True, pvrsn=Versionage(2, 0), kind=kind, ilk=t)
        y = SerderACDC(raw=m.raw)
        keeps(y.sad, m.sad, "section message read back")
        keeps(y.sad[l], sad[l], "section of message")
        d = copy.deepcopy(m.sad)
        if isinstance(d[l], dict):
            d[l], path = alter(rng, d[l])
            if path[-1] != "d":
                ok, y = refused(SerderACDC, sad={"v": "", "t": t, "d": "", l: d[l]}, makify=True, pvrsn=Versionage(2, 0), kind=kind, ilk=t)
                must(ok, "section message %s with section altered at %s accepted: %s", t, path, d)
        ctx.saw("sections")
    ctx.case(("acdc", kind, s.raw))


CASES = [("maps", maps, 4000, 80000), ("structs", structs, 1500, 30000), ("blinds", blinds, 100, 2000),
         ("aggregates", aggregates, 800, 20000), ("compacts", compacts, 1000, 30000), ("credentials", credentials, 600, 24000)]
