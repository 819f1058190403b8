"""C09: see catalog.py."""
import vboot
import nativelib
import cesrlib as cl
import msggen as mg
import streamgen as sg
from vh import Violation, must, same

RULE = ("seeded streams of one to eight messages of every protocol version and kind, with every kind of attachment group, in every "
        "framing (bare, body with attachments, generic groups nested, native or enclosed bodies; text or binary), delivered in one "
        "buffer, byte by byte or in random chunks, with processors that refuse some messages; non-trivial: at least one message "
        "reached a processor")
ASSUME = ["the five message processors are recording stand-ins: routing and contents are observed at the parser's own interface",
          "messages whose attachments are not enclosed in a counted group end where the buffer ends, so they are only fed whole"]
REQUIRE = ["streams", "messages", "chunked_streams", "bytewise_streams", "v1_groups", "v2_groups", "binary_units", "generic_groups",
           "body_groups", "native_bodies", "nested_messages", "refused", "after_refused", "one_at_a_time", "broken_groups",
           "after_broken", "hostile", "without_attachments"]


def seqcanon(x):
    from keri.core.coring import Matter, Seqner, Number, Dater, Cigar
    from keri.core.indexing import Indexer
    if isinstance(x, Seqner):
        return ("n", x.sn)
    if isinstance(x, Number):
        return ("n", x.num)
    if isinstance(x, Dater):
        return x.dts
    if isinstance(x, Cigar):
        return (x.verfer.qb64, x.qb64)
    if isinstance(x, (Matter, Indexer)):
        return x.qb64
    if isinstance(x, (tuple, list)):
        return [seqcanon(v) for v in x]
    return x


def listed(x):
    return [listed(v) for v in x] if isinstance(x, (tuple, list)) and not (isinstance(x, tuple) and len(x) == 2 and x[0] == "n") else x


def field(kwa, f):
    v = kwa[f]
    if f == "ptds":
        return [("ptds", bytes(b)) for b in v]
    if f == "nests":
        return [(bytes(n["serder"].raw), {k: field(n, k) for k in sg.FIELDS + ("nests",)}) for n in v]
    return [seqcanon(e) for e in v]


class Sink:
    """Stands for all five processors; records every delivery, refuses some."""

    def __init__(self, refuse=()):
        self.calls, self.refuse = [], refuse

    def took(self, who, kwa):
        if "kwa" in kwa:
            kwa = kwa["kwa"]
        s = kwa["serder"]
        extra = {k: seqcanon(kwa[k]) for k in ("source", "delsner", "delsger", "firner", "dater", "seqner", "saider", "prefixer")
                 if k in kwa and kwa[k] is not None}
        self.calls.append((who, bytes(s.raw), {f: field(kwa, f) for f in sg.FIELDS + ("nests",)}, extra))
        for raw, exc in self.refuse:
            if raw == bytes(s.raw):
                raise exc

    def __getattr__(self, name):
        if name.startswith("process"):
            return lambda **kwa: self.took(name, kwa)
        raise AttributeError(name)


class Port:
    def __init__(self, sink, who):
        self.sink, self.who = sink, who

    def __getattr__(self, name):
        if name.startswith("process"):
            return lambda **kwa: self.sink.took(self.who + "." + name, kwa)
        raise AttributeError(name)


def ports(sink):
    return {w: Port(sink, w) for w in ("kvy", "tvy", "exc", "rvy", "vry")}


EVENTS = ("icp", "rot", "ixn", "dip", "drt")
TELS = ("vcp", "vrt", "iss", "rev", "bis", "brv")


def expect(m, refused):
    """Deliveries one message must cause, in order."""
    a, raw = {**m["atts"], "nests": [(n["raw"], {**n["atts"], "nests": []}) for n in m.get("nests", [])]}, m["raw"]
    ilk, major = m["ilk"], m["major"]
    call = lambda who, over=None, **x: (who, raw, {**a, **(over or {})}, {k: v for k, v in x.items() if v is not None})
    last = lambda f: a[f][-1] if a[f] else None
    if m["proto"] == "ACDC":
        if ilk is not None:
            return []
        p, n, d = last("ssts") or (None, None, None)
        return [call("vry.processACDC", prefixer=p, seqner=n, saider=d)]
    if major == 2 and ilk in ("qry", "rpy", "exn", "xip", "pro", "bar"):
        return [call("kvy.processMsg")]
    if ilk in EVENTS:
        if not a["sigers"]:
            return []
        f, dt = last("frcs") or (None, None)
        n, d = last("sscs") or (None, None)
        x = dict(firner=f, dater=dt, delsner=n, delsger=d)
        out = [call("kvy.processEvent", **x)]
        if not refused:
            out += [call("kvy.processAttachedReceiptCouples", **x)] if a["cigars"] else []
            out += [call("kvy.processAttachedReceiptSigGroups", **x)] if a["rsgs"] else []
        return out
    if ilk == "rct":
        return [call("kvy.processReceipt")] if a["cigars"] or a["wigers"] or a["tsgs"] or a["rsgs"] else []
    if ilk == "rpy":
        return [call("rvy.processReply")] if a["cigars"] or a["tsgs"] else []
    if ilk == "exn":
        return [call("exc.processEvent")] if a["cigars"] or a["tsgs"] else []
    if ilk in TELS:
        n, d = last("sscs") or (None, None)
        return [call("tvy.processEvent", seqner=n, saider=d)]
    if ilk == "qry":
        src, sigs = last("lsgs") or (None, [])
        if src is None and not a["cigars"]:
            return []
        who = "kvy" if m["route"] in ("logs", "ksn", "mbx") else "tvy" if m["route"] in ("tels", "tsn") else None
        return [call(who + ".processQuery", dict(sigers=sigs), source=src)] if who else []
    return []


KERI1 = [i for p, v, i in mg.ILKS if p == "KERI" and v == 1 and i not in ("pro", "bar")]
KERI2 = [i for p, v, i in mg.ILKS if p == "KERI" and v == 2]


def make(rng, major, gmajor, depth=0, native=False):
    """One message with attachments; gmajor: CESR version of its attachments."""
    from keri.core.serdering import SerderKERI, SerderACDC
    from keri.kering import Versionage
    proto = rng.choice(["KERI", "KERI", "KERI", "KERI", "ACDC"])
    ilk = None if proto == "ACDC" else rng.choice(KERI1 if major == 1 else KERI2)
    if native and major == 2:
        if proto == "ACDC":
            ilk = rng.choice(["act", None])
        kind = "CESR"
    else:
        kind = rng.choice(["JSON", "JSON", "CBOR", "MGPK"])
    sad, labels = mg.message(rng, proto, major, ilk, kind)
    if ilk == "qry" and rng.random() < 0.8:
        sad["r"] = rng.choice(["logs", "ksn", "mbx", "tels", "tsn"])
    codes = {l: rng.choice(["E", "E", "F", "G", "H", "I"]) for l in labels}
    if kind == "CESR":
        C = SerderKERI if proto == "KERI" else SerderACDC
        s = C(sad=sad, makify=True, pvrsn=Versionage(2, 0), kind=kind, ilk=ilk, saids=codes)
        raw = bytes(s.raw)
    else:
        sad, raw = mg.finish(sad, kind, codes)
    g = sg.Gen(rng, gmajor)
    kinds = [k for k in sg.FIELDS if k in g.codes]
    must_have = dict(rct="cigars", rpy="tsgs", exn="cigars", qry="lsgs").get(ilk, "sigers" if ilk in EVENTS else None)
    pick = [rng.choice(kinds) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
    if must_have and rng.random() < 0.9:
        pick.insert(rng.randrange(len(pick) + 1), must_have)
    if not pick and rng.random() < 0.5:
        pick = [rng.choice(kinds)]
    t, got = g.attachments(pick)
    return dict(raw=raw, proto=proto, ilk=ilk, major=major, kind=kind, route=sad.get("r"), text=t,
                atts={f: listed(v) for f, v in got.items()}, g=g, nests=[])


def attached(ctx, rng, m, gm, enclosed=True, bny=False, nest=False):
    """Attachment part of a message as bytes."""
    t = m["text"]
    if gm == 2 and nest and enclosed:
        n = make(rng, 2, 2, native=rng.random() < 0.5)
        b = bodygroup(ctx, rng, n, 2)
        t += b
        m["nests"].append(n)
        ctx.saw("nested_messages")
    if enclosed:
        if gm == 2 and t and rng.random() < 0.1:
            t = sg.genus(2) + t
        t = m["g"].enclose("att", t)
    return sg.binary(t) if bny else t.encode()


def bodytext(m, g):
    """Body in text form: native, or enclosed as a payload."""
    if m["kind"] == "CESR":
        return m["raw"].decode()
    return g.enclose("non", sg.texter(m["raw"]))


def bodygroup(ctx, rng, m, gm):
    g = m["g"]
    t = bodytext(m, g) + (g.enclose("att", m["text"]) if rng.random() < 0.6 else m["text"])
    if not m["text"]:
        ctx.saw("without_attachments")
    ctx.saw("body_groups")
    return g.enclose("bodyatt", t)


def unit(ctx, rng, gm, depth=0, nests=True):
    """(bytes, messages): one top level unit under CESR version gm."""
    bny = rng.random() < 0.3
    w = rng.random()
    major = rng.choice([1, 2]) if gm == 2 else 1
    if bny:
        ctx.saw("binary_units")
    ctx.saw(f"v{gm}_groups")
    if w < 0.45:
        m = make(rng, major, gm, native=rng.random() < 0.3)
        a = attached(ctx, rng, m, gm, bny=bny, nest=nests and rng.random() < 0.2)
        if m["kind"] == "CESR":
            ctx.saw("native_bodies")
            body = sg.binary(m["raw"]) if bny else m["raw"]
        elif rng.random() < 0.3:
            t = bodytext(m, m["g"])
            body = sg.binary(t) if bny else t.encode()
        else:
            body = m["raw"]
        return body + a, [m]
    if w < 0.65 or depth > 1:
        m = make(rng, major, gm, native=rng.random() < 0.4)
        t = bodygroup(ctx, rng, m, gm)
        return sg.binary(t) if bny else t.encode(), [m]
    # generic group
    ctx.saw("generic_groups")
    inner, ms = b"", []
    igm = gm
    if rng.random() < 0.3:
        igm = rng.choice([1, 2]) if gm == 2 else 1
        gv = sg.genus(igm)
        inner += sg.binary(gv) if bny else gv.encode()
    textual = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if depth < 2 and rng.random() < 0.25:
            u, um = textunit(ctx, rng, igm, depth + 1, bny)
        else:
            u, um = textunit(ctx, rng, igm, 9, bny)
        inner += u
        ms += um
    q = len(inner) // (3 if bny else 4)
    must(len(inner) % (3 if bny else 4) == 0, "harness: group not aligned")
    h = sg.Gen(rng, gm).head("generic", q)
    return (sg.binary(h) if bny else h.encode()) + inner, ms


def textunit(ctx, rng, gm, depth, bny):
    """Unit made of text (or binary) elements only, to go inside a generic group."""
    conv = (lambda t: sg.binary(t)) if bny else (lambda t: t.encode())
    major = rng.choice([1, 2]) if gm == 2 else 1
    if depth < 3:
        inner, ms = b"", []
        for _ in range(rng.choice([1, 2])):
            u, um = textunit(ctx, rng, gm, depth + 1 if rng.random() < 0.3 else 9, bny)
            inner += u
            ms += um
        ctx.saw("generic_groups")
        h = sg.Gen(rng, gm).head("generic", len(inner) // (3 if bny else 4))
        return conv(h) + inner, ms
    m = make(rng, major, gm, native=rng.random() < 0.4)
    if rng.random() < 0.5:
        return conv(bodygroup(ctx, rng, m, gm)), [m]
    return conv(bodytext(m, m["g"]) + m["g"].enclose("att", m["text"])), [m]


def stream(ctx, rng, n, gm0=2, switch=True, nests=True):
    """(bytes of the units, messages of the units)."""
    gm = gm0
    units = []
    for _ in range(n):
        pre = b""
        if switch and rng.random() < 0.2:
            gm = rng.choice([1, 2])
            pre = sg.genus(gm).encode()
            if rng.random() < 0.3:
                pre = sg.binary(pre)
        u, ms = unit(ctx, rng, gm, nests=nests)
        units.append((pre + u, ms))
    return units


def cut(rng, data, how):
    if how == "whole":
        return [data]
    if how == "bytes":
        return [data[i:i + 1] for i in range(len(data))]
    out, i = [], 0
    while i < len(data):
        k = rng.choice([1, 2, 3, 4, 5, 17, 88, 200, 1000, rng.randint(1, 2000)])
        out.append(data[i:i + k])
        i += k
    return out


def feed(parser, chunks, sink, **kwa):
    """Deliver chunks to a waiting parser; returns what is left unconsumed."""
    ims = bytearray()
    g = parser.parsator(ims=ims, framed=False, **ports(sink), **kwa)
    for c in chunks:
        ims.extend(c)
        still = 0
        while still < 2:
            before = len(ims), len(sink.calls)
            next(g)
            still = still + 1 if (len(ims), len(sink.calls)) == before else 0
    return ims


def compare(got, want, label):
    for k, (x, y) in enumerate(zip(got, want)):
        same(x[0], y[0], "%s: delivery %d goes to", label, k)
        same(x[1], y[1], "%s: delivery %d message", label, k)
        for f in x[2]:
            w = y[2][f]
            if f == "ptds":
                gt, w = [b for _, b in x[2][f]], [p.encode() for _, p in w]
                same([q if q[:1] == b"5" else sg.base64.urlsafe_b64encode(q) for q in gt], w, "%s: delivery %d ptds", label, k)
            elif f == "nests":
                same([r for r, _ in x[2][f]], [r for r, _ in w], "%s: delivery %d nested bodies", label, k)
                for (_, p), (_, q) in zip(x[2][f], w):
                    same({z: listed(p[z]) for z in p if z != "ptds"}, {z: q[z] for z in q if z != "ptds"}, "%s: delivery %d nested", label, k)
            else:
                same(listed(x[2][f]), w, "%s: delivery %d %s", label, k, f)
        same({k2: listed(v) for k2, v in x[3].items()}, {k2: listed(v) for k2, v in y[3].items()}, "%s: delivery %d parameters", label, k)
    same(len(got), len(want), "%s: deliveries (%s)", label, [(w[0]) for w in (got[len(want):] or want[len(got):])][:3])


def start(rng):
    """(genus prefix, parser version)."""
    from keri.kering import Vrsn_1_0, Vrsn_2_0
    return (1, Vrsn_1_0) if rng.random() < 0.4 else (2, Vrsn_2_0)


ERRORS = ["ValidationError", "ValueError", "KeyError", "AttributeError", "OutOfOrderError", "MissingSignatureError", "MissingDelegationError",
          "LikelyDuplicitousError", "ExtractionError", "SizedGroupError", "ShortageError", "Exception", "TypeError", "EmptyMaterialError"]


def failure(rng):
    from keri import kering
    import builtins
    n = rng.choice(ERRORS)
    return (getattr(kering, n, None) or getattr(builtins, n))("refused on purpose")


def chunks(ctx, rng, i):
    from keri.core.parsing import Parser
    gm, vrsn = start(rng)
    units = stream(ctx, rng, rng.choice([1, 2, 3, 5]), gm)
    ms = [m for _, um in units for m in um]
    data = b"".join(u for u, _ in units)
    refuse = []
    if rng.random() < 0.4:
        refuse = [(m["raw"], failure(rng)) for m in ms if rng.random() < 0.4]
    bad = {r for r, _ in refuse}
    want = [c for m in ms for c in expect(m, m["raw"] in bad)]
    how = rng.choice(["whole", "random", "random", "bytes"])
    if how == "bytes" and len(data) > 4000:
        how = "random"
    sink = Sink(refuse)
    ctx.log("stream of", [(m["proto"], m["major"], m["ilk"], m["kind"]) for m in ms], "delivered", how)
    rest = feed(Parser(version=vrsn), cut(rng, data, how), sink)
    compare(sink.calls, want, how)
    same(len(rest), 0, "bytes left")
    one = Sink(refuse)
    buf = bytearray(data)
    Parser(version=vrsn).parse(ims=buf, **ports(one))
    compare(one.calls, want, "parse")
    same(len(buf), 0, "bytes left by parse")
    ctx.saw("streams")
    ctx.sample(dict(messages=[[m["proto"], m["major"], m["ilk"], m["kind"]] for m in ms], bytes=len(data), delivered=how, deliveries=len(want)))
    ctx.saw("messages", len(ms))
    ctx.saw("deliveries", len(want))
    ctx.saw({"bytes": "bytewise_streams", "whole": "whole_streams"}.get(how, "chunked_streams"))
    for k, m in enumerate(ms):
        if m["raw"] in bad:
            ctx.saw("refused")
            if k + 1 < len(ms):
                ctx.saw("after_refused")
    ctx.case(data[:200], nontrivial=bool(want))


def bare(ctx, rng, i):
    """Attachments without enclosing group, each message in one piece."""
    from keri.core.parsing import Parser
    gm, vrsn = start(rng)
    ms, parts = [], []
    for _ in range(rng.choice([1, 2, 3, 4])):
        m = make(rng, rng.choice([1, 2]) if gm == 2 else 1, gm)
        bny = rng.random() < 0.3
        t = m["text"] or m["g"].enclose("att", "")
        parts.append(m["raw"] + (sg.binary(t) if bny else t.encode()))
        ms.append(m)
    want = [c for m in ms for c in expect(m, False)]
    sink = Sink()
    if rng.random() < 0.5:
        rest = feed(Parser(version=vrsn), parts, sink)
    else:
        rest = bytearray(b"".join(parts))
        Parser(version=vrsn).parse(ims=rest, **ports(sink))
    compare(sink.calls, want, "bare")
    same(len(rest), 0, "bytes left")
    ctx.saw("bare_messages", len(ms))
    ctx.case(parts[0][:100], nontrivial=bool(want))


def generic(u, gm):
    code = sg.V1["generic"] if gm == 1 else sg.V2["generic"]
    heads = [code.encode(), b"-" + code.encode()]
    t = sg.base64.urlsafe_b64encode(u[:3])
    return any(x.startswith(h) for h in heads for x in (u, t))


def ones(ctx, rng, i):
    """parseOne takes exactly one message; extraction without processing returns it."""
    from keri.core.parsing import Parser
    gm, vrsn = start(rng)
    msgs = []
    for _ in range(rng.choice([1, 2, 4])):
        while True:
            u, um = unit(ctx, rng, gm, nests=False)
            if len(um) == 1 and not generic(u, gm):
                break
        msgs.append((u, um[0]))
    buf = bytearray(b"".join(u for u, _ in msgs))
    p = Parser(version=vrsn)
    extract = rng.random() < 0.5
    for u, m in msgs:
        n = len(buf)
        sink = Sink()
        r = p.parseOne(ims=buf, processive=not extract, **ports(sink))
        same(n - len(buf), len(u), "bytes taken by parseOne")
        if extract:
            same(bytes(r.serder.raw), m["raw"], "message extracted")
            from dataclasses import asdict
            x = asdict(r)
            got = {f: field(x, f) for f in sg.FIELDS if f != "ptds"}
            same({f: listed(v) for f, v in got.items()}, {f: v for f, v in m["atts"].items() if f != "ptds"}, "attachments extracted")
            same(sink.calls, [], "processing without being asked")
        else:
            compare(sink.calls, expect(m, False), "parseOne")
        ctx.saw("one_at_a_time")
    same(len(buf), 0, "bytes left")
    ctx.case(msgs[0][0][:100])


def broken(ctx, rng, i):
    """A counted group with bad content costs its own message only."""
    from keri.core.parsing import Parser
    gm, vrsn = start(rng)
    n = rng.choice([2, 3, 4])
    units, k = [], rng.randrange(n)
    for j in range(n):
        m = make(rng, rng.choice([1, 2]) if gm == 2 else 1, gm)
        if j != k:
            units.append((m["raw"] + attached(ctx, rng, m, gm), [m]))
            continue
        g = m["g"]
        kind = rng.choice(["char", "cut", "code", "short"])
        t = m["text"] or g.group("sigers")[0]
        if kind == "char":
            p = rng.randrange(4, len(t))
            t = t[:p] + rng.choice("!*+/=") + t[p + 1:]
        elif kind == "cut":
            t = t[:-4 * rng.randint(1, 5)]
        elif kind == "code":
            t = t[:4] + "______" + t[10:]
        else:
            t = t + "BAAA"
        if len(t) < 8:
            t = "-AAB" + "0" * 8
        if rng.random() < 0.6:
            units.append((m["raw"] + g.enclose("att", t).encode(), []))
        else:
            units.append((g.enclose("bodyatt", bodytext(m, g) + t).encode(), []))
        units[-1] = (units[-1][0], [m])
    data = b"".join(u for u, _ in units)
    want = [c for j, (_, um) in enumerate(units) if j != k for m in um for c in expect(m, False)]
    how = rng.choice(["whole", "random"])
    sink = Sink()
    feed(Parser(version=vrsn), cut(rng, data, how), sink)
    braw = units[k][1][0]["raw"]
    got = [c for c in sink.calls if c[1] != braw]
    ctx.log("broken", kind, "group", k, "of", n, how)
    compare(got, want, "with one broken group")
    ctx.saw("broken_groups")
    ctx.saw("after_broken", n - 1 - k)
    ctx.case(data[:100], nontrivial=bool(want))


def hostile(ctx, rng, i):
    """Arbitrary damage: the parser neither raises nor hangs, and delivers no message that was not sent."""
    from keri.core.parsing import Parser
    gm, vrsn = start(rng)
    units = stream(ctx, rng, rng.choice([1, 2, 3]), gm)
    data = bytearray(b"".join(u for u, _ in units))
    for _ in range(rng.choice([1, 1, 2, 5])):
        w = rng.random()
        p = rng.randrange(len(data))
        if w < 0.4:
            data[p] = rng.randrange(256)
        elif w < 0.6:
            del data[p:p + rng.choice([1, 2, 4, 50])]
        elif w < 0.8:
            data[p:p] = rng.randbytes(rng.choice([1, 3, 4, 50]))
        else:
            a = rng.randrange(len(data))
            data[p:p] = data[a:a + rng.randint(1, 200)]
        if not data:
            data = bytearray(b"\0")
    sent = {m["raw"]: m for _, um in units for m in um}
    sent.update({n["raw"]: n for m in list(sent.values()) for n in m.get("nests", [])})    # damage may lay it open
    sink = Sink()
    how = rng.choice(["whole", "random"])
    data = bytes(data)
    if how == "whole" and rng.random() < 0.5:
        buf = bytearray(data)
        Parser(version=vrsn).parse(ims=buf, **ports(sink))
    else:
        feed(Parser(version=vrsn), cut(rng, data, how), sink)
    for c in sink.calls:
        if c[1] not in sent and b'"rct"' not in c[1] and b"rct" not in c[1][:60]:
            raise Violation(f"delivered a message that was not sent: {c[1][:200]!r}")
    ctx.saw("hostile")
    ctx.case(data[:100])


CASES = [("chunks", chunks, 4000, 40000), ("bare", bare, 600, 8000), ("ones", ones, 600, 8000), ("broken", broken, 1000, 15000),
         ("hostile", hostile, 1500, 30000)]
