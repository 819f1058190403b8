"""C05: see catalog.py."""
import copy
import vboot
import nativelib
import cesrlib as cl
import msggen as mg
from vh import Violation, must, same

RULE = ("seeded messages of every protocol, version and type, in every serialization kind, with each digest algorithm for their "
        "identifiers, compared with an independent serializer; each with truncations, trailing material, relabelled version "
        "strings, and missing, added, reordered or ill-typed fields resealed with a matching size and identifier")
ASSUME = ["cbor and msgpack encoders are stand-ins for the missing libraries",
          "native serialization is judged by round trip, size and identifier rather than byte for byte"]
REQUIRE = ["messages", "native", "reparsed", "truncations_refused", "relabels_refused", "structure_refused", "trailing", "flips_refused",
           "types_refused", "big_lists", "anchors_refused",
           "anchors_kept"]


def cls(proto):
    from keri.core.serdering import SerderKERI, SerderACDC
    return SerderKERI if proto == "KERI" else SerderACDC


def refuses(fn, *pa, **kwa):
    try:
        return (False, fn(*pa, **kwa))
    except Exception as ex:
        return (True, ex)


def shortage(fn):
    from keri import kering
    try:
        fn()
    except kering.ShortageError:
        return True
    except Exception as ex:
        return ex
    return False


def attributes(s, sad, proto, ilk, label):
    same(s.sad, sad, "fields of %s" % label)
    same(list(s.sad), list(sad), "field order of %s" % label)
    same(s.said, sad["d"], "identifier of %s" % label)
    same(s.ilk, ilk, "type of %s" % label)
    same(s.proto, proto, "protocol of %s" % label)
    if proto == "KERI":
        if "i" in sad:
            same(s.pre, sad["i"], "prefix")
        if "s" in sad:
            same((s.sn, s.snh), (int(sad["s"], 16), sad["s"]), "sequence number")
        if "k" in sad:
            same([v.qb64 for v in s.verfers], sad["k"], "keys")
            same(s.tholder.sith, sad["kt"], "threshold")
            same(s.ntholder.sith if sad["n"] or sad["nt"] != "0" else "0", sad["nt"], "next threshold")
            same(s.ndigs, sad["n"], "next digests")
            same(s.bn, int(sad["bt"], 16), "backer threshold")
        for a, f in (("backs", "b"), ("cuts", "br"), ("adds", "ba")):
            if f in sad:
                same(getattr(s, a), sad[f], a)
        if "p" in sad and ilk != "exn":
            same(s.prior, sad["p"], "prior")
        if "di" in sad:
            same(s.delpre, sad["di"], "delegator")
        if "r" in sad:
            same(s.route, sad["r"], "route")
        if isinstance(sad.get("a"), list):
            same(s.seals, sad["a"], "seals")
        if "dt" in sad:
            same(s.stamp, sad["dt"], "time")
    else:
        if "i" in sad:
            same(s.israid, sad["i"], "issuer")
        if "u" in sad:
            same(s.uuid, sad["u"], "uuid")
        for a, f in (("schema", "s"), ("attrib", "a"), ("aggreg", "A"), ("edge", "e"), ("rule", "r")):
            if f in sad:
                same(getattr(s, a), sad[f], a)


def pick(rng, i):
    proto, major, ilk = mg.ILKS[i % len(mg.ILKS)]
    kinds = ["JSON", "CBOR", "MGPK"] + (["CESR", "CESR"] if major == 2 and ilk != "ace" else [])
    return proto, major, ilk, rng.choice(kinds)


def versions(major):
    from keri.kering import Versionage
    return Versionage(major, 0)


def parse(ctx, C, raw, sad, proto, ilk, label):
    s = C(raw=raw)
    same(s.raw, bytes(raw), "bytes of %s" % label)
    same(s.size, len(raw), "size of %s" % label)
    attributes(s, sad, proto, ilk, label)
    must(s.verify() is True, "%s does not verify", label)
    ctx.saw("reparsed")
    return s


def shape(ctx, sad, kind, raw, major, proto):
    """Version string states protocol, versions, kind and size."""
    v = sad["v"]
    same(v, mg.vstring(proto, major, kind, len(raw)), "version string")


def messages(ctx, rng, i):
    from keri.core import serdering
    from keri.core.counting import GenDex
    proto, major, ilk, kind = pick(rng, i)
    C = cls(proto)
    big = ilk in ("icp", "rot", "dip", "drt") and rng.random() < 0.05
    sad, labels = mg.message(rng, proto, major, ilk, kind, big)
    if big:
        ctx.saw("big_lists")
    codes = {l: rng.choice(list(mg.DIGS) if l == "d" and kind != "CESR" else ["E", "F", "G", "H", "I"]) for l in labels}
    if "d" in codes and "i" in codes and rng.random() < 0.7:
        codes["d"] = codes["i"]
    given = copy.deepcopy(sad)
    s = C(sad=copy.deepcopy(sad), makify=True, pvrsn=versions(major), kind=kind, ilk=ilk, saids=dict(codes))
    got = s.sad
    raw = s.raw
    what = "%s %s.%s %s" % (kind, proto, major, ilk)
    same(list(got), list(sad), "field order of %s" % what)
    for k in sad:
        if k != "v" and k not in codes:
            same(got[k], given[k], "field %s of %s" % (k, what))
    same(s.size, len(raw), "size of %s" % what)
    shape(ctx, got, kind, raw, major, proto)
    if kind != "CESR":
        want, wraw = mg.finish(sad, kind, codes)
        same(raw, wraw, "bytes of %s" % what)
        same(got, want, "fields of %s" % what)
    else:
        ctx.saw("native")
        dummy = raw
        for l in codes:
            dummy = dummy.replace(got[l].encode(), b"#" * len(got[l]))
        for l, c in codes.items():
            same(got[l], cl.matter(c, "", mg.DIGS[c](dummy))[0].decode(), "identifier %s of %s" % (l, what))
    attributes(s, got, proto, ilk, what)
    must(s.verify() is True, "%s does not verify", what)
    ctx.saw("messages")
    parse(ctx, C, raw, got, proto, ilk, what)
    # from its own completed fields
    s2 = C(sad=copy.deepcopy(got))
    same(s2.raw, raw, "bytes of %s from its fields" % what)
    # followed by other material
    tail = rng.choice([b"-AAB", raw, b"{", b"\x00", rng.randbytes(40)])
    s3 = C(raw=raw + tail)
    same((s3.raw, s3.sad), (raw, got), "%s at the head of a stream" % what)
    buf = bytearray(raw + tail)
    s3 = C(raw=buf, strip=True)
    same((s3.raw, s3.sad, bytes(buf)), (raw, got, tail), "%s stripped from a stream" % what)
    if kind == "CESR":
        import base64
        b2 = base64.urlsafe_b64decode(raw)
        for t in (b"", tail):
            s3 = C(raw=b2 + t)
            same((s3.raw, s3.sad), (raw, got), "%s in binary form at the head of a stream" % what)
            buf = bytearray(b2 + t)
            s3 = C(raw=buf, strip=True)
            same((s3.raw, s3.sad, bytes(buf)), (raw, got, t), "%s in binary form stripped from a stream" % what)
    else:
        buf = bytearray(raw + tail)
        s3 = serdering.Serdery().reap(buf, genus=GenDex.KERI, svrsn=versions(2))
        same((type(s3), s3.raw, s3.sad, bytes(buf)), (C, raw, got, tail), "%s reaped from a stream" % what)
    ctx.saw("trailing")
    # truncated
    for n in {rng.randrange(len(raw)), len(raw) - 1, rng.randrange(1, len(raw))}:
        must(refuses(C, raw=raw[:n])[0], "%s truncated to %d of %d accepted", what, n, len(raw))
        if n > 40 or kind == "CESR" and 0 < n:
            r = shortage(lambda: C(raw=raw[:n]))
            must(r is True, "%s truncated to %d of %d: %r instead of a shortage", what, n, len(raw), r)
        ctx.saw("truncations_refused")
    # any flipped byte
    for _ in range(6):
        p = rng.randrange(len(raw))
        bad = bytearray(raw)
        bad[p] ^= 1 << rng.randrange(8)
        ok, x = refuses(C, raw=bytes(bad))
        if ilk == "rct" and not ok:
            same(x.raw, bytes(bad), "altered receipt")  # a receipt message has no identifier of its own
            continue
        must(ok, "%s with byte %d altered accepted: %s", what, p, bytes(bad))
        ctx.saw("flips_refused")
    ctx.case((what, tuple(codes.values()), raw))
    if i < 2:
        ctx.sample(dict(kind=what, raw=raw[:300].decode("latin1"), size=len(raw)))


def reseal(sad, kind, codes):
    return mg.finish(sad, kind, {l: c for l, c in codes.items() if l in sad})


def hostile(ctx, rng, i):
    """Well sealed (right size and identifier) messages of the wrong shape."""
    proto, major, ilk = mg.ILKS[i % len(mg.ILKS)]
    kind = rng.choice(["JSON", "CBOR", "MGPK"])
    C = cls(proto)
    sad, labels = mg.message(rng, proto, major, ilk, kind)
    codes = {l: "E" for l in labels}
    what = "%s %s.%s %s" % (kind, proto, major, ilk)
    full, raw = mg.finish(sad, kind, codes)
    parse(ctx, C, raw, full, proto, ilk, what)
    lax = ilk == "ace"
    optional = {"u", "ri", "rd", "a", "A", "e", "r"} if proto == "ACDC" and ilk in (None, "acm", "ace") else set()
    if proto == "ACDC" and ilk == "acm":
        optional.add("t")
    # missing
    for k in rng.sample(list(sad), min(4, len(sad))):
        if k in optional or k == 'extra' or k == 't' and ilk in ('acm', 'ace', 'act', 'acg'):
            continue
        d = dict(sad)
        del d[k]
        if k == "v":
            b = mg.SER[kind]({x: y for x, y in full.items() if x != "v"})
        else:
            _, b = reseal(d, kind, codes)
        must(refuses(C, raw=b)[0], "%s without %s accepted: %s", what, k, b)
        ctx.saw("structure_refused")
    # added, at the end, and elsewhere
    name = rng.choice(["zz", "D", "", "sn", "é"])
    items = list(sad.items())
    p = len(items) if rng.random() < 0.5 else rng.randint(1, len(items))
    if not lax:
        d = dict(items[:p] + [(name, rng.choice(["", 1, None, "x"]))] + items[p:])
        _, b = reseal(d, kind, codes)
        must(refuses(C, raw=b)[0], "%s with additional field accepted: %s", what, b)
        ctx.saw("structure_refused")
    # reordered
    a, z = rng.sample(range(1, len(items)), 2)
    items[a], items[z] = items[z], items[a]
    _, b = reseal(dict(items), kind, codes)
    must(refuses(C, raw=b)[0], "%s with fields reordered accepted: %s", what, b)
    ctx.saw("structure_refused")
    # relabelled
    v = full["v"]
    o, ends = (6, 10) if major == 1 else (10, 14)
    other = rng.choice([x for x in ("JSON", "CBOR", "MGPK", "CESR") if x != kind])
    otherproto = "ACDC" if proto == "KERI" else "KERI"
    bads = [v[:o] + other + v[ends:], otherproto + v[4:], v[:4] + ("11" + v[6:] if major == 1 else "CAB" + v[7:]),
            v[:4] + ("30" + v[6:] if major == 1 else "DAA" + v[7:])]
    n = len(raw)
    for m in (n - 1, n + 1, 0, n + 64):
        bads.append(mg.vstring(proto, major, kind, m))
    for bad in bads:
        d = dict(full, v=bad)
        b = mg.SER[kind](d)
        must(refuses(C, raw=b)[0], "%s relabelled %s accepted", what, bad)
        # with its identifier made over the relabelled content
        d = dict(full, v=bad)
        for l in codes:
            d[l] = "#" * 44
        h = mg.DIGS["E"](mg.SER[kind](d))
        for l in codes:
            d[l] = cl.matter("E", "", h)[0].decode()
        b = mg.SER[kind](d)
        ok, x = refuses(C, raw=b)
        must(ok, "%s relabelled %s and resealed accepted: %s", what, bad, b)
        ok, x = refuses(C, raw=b + b"x" * 80)
        must(ok, "%s relabelled %s and resealed accepted with trailing bytes: %s", what, bad, b)
        ctx.saw("relabels_refused")
    # ill typed
    d = dict(sad)
    bad = rng.choice(["", "xyz", "E" + "*" * 43, full["d"][:-1], 5, None, []])
    if labels:
        d2 = dict(full, d=bad)
        must(refuses(C, raw=mg.SER[kind](d2))[0], "%s with identifier %r accepted", what, bad)
    if proto == "KERI" and "i" in sad and "i" not in codes and ilk not in ("qry", "rpy", "pro", "bar", "exn"):
        d["i"] = bad
        _, b = reseal(d, kind, codes)
        must(refuses(C, raw=b)[0], "%s with prefix %r accepted", what, bad)
        ctx.saw("types_refused")
    if ilk == "icp" and "i" not in codes:
        for alt in (dict(k=[mg.key(rng)]), dict(k=[sad["i"], mg.key(rng)]), dict(k=[]), dict(kt="2"), dict(kt=["1"])):
            _, b = reseal(dict(sad, **alt), kind, codes)
            must(refuses(C, raw=b)[0], "inception of a basic prefix with %s accepted", alt)
            ctx.saw("types_refused")
        nt = "B" + sad["i"][1:]
        for alt in (dict(n=[mg.digest(rng)], nt="1", b=[], bt="0", a=[]), dict(b=[mg.key(rng, True)], bt="1", n=[], nt="0", a=[]),
                    dict(a=[mg.seal(rng)], b=[], bt="0", n=[], nt="0")):
            _, b = reseal(dict(sad, i=nt, k=[nt], **alt), kind, codes)
            must(refuses(C, raw=b)[0], "inception of a non-transferable prefix with %s accepted", alt)
            ctx.saw("types_refused")
        d, b = reseal(dict(sad, i=nt, k=[nt], n=[], nt="0", b=[], bt="0", a=[]), kind, codes)
        parse(ctx, C, b, d, proto, ilk, "non-transferable inception")
    if ilk == "dip":
        d = dict(sad, i=sad["k"][0], k=sad["k"][:1], kt="1")
        _, b = reseal(d, kind, {"d": "E"})
        must(refuses(C, raw=b)[0], "delegated inception of a basic prefix accepted")
        d = dict(sad, di=rng.choice(["", "x", full["d"][:-1]]))
        _, b = reseal(d, kind, codes)
        must(refuses(C, raw=b)[0], "delegated inception with delegator %r accepted", d["di"])
        ctx.saw("types_refused")
    if proto == "ACDC" and "i" in sad:
        _, b = reseal(dict(sad, i=bad), kind, codes)
        must(refuses(C, raw=b)[0], "%s with issuer %r accepted", what, bad)
        ctx.saw("types_refused")
        if optional:
            d = {k: w for k, w in sad.items() if k not in ("a", "A", "e", "r")}
            _, b = reseal(dict(d, a=mg.digest(rng), A=mg.digest(rng)), kind, codes)
            must(refuses(C, raw=b)[0], "credential with both a and A accepted")
            ctx.saw("structure_refused")
    if ilk is not None:
        for t in ("xxx", "", None, 1, "icp" if ilk != "icp" else "rot"):
            _, b = reseal(dict(sad, t=t), kind, codes)
            must(refuses(C, raw=b)[0], "%s with type %r accepted", what, t)
            ctx.saw("types_refused")
    ctx.case(("hostile", what, raw))


def anchors(ctx, rng, i):
    """Anchors of any shape are kept, or the event is refused."""
    from keri.core.serdering import SerderKERI
    ilk = rng.choice(["icp", "rot", "ixn", "dip", "drt"])
    kind = rng.choice(["CESR", "CESR", "JSON", "CBOR", "MGPK"])
    sad, labels = mg.message(rng, "KERI", 2, ilk, kind)
    if labels and not sad["i"]:
        sad["i"] = ""
    elif ilk == "icp":
        return
    odd = [dict(x=mg.digest(rng)), dict(d=mg.digest(rng), s="1"), dict(mg.seal(rng), extra="1"), dict(name="text"), dict(a=dict(b="c")), "text", 5,
           mg.digest(rng), {}, dict(i=mg.prefix(rng), d=mg.digest(rng)), dict(d="not a digest"), [mg.digest(rng)]]
    a = sad["a"] + [rng.choice(odd)]
    rng.shuffle(a)
    sad["a"] = a
    ok, s = refuses(SerderKERI, sad=copy.deepcopy(sad), makify=True, pvrsn=versions(2), kind=kind, ilk=ilk, verify=rng.random() < 0.5)
    if ok:
        must(kind == "CESR", "%s with anchors %s refused: %r", kind, a, s)
        ctx.saw("anchors_refused")
    else:
        same(s.seals, a, "anchors of %s %s" % (kind, ilk))
        same(SerderKERI(raw=s.raw).seals, a, "anchors of parsed %s %s" % (kind, ilk))
        ctx.saw("anchors_kept")
    ctx.case(("anchors", kind, repr(sad)))


CASES = [("messages", messages, 6000, 120000), ("hostile", hostile, 3000, 60000),
         ("anchors", anchors, 1500, 30000)]
