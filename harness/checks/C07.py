"""C07: see catalog.py."""
import datetime
import math
import vboot
import nativelib
import cesrlib as cl
import cesrtab
from vh import Violation, must, same

RULE = ("seeded numbers around every code boundary, decimals, instants with every offset, and labels, tags, texts and "
        "paths of every length and leading character; value compared after text and binary encodings; "
        "non-trivial: every case")
ASSUME = ["paths are split at '/' (or '-'), so parts hold neither"]
REQUIRE = ["numbers", "numbers_refused", "ordered_pairs", "decimals", "instants", "instants_refused", "tags", "texts",
           "base64_texts", "paths", "labels", "nonces", "helpers"]
WIDTH = {"M": 2, "0H": 4, "R": 5, "N": 8, "S": 11, "T": 14, "0A": 16, "U": 17}
TIGHT = ["M", "R", "N", "S", "T", "U"]
MAXON = 256 ** 16 - 1


def refused(ctx, name, fn, what):
    try:
        x = fn()
    except Exception:
        ctx.saw(name)
    else:
        raise Violation(f"{what} accepted as {x!r} {getattr(x, 'qb64', '')}"[:1500])


def each(cls, x, **kwa):
    """x and its re-readings."""
    yield x
    yield cls(qb64=x.qb64, **kwa)
    yield cls(qb64b=x.qb64b, **kwa)
    yield cls(qb2=x.qb2, **kwa)


def number(rng):
    c = rng.random()
    if c < 0.5:
        b = 256 ** rng.choice(list(WIDTH.values()))
        return max(0, b + rng.choice([-2, -1, 0, 1, 2]))
    if c < 0.7:
        return rng.randrange(300)
    return rng.randrange(2 ** rng.randint(1, 8 * 17))


def numbers(ctx, rng, i):
    from keri.core.coring import Number, Seqner
    n = number(rng)
    forms = [dict(num=n), dict(num=f"{n:x}"), dict(numh=f"{n:x}"), dict(sn=n), dict(snh=f"{n:x}")]
    if n == 0:
        forms += [dict(), dict(num=""), dict(numh="")]
    if n >= 256 ** 17:
        for f in forms:
            refused(ctx, "numbers_refused", lambda: Number(**f), f"Number {f}")
    else:
        code = next(c for c in TIGHT if n < 256 ** WIDTH[c])
        for f in forms:
            x = Number(**f)
            same(x.code, code, "code of number %s", f)
            txt, bnr = cl.matter(code, "", n.to_bytes(WIDTH[code], "big"))
            same((x.qb64b, x.qb2), (txt, bnr), "encoding of number %s", f)
            for y in each(Number, x):
                same((y.num, y.sn, y.numh, y.snh), (n, n, f"{n:x}", f"{n:x}"), "number %s read back", f)
                same((y.positive, y.inceptive), (n > 0, n == 0), "number %s read back", f)
    code = rng.choice(list(WIDTH))
    if n < 256 ** WIDTH[code]:
        x = Number(num=n, code=code)
        same(x.code, code, "code asked for")
        for y in each(Number, x):
            same(y.num, n, "number %s with code %s", n, code)
    else:
        refused(ctx, "numbers_refused", lambda: Number(num=n, code=code), f"Number {n} {code}")
    refused(ctx, "numbers_refused", lambda: Number(num=n, code=rng.choice(["A", "0B", "4A", "X"])), "Number with foreign code")
    neg = -1 - rng.choice([0, n])
    for f in (dict(num=neg), dict(numh=f"{neg:x}"), dict(sn=neg), dict(num=n + 0.5), dict(num="xyz"), dict(num=neg, code="M")):
        refused(ctx, "numbers_refused", lambda: Number(**f), f"Number {f}")
    # ordinals
    sforms = [dict(sn=n), dict(snh=f"{n:x}"), dict(sn=f"{n:x}")]
    for f in sforms:
        if n > MAXON:
            refused(ctx, "numbers_refused", lambda: Seqner(**f), f"Seqner {f}")
            continue
        x = Seqner(**f)
        same((x.qb64b, x.qb2), cl.matter("0A", "", n.to_bytes(16, "big")), "encoding of ordinal %s", f)
        for y in each(Seqner, x):
            same((y.sn, y.snh), (n, f"{n:x}"), "ordinal %s read back", f)
    for f in (dict(sn=neg), dict(snh=f"{neg:x}"), dict(sn=n + 0.5)):
        refused(ctx, "numbers_refused", lambda: Seqner(**f), f"Seqner {f}")
    if n < 256 ** 17:
        x = Number(num=n)
        if n > MAXON:
            refused(ctx, "numbers_refused", lambda: x.onkey, "ordinal key")
            refused(ctx, "numbers_refused", lambda: x.huge, "ordinal text")
            refused(ctx, "numbers_refused", lambda: x.validate(), "ordinal")
        else:
            same(x.huge, cl.matter("0A", "", n.to_bytes(16, "big"))[0].decode(), "fixed width of %s", n)
            m = rng.choice([number(rng), n + 1, max(0, n - 1)])
            if m <= MAXON:
                y = Number(num=m)
                for a, b, how in ((x.onkey, y.onkey, "ordinal key"), (Seqner(sn=n).qb2, Seqner(sn=m).qb2, "ordinal binary"),
                                  (Number(num=n, code="0A").raw, Number(num=m, code="0A").raw, "fixed-width raw")):
                    must(len(a) == len(b), "%s widths differ", how)
                    must((a < b, a == b) == (n < m, n == m), "order of %s: %s %s", how, n, m)
                ctx.saw("ordered_pairs")
            for inc in (True, False, None):
                bad = (inc is True and n) or (inc is False and not n)
                if bad:
                    refused(ctx, "numbers_refused", lambda: x.validate(inceptive=inc), f"{n} inceptive={inc}")
                else:
                    must(x.validate(inceptive=inc) is x, "validate")
    ctx.saw("numbers")
    ctx.case(n)
    if i < 2:
        ctx.sample(dict(number=n))


def decimals(ctx, rng, i):
    from keri.core.coring import Decimer
    c = rng.random()
    if c < 0.4:
        v = rng.choice([-1, 1]) * rng.randrange(10 ** rng.randint(1, 60))
    elif c < 0.7:
        v = rng.choice([-1, 1]) * rng.random() * 10.0 ** rng.randint(-30, 30)
    else:
        v = rng.choice([0, 0.0, -0.0, 1.0, -1.5, 1e22, -1e22, 1e-7, 1e16, 123456789.125, float("1.7e308"), 5e-324])
    forms = [dict(decimal=v), dict(dns=f"{v}"), dict(dns=f"{v}".encode())]
    if v >= 0 and not math.copysign(1, v) < 0:
        forms.append(dict(dns=f"+{v}"))
        forms.append(dict(dns=f"00{v}"))
    for f in forms:
        x = Decimer(**f)
        for y in each(Decimer, x):
            g = y.decimal
            must(g == v and type(g) is type(v) and math.copysign(1, g) == math.copysign(1, v),
                 "decimal %s read back as %r", f, g)
            same(type(v)(y.dns), v, "decimal text of %s", f)
    for bad in ("", "abc", "1.2.3", "1 2"):
        refused(ctx, "numbers_refused", lambda: Decimer(dns=bad), f"Decimer {bad!r}")
    ctx.saw("decimals")
    ctx.case(("dec", repr(v)))


def instants(ctx, rng, i):
    from keri.core.coring import Dater
    from keri.help import helping
    off = rng.choice([0, 0, 60 * rng.randint(-12, 14), rng.randint(-1439, 1439)])
    tz = datetime.timezone(datetime.timedelta(minutes=off))
    d = datetime.datetime(rng.choice([1, 1970, 2020, 9999, rng.randint(1000, 9999)]), rng.randint(1, 12), rng.randint(1, 28),
                          rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.choice([0, 1, 999999, rng.randrange(10 ** 6)]), tz)
    dts = helping.toIso8601(d)
    same(helping.fromIso8601(dts), d, "instant %s", dts)
    same(helping.fromIso8601(dts.encode()), d, "instant %s", dts)
    for v in (dts, dts.encode()):
        x = Dater(dts=v)
        for y in each(Dater, x):
            same((y.dts, y.dtsb), (dts, dts.encode()), "timestamp read back")
            same((y.datetime, y.datetime.utcoffset(), y.datetime.microsecond), (d, d.utcoffset(), d.microsecond), "instant of %s", dts)
            same(y.code, "1AAG", "timestamp code")
    for bad in (dts + ":30", dts + "Z", dts[:-1], dts[:19], dts.replace("T", " "), dts.replace("-", "/", 1), ""):
        refused(ctx, "instants_refused", lambda: Dater(dts=bad), f"Dater {bad!r}")
    ctx.saw("instants")
    ctx.case(dts)


def b64(rng, n, first=None):
    s = "".join(rng.choice(cl.B64) for _ in range(n))
    return (rng.choice(first) + s[1:]) if n and first else s


def words(ctx, rng, i):
    from keri.core.coring import Tagger, Texter, Bexter, Pather, Labeler, Noncer, Verser, Ilker, Traitor
    from keri import kering
    n = i % 40
    # tags
    t = b64(rng, n, rng.choice([None, "A", "-", "_"]))
    if 1 <= n <= 11:
        for v in (t, t.encode()):
            x = Tagger(tag=v)
            for y in each(Tagger, x):
                same((y.tag, y.code), (t, cesrtab.TAGDEX[n - 1]), "tag read back")
        p = rng.randrange(n)
        refused(ctx, "tags_refused", lambda: Tagger(tag=t[:p] + rng.choice("+/ .\n=é") + t[p + 1:]), "tag with foreign character")
        ctx.saw("tags")
    elif n:
        refused(ctx, "tags_refused", lambda: Tagger(tag=t), f"tag {t!r}")
    # texts
    s = "".join(rng.choice(["a", "Z", " ", "\0", "\n", "é", "€", "😀", "-", "A", '"']) for _ in range(n))
    for v in (s, s.encode()):
        x = Texter(text=v)
        for y in each(Texter, x):
            same(y.text, s, "text read back")
            same(y.raw, s.encode(), "text raw read back")
    ctx.saw("texts")
    # Base64 texts
    b = b64(rng, n, rng.choice([None, "A", "-", "AB"]))
    if rng.random() < 0.1:
        b = "A" * n
    for v in (b, b.encode()):
        x = Bexter(bext=v)
        for y in each(Bexter, x):
            same(y.bext, b, "base64 text read back")
    if not b.startswith("A"):
        for y in each(Bexter, Bexter(bext=b, escapive=False), escapive=False):
            same(y.bext, b, "unescaped base64 text read back")
    if n:
        refused(ctx, "texts_refused", lambda: Bexter(bext=b[:-1] + rng.choice("+/ .\n=")), "base64 text with foreign character")
    ctx.saw("base64_texts")
    # labels and field texts
    lab = b64(rng, n, "ABCXYZabcxyz_").replace("-", "_")
    if n:
        for v in (lab, lab.encode()):
            for y in each(Labeler, Labeler(label=v)):
                same((y.label, y.text), (lab, lab), "label read back")
        for bad in ("0" + lab, "-" + lab, lab + "-", lab + "+", lab + " "):
            refused(ctx, "labels_refused", lambda: Labeler(label=bad), f"label {bad!r}")
    for v in (s, b, lab, s.encode(), b[:3] + " "):
        for y in each(Labeler, Labeler(text=v)):
            same(y.text, v if isinstance(v, str) else v.decode(), "field text read back")
    ctx.saw("labels")
    # paths
    k = rng.randint(1, 6)
    parts = [rng.choice(["0", "1", "12", "a", "A", "AA", "Ab", "AAA", "AbC", "e", "_x", "field_Name", b64(rng, rng.randint(1, 9)).replace("-", "_")]) for _ in range(k)]
    full = [""] + parts
    for y in each(Pather, Pather(parts=list(parts))):
        same((y.parts, y.rparts, y.path), (full, parts, "/".join(full)), "path read back")
    for v in ("/".join(full), "-".join(full), "/".join(parts), "/".join(full).encode()):
        if "/" not in v if isinstance(v, str) else False:
            if len(parts) == 1 and "-" not in v:
                continue
        for y in each(Pather, Pather(path=v)):
            same(y.parts, full, "path %s read back", v)
    for y in each(Pather, Pather(parts=list(parts), relative=True)):
        same((y.parts, y.path), (parts, "/".join(parts)), "relative path read back")
    wild = [rng.choice(["a b", "é", "x-y", "a.b", "+", "A-", "-A"]) for _ in range(k)]
    for y in each(Pather, Pather(parts=list(wild), pathive=False)):
        same(y.parts, [""] + wild, "free path read back")
    refused(ctx, "paths_refused", lambda: Pather(parts=list(wild)), f"path {wild}")
    refused(ctx, "paths_refused", lambda: Pather(path="/a//b"), "path with empty part")
    ctx.saw("paths")
    # nonces
    from keri.core.coring import Diger
    same(Noncer(nonce="").nonce, "", "empty nonce")
    code = rng.choice(["0A", "a", "E"])
    txt = cl.matter(code, "", rng.randbytes(cl.rawsize(code)))[0].decode()
    for v in (txt, txt.encode()):
        for y in each(Noncer, Noncer(nonce=v)):
            same((y.nonce, y.nonceb), (txt, txt.encode()), "nonce read back")
    ctx.saw("nonces")
    # versions, types and traits
    vs = [kering.Versionage(rng.randrange(64), rng.randrange(4096)) for _ in range(2)]
    proto = rng.choice(["KERI", "ACDC"])
    for g in (None, vs[1]):
        for y in each(Verser, Verser(proto=proto, pvrsn=vs[0], gvrsn=g)):
            same((y.versage.proto, y.versage.pvrsn, y.versage.gvrsn), (proto, vs[0], g), "version read back")
    ilk = rng.choice(list(kering.Ilks))
    for y in each(Ilker, Ilker(ilk=ilk)):
        same(y.ilk, ilk, "message type read back")
    refused(ctx, "tags_refused", lambda: Ilker(ilk="zzz"), "message type")
    trait = rng.choice(["EO", "DND", "RB", "NB", "NRB", "DID"])
    for y in each(Traitor, Traitor(trait=trait)):
        same(y.trait, trait, "trait read back")
    refused(ctx, "tags_refused", lambda: Traitor(trait="ZZ"), "trait")
    ctx.case(("w", n, t, s, b, tuple(parts)))


def helpers(ctx, rng, i):
    from keri.help import helping
    n = number(rng)
    t = cl.intb64(n, max(1, -(-n.bit_length() // 6)))
    same(helping.intToB64(n), t, "Base64 of %s", n)
    w = len(t) + rng.randrange(4)
    same(helping.intToB64(n, l=w), cl.intb64(n, w), "Base64 of %s in %s", n, w)
    same(helping.intToB64b(n, l=w), cl.intb64(n, w).encode(), "Base64 of %s in %s", n, w)
    same(helping.b64ToInt(cl.intb64(n, w)), n, "number of Base64")
    same(helping.b64ToInt(cl.intb64(n, w).encode()), n, "number of Base64")
    s = b64(rng, rng.randint(1, 12))
    b = helping.codeB64ToB2(s)
    same(b, (cl.b64int(s) << (2 * (len(s) % 4))).to_bytes(-(-len(s) * 3 // 4), "big"), "binary code of %s", s)
    more = b + rng.randbytes(3)
    k = rng.randint(1, len(s))
    same(helping.codeB2ToB64(b, len(s)), s, "text code of %s", b)
    same(helping.codeB2ToB64(more, k), s[:k], "text code of %s", b)
    same(helping.nabSextets(more, k), helping.codeB64ToB2(s[:k]), "sextets of %s", more)
    ctx.saw("helpers")
    ctx.case(("h", n, s))


CASES = [("numbers", numbers, 5000, 100000), ("decimals", decimals, 3000, 60000), ("instants", instants, 2500, 60000),
         ("words", words, 4000, 80000), ("helpers", helpers, 4000, 60000)]
