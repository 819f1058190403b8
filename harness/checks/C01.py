"""C01: see catalog.py."""
import vboot
import nativelib
import cesrlib as cl
import cesrtab
from vh import Violation, must, same

RULE = ("seeded raw bytes (all zero, all one, boundary and random) and lengths for every code of the table; encodings "
        "compared with an independent computation and parsed back in both forms at the head of longer streams; "
        "non-trivial: every case")
ASSUME = ["the CESR table fixed in harness/cesrtab.py"]
REQUIRE = ["codes_seen", "round_trips", "variable_sizes", "promoted_sizes", "special_softs", "subclass_round_trips"]
FIXED = [c for c, z in cesrtab.MATTER.items() if z[3] is not None]
VAR = [c for c, z in cesrtab.MATTER.items() if z[3] is None]
SMALLMAX = 3 * (64 ** 2 - 1)


def bytes_of(rng, n):
    c = rng.random()
    if c < 0.1:
        return b"\0" * n
    if c < 0.2:
        return b"\xff" * n
    if c < 0.3:
        return bytes(n and [rng.choice([0, 1, 0x80, 0xff])] + [0] * (n - 1) or [])
    return rng.randbytes(n)


def back(ctx, rng, cls, code, soft, raw, name="primitive", **kwa):
    """Parse both encodings in every way and compare."""
    from keri.core.coring import Matter
    txt, bnr = cl.matter(code, soft, raw)
    size = cl.b64int(soft) if soft else None
    tail = rng.choice([b"", b"A", b"-AAB", b"\xff", rng.randbytes(9), txt])
    ttail = rng.choice([b"", b"A", b"-AAB", b"EAAA", txt])
    outs = [cls(qb64b=txt + ttail), cls(qb64=txt.decode() + ttail.decode()), cls(qb64=txt + ttail),
            cls(qb64b=bytearray(txt + ttail)), cls(qb2=bnr + tail), cls(qb2=bytearray(bnr + tail))]
    s = bytearray(txt + ttail)
    outs.append(cls(qb64b=s, strip=True))
    same(bytes(s), ttail, "stream after stripping text %s", txt[:60])
    s = bytearray(bnr + tail)
    outs.append(cls(qb2=s, strip=True))
    same(bytes(s), tail, "stream after stripping binary %s", bnr[:60])
    for m in outs:
        check(ctx, m, code, soft, raw, txt, bnr)
        ctx.saw("round_trips")
    return outs


def check(ctx, m, code, soft, raw, txt, bnr):
    hs, ss, xs, fs, ls = cesrtab.MATTER[code]
    same(m.code, code, "code of %s", txt[:60])
    same(m.hard, code, "hard of %s", txt[:60])
    same(m.soft, soft, "soft of %s", txt[:60])
    same(m.raw, raw, "raw of %s", txt[:60])
    must(type(m.raw) is bytes, "raw is %s", type(m.raw))
    same(m.qb64b, txt, "text of code %s", code)
    same(m.qb64, txt.decode(), "text of code %s", code)
    same(m.qb2, bnr, "binary of code %s", code)
    same(m.fullSize, len(txt), "full size of %s", code)
    same(m.both, code + "_" * xs + soft, "both of %s", code)
    same(m.size, cl.b64int(soft) if soft else None, "size of %s", code)
    must(m.composable is True, "%s not composable", code)
    must(len(txt) % 4 == 0 and len(bnr) % 3 == 0, "alignment of %s", code)
    same(m.transferable, code not in cesrtab.NONTRANSDEX, "transferable of %s", code)
    same(m.digestive, code in cesrtab.DIGDEX, "digestive of %s", code)
    same(m.prefixive, code in cesrtab.PREDEX, "prefixive of %s", code)
    same(m.special, fs is not None and ss > 0, "special of %s", code)


def fixed(ctx, rng, i):
    from keri.core.coring import Matter
    code = FIXED[i % len(FIXED)]
    hs, ss, xs, fs, ls = cesrtab.MATTER[code]
    rs = cl.rawsize(code)
    raw = bytes_of(rng, rs)
    soft = "".join(rng.choice(cl.B64) for _ in range(ss - xs))
    if ss:
        ctx.saw("special_softs")
    txt, bnr = cl.matter(code, soft, raw)
    same(len(txt), fs, "oracle size")
    extra = rng.choice([b"", b"x", rng.randbytes(5)])  # only the exact size is taken
    m = Matter(raw=raw + extra, code=code, soft=soft)
    check(ctx, m, code, soft, raw, txt, bnr)
    m = Matter(raw=bytearray(raw), code=code, soft=soft.encode())
    check(ctx, m, code, soft, raw, txt, bnr)
    if not rs:
        m = Matter(code=code, soft=soft) if soft else m
        check(ctx, m, code, soft, raw, txt, bnr)
    back(ctx, rng, Matter, code, soft, raw)
    if rs:
        for bad in (raw[:-1], raw[:rng.randint(0, rs - 1)]):
            refused(ctx, Matter, raw=bad, code=code, soft=soft)
    if ss - xs:
        refused(ctx, Matter, raw=raw, code=code, soft=soft[:-1])
        refused(ctx, Matter, raw=raw, code=code, soft="!" + soft[1:])
    refused(ctx, Matter, raw=raw, code=code + "A", soft=soft)
    refused(ctx, Matter, raw=raw, code="", soft=soft)
    refused(ctx, Matter, raw="x" * rs, code=code, soft=soft)
    ctx.saw("codes_seen")
    ctx.case((code, soft, raw))
    if i < 2:
        ctx.sample(dict(code=code, qb64=txt.decode()))


def refused(ctx, cls, **kwa):
    try:
        m = cls(**kwa)
    except Exception:
        ctx.saw("constructions_refused")
    else:
        raise Violation(f"{cls.__name__}{str(kwa)[:300]} accepted as {m.qb64!r}"[:2000])


def variable(ctx, rng, i):
    from keri.core.coring import Matter
    code = VAR[i % len(VAR)]
    c = rng.random()
    if i // len(VAR) == 0:
        n = SMALLMAX + [0, 1, -1, -2, 2, 3][i % 6]
    elif c < 0.7:
        n = rng.randint(0, 70)
    elif c < 0.9:
        n = rng.choice([0, 1, 2, 3, 63 * 3, 64 * 3, 64 * 3 + 1, 64 * 3 - 1])
    else:
        n = rng.randint(SMALLMAX - 4, SMALLMAX + 4)
    raw = bytes_of(rng, n)
    real, soft = cl.varcode(code, n)
    if len(real) != len(code):
        ctx.saw("promoted_sizes")
    txt, bnr = cl.matter(real, soft, raw)
    for m in (Matter(raw=raw, code=code), Matter(raw=bytearray(raw), code=code, rize=n or None)):
        check(ctx, m, real, soft, raw, txt, bnr)
    if n:
        m = Matter(raw=raw + b"more", code=code, rize=n)
        check(ctx, m, real, soft, raw, txt, bnr)
        refused(ctx, Matter, raw=raw, code=code, rize=n + 1)
    back(ctx, rng, Matter, real, soft, raw)
    ctx.saw("variable_sizes")
    ctx.saw("codes_seen")
    ctx.case((code, raw))


def subclasses(ctx, rng, i):
    """Typed primitives take their codes and no others."""
    from keri.core import coring, signing
    from keri.core.coring import Matter
    fam = [(coring.Diger, cesrtab.DIGDEX), (coring.Verfer, ("B", "D", "1AAI", "1AAJ", "1AAA", "1AAB")),
           (coring.Prefixer, cesrtab.PREDEX), (coring.Number, cesrtab.NUMDEX), (coring.Noncer, cesrtab.NONCEDEX),
           (coring.Dater, ("1AAG",)), (coring.Texter, cesrtab.TEXDEX), (coring.Bexter, cesrtab.BEXDEX),
           (coring.Tagger, cesrtab.TAGDEX), (coring.Saider, cesrtab.DIGDEX), (coring.Seqner, ("0A",)),
           (signing.Salter, ("0A",)), (coring.Labeler, cesrtab.LABELDEX)]
    cls, codes = fam[i % len(fam)]
    code = rng.choice(list(cesrtab.MATTER))
    if rng.random() < 0.6:
        code = rng.choice(codes)
    hs, ss, xs, fs, ls = cesrtab.MATTER[code]
    if fs is None:
        n = rng.randint(3, 40)
        code, soft = cl.varcode(code, n)
        raw = rng.randbytes(n)
    else:
        soft = "".join(rng.choice(cl.B64) for _ in range(ss - xs))
        raw = rng.randbytes(cl.rawsize(code))
    if cls is coring.Dater and code == "1AAG":
        t = f"20{rng.randint(10, 99)}-0{rng.randint(1, 9)}-{rng.randint(10, 28)}T{rng.randint(10, 23)}c{rng.randint(10, 59)}c01d{rng.randint(0, 999999):06}p00c00"
        v = cl.b64int(t)
        raw = v.to_bytes(24, "big")
    if cls is coring.Labeler and code in cesrtab.TEXDEX + ("V", "W"):
        raw = bytes(rng.randrange(32, 127) for _ in range(len(raw)))
    txt, bnr = cl.matter(code, soft, raw)
    if code in codes:
        if cls in (coring.Seqner, signing.Salter, coring.Saider, coring.Labeler, coring.Tagger, coring.Bexter, coring.Texter):
            outs = [cls(qb64b=txt), cls(qb64=txt.decode()), cls(qb2=bnr)]
            for m in outs:
                same(m.qb64b, txt, "text")
                same(m.raw, raw, "raw")
                same(m.qb2, bnr, "binary")
        else:
            back(ctx, rng, cls, code, soft, raw)
        ctx.saw("subclass_round_trips")
    else:
        refused(ctx, cls, qb64b=txt)
        refused(ctx, cls, qb64=txt.decode())
        refused(ctx, cls, qb2=bnr)
        ctx.saw("wrong_family_refused")
    ctx.case((cls.__name__, code, raw))


CASES = [("fixed", fixed, 40 * len(FIXED), 1000 * len(FIXED)), ("variable", variable, 30 * len(VAR), 400 * len(VAR)),
         ("subclass", subclasses, 6000, 100000)]
