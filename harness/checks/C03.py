"""C03: see catalog.py."""
import vboot
import nativelib
import cesrlib as cl
import cesrtab
from vh import Violation, must, same

RULE = ("every indexer and counter code with seeded indices, counts (both sides of every limit) and raw bytes; encodings "
        "compared with an independent computation and parsed back in both forms at the head of longer streams; "
        "non-trivial: every case")
ASSUME = ["the CESR tables fixed in harness/cesrtab.py", "indexer codes the specification leaves open (0z, 1z, 4z) are out of scope"]
REQUIRE = ["indexers", "indexers_refused", "counters", "counters_refused", "promoted", "enclosures", "versions", "round_trips"]
ICODES = list(cesrtab.INDEXER)
QT1 = {"-L", "--L", "-T", "--T", "-U", "--U", "-V", "--V", "-W", "--W", "-Z", "--Z"}


def edge(rng, size):
    m = 64 ** size - 1
    return rng.choice([0, 1, 63, 64, m, m - 1, rng.randrange(m + 1), rng.randrange(min(m, 40) + 1)]) if size else 0


def refused(ctx, name, fn, what):
    try:
        x = fn()
    except Exception:
        ctx.saw(name)
    else:
        raise Violation(f"{what} accepted as {getattr(x, 'qb64', x)!r}"[:1500])


def indexers(ctx, rng, i):
    from keri.core.indexing import Indexer, Siger
    code = ICODES[i % len(ICODES)]
    hs, ss, os, fs, ls = cesrtab.INDEXER[code]
    rs = (fs - hs - ss) * 6 // 8
    raw = rng.choice([b"\0" * rs, b"\xff" * rs, rng.randbytes(rs), rng.randbytes(rs)])
    im, om = 64 ** (ss - os) - 1, (64 ** os - 1 if os else None)
    index = min(edge(rng, ss - os), im)
    crt = code in cl.CRT
    if crt:
        ondex, want = None, None
    elif os:
        ondex = rng.choice([None, min(edge(rng, os), om), min(edge(rng, os), om)])
        want = index if ondex is None else ondex
    else:
        ondex = rng.choice([None, index])
        want = index
    cls = rng.choice([Indexer, Siger])
    txt, bnr = cl.indexer(code, index, want if os and not crt else 0, raw)

    def check(x, how):
        same((x.code, x.index, x.ondex, x.raw), (code, index, want, raw), "%s %s read back", code, how)
        same(x.qb64b, txt, "%s text, %s", code, how)
        same(x.qb64, txt.decode(), "%s text, %s", code, how)
        same(x.qb2, bnr, "%s binary, %s", code, how)
        ctx.saw("round_trips")

    kwa = dict(raw=raw + rng.choice([b"", b"zz"]), code=code, index=index)
    if ondex is not None or rng.random() < 0.5:
        kwa["ondex"] = ondex
    check(cls(**kwa), "made")
    check(Indexer(**dict(kwa, raw=bytearray(kwa["raw"]))), "made")
    tail = rng.choice([b"", b"A", b"-AAB", txt])
    btail = rng.choice([b"", rng.randbytes(5), bnr])
    check(cls(qb64b=txt + tail), "text bytes")
    check(cls(qb64=(txt + tail).decode()), "text")
    check(cls(qb2=bnr + btail), "binary")
    s = bytearray(txt + tail)
    check(cls(qb64b=s, strip=True), "stripped text")
    same(bytes(s), tail, "left in stream by %s", code)
    s = bytearray(bnr + btail)
    check(cls(qb2=s, strip=True), "stripped binary")
    same(bytes(s), btail, "left in stream by %s", code)

    def bad(**chg):
        k = dict(raw=raw, code=code, index=index, ondex=ondex)
        k.update(chg)
        refused(ctx, "indexers_refused", lambda: Indexer(**k), f"Indexer {chg} with {code}")
    bad(index=im + 1 + rng.choice([0, 0, rng.randrange(5000)]), **({} if os or crt else dict(ondex=None)))
    bad(index=-1 - rng.choice([0, 0, rng.randrange(100)]), **({} if os or crt else dict(ondex=None)))
    if os:
        if not crt:
            bad(ondex=om + 1 + rng.choice([0, rng.randrange(5000)]))
            bad(ondex=-1)
            if im > om:  # secondary index defaults to the index and must fit too
                bad(index=rng.randint(om + 1, im), ondex=None)
    elif not crt:
        bad(ondex=(index + 1) % (im + 1))
        bad(ondex=-1)
    if crt:
        bad(ondex=rng.choice([0, 1, index]))
    bad(raw=raw[:-1])
    bad(raw=b"")
    bad(code=rng.choice(["", "zz", code + "A", "-A", "5A"]))
    ctx.saw("indexers")
    ctx.case((code, index, ondex, raw))
    if i < 2:
        ctx.sample(dict(code=code, index=index, ondex=ondex, qb64=txt.decode()))


def counters(ctx, rng, i):
    from keri import kering
    from keri.core.counting import Counter
    major = 1 + i % 2
    v = kering.Vrsn_1_0 if major == 1 else kering.Vrsn_2_0
    tab = cl.counters(major)
    codes = list(tab)
    code = codes[(i // 2) % len(codes)]
    hs, ss, fs = tab[code]
    big = "--" + code[1] if hs == 2 else None
    count = edge(rng, ss)
    real = code
    if big in tab and rng.random() < 0.35:
        count = rng.choice([4096, 4097, 4095, rng.randrange(4096, 64 ** 5), 64 ** 5 - 1, rng.randrange(4096)])
        if count > 4095:
            real = big
            ctx.saw("promoted")
    hs, ss, fs = tab[real]
    txt = (real + cl.intb64(count, ss)).encode()
    bnr = cl.b64int(txt.decode()).to_bytes(fs * 3 // 4, "big")

    def check(x, how):
        same((x.code, x.count, x.fullSize, x.hard), (real, count, fs, real), "%s %s read back", code, how)
        same(x.qb64b, txt, "%s text, %s", code, how)
        same(x.qb64, txt.decode(), "%s text, %s", code, how)
        same(x.qb2, bnr, "%s binary, %s", code, how)
        same(x.soft, txt.decode()[hs:], "soft of %s", code)
        same(x.both, txt.decode(), "both of %s", code)
        same(x.countToB64(), txt.decode()[hs:], "count text of %s", code)
        same((x.byteCount("txt"), x.byteCount("bny"), x.byteSize("txt"), x.byteSize("bny")),
             (count * 4, count * 3, fs, fs * 3 // 4), "sizes of %s", code)
        same(x.version, v, "version of %s", code)
        ctx.saw("round_trips")

    x = Counter(code=code, count=count, version=v)
    check(x, "made")
    check(Counter(code=x.name, count=count, version=v), "made by name")
    check(Counter(code=code, countB64=cl.intb64(count, max(ss, 5)), version=v), "made from text count")
    tail, btail = rng.choice([b"", b"A", b"-AAB"]), rng.choice([b"", rng.randbytes(4), bnr])
    check(Counter(qb64b=txt + tail, version=v), "text bytes")
    check(Counter(qb64=(txt + tail).decode(), version=v), "text")
    check(Counter(qb2=bnr + btail, version=v), "binary")
    s = bytearray(txt + tail)
    check(Counter(qb64b=s, strip=True, version=v), "stripped text")
    same(bytes(s), tail, "left in stream by %s", code)
    s = bytearray(bnr + btail)
    check(Counter(qb2=s, strip=True, version=v), "stripped binary")
    same(bytes(s), btail, "left in stream by %s", code)

    def bad(**kwa):
        refused(ctx, "counters_refused", lambda: Counter(version=v, **kwa), f"Counter version {major} {kwa}")
    bad(code=code, count=-1 - rng.randrange(3))
    if big in tab:
        bad(code=code, count=64 ** 5 + rng.choice([0, rng.randrange(99)]))
    else:
        bad(code=code, count=64 ** tab[code][1] + rng.choice([0, 0, rng.randrange(99999)]))
    foreign = [c for c in cl.counters(3 - major) if c not in tab] + ["-0", "-9A", "A", "--", "-__"]
    c = rng.choice(foreign)
    bad(code=c, count=1)
    ftxt = (c + "A" * 8)[:8].encode()
    try:
        cl.uncounter(ftxt, major)
    except cl.Bad:
        bad(qb64b=ftxt)
        bad(qb2=int.to_bytes(cl.b64int(ftxt.decode()), 6, "big"))
    ctx.saw("counters")
    ctx.case((major, code, count))


def enclosures(ctx, rng, i):
    """Framing gives a counter of exactly the content's size, then the content."""
    from keri import kering
    from keri.core.counting import Counter
    major = 1 + i % 2
    v = kering.Vrsn_1_0 if major == 1 else kering.Vrsn_2_0
    tab = cl.counters(major)
    code = rng.choice([c for c in tab if len(c) == 2 and (major == 2 or c != "-D")])  # the code lists -D as counting quadlets
    n = rng.choice([0, 1, 2, rng.randrange(300), 4095, 4096, 4097, rng.randrange(5000)])
    binary = rng.random() < 0.5
    body = rng.randbytes(3 * n) if binary else "".join(rng.choice(cl.B64) for _ in range(4 * n)).encode()
    typ = rng.choice([bytes, bytearray, memoryview] + ([] if binary else [bytes.decode]))
    kwa = {("qb2" if binary else "qb64"): typ(body), "code": code, "version": v}
    if major == 1 and code not in QT1:
        refused(ctx, "counters_refused", lambda: Counter.enclose(**kwa), f"enclose {code}")
        return
    real = code if n < 4096 else "--" + code[1]
    txt = (real + cl.intb64(n, tab[real][1])).encode()
    head = cl.b64int(txt.decode()).to_bytes(len(txt) * 3 // 4, "big") if binary else txt
    same(bytes(Counter.enclose(**kwa)), head + body, "enclosure by %s of %d", code, n)
    kwa[("qb2" if binary else "qb64")] = typ(body + b"A")
    refused(ctx, "counters_refused", lambda: Counter.enclose(**kwa), "misaligned enclosure")
    ctx.saw("enclosures")
    ctx.case((code, n, binary, major))


def versions(ctx, rng, i):
    from keri import kering
    from keri.core.counting import Counter
    major, minor = rng.choice([(1, 0), (2, 0), (0, 0), (63, 4095), (rng.randrange(64), rng.randrange(4096))])
    want = cl.intb64(major, 1) + cl.intb64(minor, 2)
    same(Counter.verToB64(major=major, minor=minor), want, "version %s.%s", major, minor)
    same(Counter.verToB64(text=f"{major}.{minor}"), want, "version text %s.%s", major, minor)
    same(Counter.verToB64(kering.Versionage(major, minor)), want, "version %s.%s", major, minor)
    same(tuple(Counter.b64ToVer(want)), (major, minor), "version of %s", want)
    same(Counter.b64ToVer(want, texted=True), f"{major}.{minor}", "version text of %s", want)
    for m, n in ((64 + rng.randrange(9), minor), (major, 4096 + rng.randrange(9)), (-1, minor), (major, -1)):
        refused(ctx, "counters_refused", lambda: Counter.verToB64(major=m, minor=n), f"version {m}.{n}")
    for v in (kering.Vrsn_1_0, kering.Vrsn_2_0):
        same(bytes(Counter.makeGVC(v)), b"-_AAA" + cl.intb64(v.major, 1).encode() + cl.intb64(v.minor, 2).encode(), "genus code")
    ctx.saw("versions")
    ctx.case((major, minor))


CASES = [("indexers", indexers, 200 * len(ICODES), 6000 * len(ICODES)), ("counters", counters, 6000, 150000),
         ("enclosures", enclosures, 1500, 20000), ("versions", versions, 500, 20000)]
