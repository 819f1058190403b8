"""C02: see catalog.py."""
import vboot
import nativelib
import cesrlib as cl
import cesrtab
from vh import Violation, must, same

RULE = ("seeded valid primitives, indexed signatures and counters of every code, cut at every length or altered by bit "
        "flips, character swaps, insertions and code swaps, and random streams; verdict and reading compared with an "
        "independent strict reader; non-trivial: the material is not a whole valid element")
ASSUME = ["the CESR tables fixed in harness/cesrtab.py",
          "a declared refusal is an error of the repository's own family or a ValueError or KeyError"]
REQUIRE = ["truncations_refused", "alterations_refused", "alterations_read_as_other", "pad_bits_refused", "streams",
           "not_base64_refused", "wrong_family"]
BADCHARS = b"+/=.~ \n\t!\"#%&*\x00\x7f\x80\xff\xc3"


def element(rng, kind, i=None):
    """A valid element: (text, binary)."""
    if kind == "matter":
        codes = list(cesrtab.MATTER)
        code = codes[i % len(codes)] if i is not None else rng.choice(codes)
        hs, ss, xs, fs, ls = cesrtab.MATTER[code]
        if fs is None:
            n = 3 * rng.choice([0, 1, 2, 5, 11]) + (3 - ls if ls else 0)
            return cl.matter(code, cl.intb64((n + ls) // 3, ss), rng.randbytes(n))
        return cl.matter(code, "".join(rng.choice(cl.B64) for _ in range(ss - xs)), rng.randbytes(cl.rawsize(code)))
    if kind == "indexer":
        codes = list(cesrtab.INDEXER)
        code = codes[i % len(codes)] if i is not None else rng.choice(codes)
        hs, ss, os, fs, ls = cesrtab.INDEXER[code]
        ond = 0 if code in cl.CRT else rng.randrange(64 ** os)
        return cl.indexer(code, rng.randrange(64 ** (ss - os)), ond, rng.randbytes((fs - hs - ss) * 6 // 8))
    tab = cl.counters(2 if kind == "counter2" else 1)
    codes = list(tab)
    code = codes[i % len(codes)] if i is not None else rng.choice(codes)
    hs, ss, fs = tab[code]
    txt = (code + cl.intb64(rng.randrange(64 ** min(ss, 5)), ss)).encode()
    return txt, cl.b64int(txt.decode()).to_bytes(len(txt) * 3 // 4, "big")


def oracle(kind, s, binary):
    """("ok", fields, n) | ("short",) | ("bad",)"""
    try:
        if kind == "matter":
            *f, n = cl.unmatter(s, binary)
        elif kind == "indexer":
            *f, n = cl.unindexer(s, binary)
        else:
            *f, n = cl.uncounter(s, 2 if kind == "counter2" else 1, binary)
    except cl.Short:
        return ("short",)
    except cl.Bad:
        return ("bad",)
    return ("ok", tuple(f), n)


def fields(kind, x):
    if kind == "matter":
        return x.code, x.soft, x.raw
    if kind == "indexer":
        return x.code, x.index, x.ondex, x.raw
    return x.code, x.count


def make(kind):
    from keri.core.coring import Matter
    from keri.core.indexing import Indexer
    from keri.core.counting import Counter
    from keri import kering
    if kind == "matter":
        return Matter
    if kind == "indexer":
        return Indexer
    v = kering.Vrsn_2_0 if kind == "counter2" else kering.Vrsn_1_0
    return lambda **kwa: Counter(version=v, **kwa)


def forms(s, binary, rng):
    if binary:
        yield dict(qb2=bytes(s)), None
        b = bytearray(s)
        yield dict(qb2=b, strip=True), b
    else:
        yield dict(qb64b=bytes(s)), None
        b = bytearray(s)
        yield dict(qb64b=b, strip=True), b
        try:
            yield dict(qb64=s.decode("ascii")), None
        except UnicodeDecodeError:
            try:
                yield dict(qb64=s.decode("utf-8")), None
            except UnicodeDecodeError:
                pass


def judge(ctx, rng, kind, s, binary, cut=False):
    """Give s to the reader in every form and compare with the oracle."""
    from keri import kering
    want = oracle(kind, s, binary)
    cls = make(kind)
    for kwa, stream in forms(s, binary, rng):
        try:
            x = cls(**kwa)
        except (kering.KeriError, ValueError, KeyError) as ex:
            if want[0] == "ok":
                raise Violation(f"{kind} {kwa} refused with {ex!r}, should read as {want[1]}")
            if stream is not None and bytes(stream) != bytes(s):
                raise Violation(f"{kind} refused {s!r} but consumed part of it")
            if not s and isinstance(ex, kering.EmptyMaterialError):
                pass
            elif cut and not isinstance(ex, kering.ShortageError):
                raise Violation(f"{kind} truncated to {kwa} refused with {ex!r}, not a shortage")
        else:
            if want[0] != "ok":
                raise Violation(f"{kind} {kwa} accepted as {fields(kind, x)}, should be {want[0]}")
            got = fields(kind, x)
            if got != want[1]:
                raise Violation(f"{kind} {kwa} read as {got}, should be {want[1]}")
            again = x.qb2 if binary else x.qb64b
            if again != bytes(s[:want[2]]):
                raise Violation(f"{kind} {kwa} accepted but re-encodes to {again!r}")
            if stream is not None and bytes(stream) != bytes(s[want[2]:]):
                raise Violation(f"{kind} {kwa} consumed other than its own {want[2]} bytes")
    return want


KINDS = ["matter", "matter", "indexer", "counter1", "counter2"]


def truncated(ctx, rng, i):
    """Every proper prefix of a valid element is a shortage."""
    kind = KINDS[i % 5]
    txt, bnr = element(rng, kind, i // 5)
    for s, binary in ((txt, False), (bnr, True)):
        cuts = range(len(s)) if len(s) <= 100 else sorted(rng.sample(range(len(s)), 30) + list(range(8)))
        for n in cuts:
            want = judge(ctx, rng, kind, s[:n], binary, cut=True)
            if want[0] == "ok":
                raise Violation(f"oracle error: prefix {s[:n]} of {s} complete")
            ctx.saw("truncations_refused")
    ctx.case(("t", kind, txt))


def mutate(rng, s, binary):
    s = bytearray(s)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not s:
            break
        p = rng.randrange(len(s)) if rng.random() < 0.6 else min(rng.randrange(8), len(s) - 1)
        c = rng.random()
        if binary:
            if c < 0.6:
                s[p] ^= 1 << rng.randrange(8)
            elif c < 0.8:
                s[p] = rng.choice([0, 0xff, 0xfb, rng.randrange(256)])
            elif c < 0.9:
                del s[p]
            else:
                s.insert(p, rng.randrange(256))
        else:
            if c < 0.55:
                s[p] = ord(rng.choice(cl.B64))
            elif c < 0.75:
                s[p] = rng.choice(BADCHARS)
            elif c < 0.85:
                s[p] ^= 1 << rng.randrange(8)
            elif c < 0.92:
                del s[p]
            else:
                s.insert(p, rng.choice(BADCHARS + cl.B64.encode()))
    return bytes(s)


def altered(ctx, rng, i):
    kind = KINDS[i % 5]
    txt, bnr = element(rng, kind, i // 5)
    for _ in range(6):
        binary = rng.random() < 0.4
        src = bnr if binary else txt
        s = mutate(rng, src, binary) + rng.choice([b"", b"", rng.randbytes(3), b"AAAA"])
        if s == src:
            continue
        want = judge(ctx, rng, kind, s, binary)
        ctx.saw("alterations_read_as_other" if want[0] == "ok" else "alterations_refused")
        ctx.case(("a", kind, s))
    if i < 2:
        ctx.sample(dict(kind=kind, whole=txt.decode(), altered=repr(s)))


def padbits(ctx, rng, i):
    """Every pad bit and lead bit, one at a time, and each body position with a foreign character."""
    kind = ["matter", "indexer"][i % 2]
    txt, bnr = element(rng, kind, i // 2)
    for bit in range(len(bnr) * 8):
        b = bytearray(bnr)
        b[bit // 8] ^= 0x80 >> (bit % 8)
        n = int.from_bytes(b, "big")
        t = cl.text(n, len(txt))
        for s, binary in ((t, False), (bytes(b), True)):
            want = judge(ctx, rng, kind, s, binary)
            if want[0] == "bad":
                ctx.saw("pad_bits_refused")
        if bit > 120 and rng.random() < 0.7:
            break
    p = rng.randrange(len(txt))
    for c in BADCHARS:
        s = txt[:p] + bytes([c]) + txt[p + 1:]
        if judge(ctx, rng, kind, s, False)[0] == "bad":
            ctx.saw("not_base64_refused")
    ctx.case(("p", txt))


def streams(ctx, rng, i):
    """Random material and elements of other families."""
    kind = KINDS[i % 5]
    c = rng.random()
    if c < 0.5:
        other = rng.choice([k for k in KINDS if k != kind])
        txt, bnr = element(rng, other)
        ctx.saw("wrong_family")
    else:
        n = rng.randint(0, 60) * 4
        txt = "".join(rng.choice(cl.B64) for _ in range(n)).encode()
        if rng.random() < 0.5:
            txt = rng.choice([b"0", b"1AA", b"4", b"5A", b"7AA", b"-", b"--", b"-_AAA", b"2", b"3", b"_", b"9__"]) + txt
        bnr = rng.randbytes(rng.randint(0, 100))
    judge(ctx, rng, kind, txt, False)
    judge(ctx, rng, kind, bnr, True)
    ctx.saw("streams")
    ctx.case(("s", kind, txt, bnr))


CASES = [("truncated", truncated, 1500, 20000), ("altered", altered, 12000, 300000), ("padbits", padbits, 500, 8000),
         ("streams", streams, 12000, 300000)]
