"""C10: see catalog.py."""
import hashlib
import vboot
import nativelib
import pysodium
import blake3
import cesrlib as cl
from vh import Violation, must, same

RULE = ("seeded seeds, messages (empty to long) and indices for every signing suite with exhaustive kinds of alteration "
        "(message, key, each part of the signature, length), every cipher code with several primitives and streams, and "
        "every digest algorithm; non-trivial: every case")
ASSUME = ["libsodium, blake3 and the cryptography package are stand-ins over OpenSSL and pure Python, validated by test vectors",
          "replacing s by n - s in an ECDSA signature gives another valid signature and is not an alteration in this sense"]
REQUIRE = ["signatures", "alterations_refused", "wrong_keys_refused", "malformed_refused", "indexed", "decrypted",
           "wrong_keys_cannot_decrypt", "tampered_ciphers_refused", "digests", "digest_alterations"]
# seed code, verkey codes, signature code, indexed codes: both, current, big both, big current
SUITES = [("A", "D", "B", "0B", "A", "B", "2A", "2B"), ("J", "1AAB", "1AAA", "0C", "C", "D", "2C", "2D"),
          ("Q", "1AAJ", "1AAI", "0I", "E", "F", "2E", "2F")]


def message(rng):
    return rng.choice([b"", b"\0", b"a", rng.randbytes(1), rng.randbytes(32), rng.randbytes(300), b"x" * 5000,
                       b'{"v":"KERI10JSON000000_"}'])


def seedof(rng):
    return rng.choice([rng.randbytes(32), rng.randbytes(32), b"\1" * 32, bytes(31) + b"\1"])


def says(ctx, verfer, sig, ser):
    """True, or False for any refusal."""
    try:
        r = verfer.verify(sig, ser)
    except Exception:
        ctx.saw("refused_by_exception")
        return False
    must(r is True or r is False, "verify returned %r", r)
    return r


def sign(ctx, rng, i):
    from keri.core.signing import Signer
    from keri.core.coring import Verfer, Cigar
    from keri.core.indexing import Siger
    suite = SUITES[0] if i % 8 else SUITES[1 + i // 8 % 2]
    seedcode, tcode, ncode, sigcode, both, crt, bigboth, bigcrt = suite
    seed, msg = seedof(rng), message(rng)
    trans = rng.random() < 0.5
    s = Signer(raw=seed, code=seedcode, transferable=trans)
    v = s.verfer
    same((v.code, v.transferable), (tcode if trans else ncode, trans), "verification key code")
    same(Signer(qb64=s.qb64, transferable=trans).verfer.qb64, v.qb64, "signer from its seed")
    if seedcode == "A":
        same(v.raw, pysodium.crypto_sign_seed_keypair(seed)[0], "public key of seed")
    kind = rng.choice(["plain", "both", "crt", "dual"])
    index = rng.choice([0, 1, 63, 64, 65, 4095, rng.randrange(64), rng.randrange(4096)])
    ondex = rng.choice([0, 1, 63, 64, index, rng.randrange(4096)])
    if kind == "plain":
        x = s.sign(msg)
        must(type(x) is Cigar, "type of signature")
        same(x.code, sigcode, "signature code")
    else:
        if kind == "both":
            x = s.sign(msg, index=index)
            want = (both if index < 64 else bigboth, index, index)
        elif kind == "crt":
            x = s.sign(msg, index=index, only=True, ondex=rng.choice([None, ondex]))
            want = (crt if index < 64 else bigcrt, index, None)
        else:
            x = s.sign(msg, index=index, ondex=ondex)
            want = (both if index < 64 and ondex == index else bigboth, index, ondex)
        must(type(x) is Siger, "type of signature")
        same((x.code, x.index, x.ondex), want, "indexed signature")
        y = Siger(qb64b=x.qb64b)
        same((y.code, y.index, y.ondex, y.raw), (*want, x.raw), "indexed signature read back")
        ctx.saw("indexed")
    same(x.verfer.qb64, v.qb64, "key named by the signature")
    sig = x.raw
    same(len(sig), 64, "signature size")
    if seedcode == "A":
        pysodium.crypto_sign_verify_detached(sig, msg, v.raw)
    must(says(ctx, v, sig, msg), "own signature refused")
    must(says(ctx, Verfer(qb64=v.qb64), sig, msg), "own signature refused by key read back")
    ctx.saw("signatures")
    # alterations
    alts = []
    if msg:
        p = rng.randrange(len(msg))
        alts.append((sig, msg[:p] + bytes([msg[p] ^ (1 << rng.randrange(8))]) + msg[p + 1:]))
        alts.append((sig, msg[:-1]))
    alts += [(sig, msg + b"\0"), (sig, b"other" + msg)]
    for part in (0, 32):
        p = part + rng.randrange(32)
        alts.append((sig[:p] + bytes([sig[p] ^ (1 << rng.randrange(8))]) + sig[p + 1:], msg))
    alts += [(sig[32:] + sig[:32], msg), (sig[:32] + bytes(32), msg), (bytes(32) + sig[32:], msg)]
    if seedcode == "A":  # s + group order names the same number
        l = 2 ** 252 + 27742317777372353535851937790883648493
        sl = int.from_bytes(sig[32:], "little") + l
        if sl < 2 ** 256:
            alts.append((sig[:32] + sl.to_bytes(32, "little"), msg))
    else:
        alts = rng.sample(alts, 3)
    for asig, amsg in alts:
        must(not says(ctx, v, asig, amsg), "altered signature or message accepted: %s %s", asig, amsg[:50])
        ctx.saw("alterations_refused")
    for asig in (sig[:-1], sig[:32], b"", bytes(64), b"\xff" * 64, sig + b"\0", sig + sig[:1], b"\0" + sig):
        if seedcode != "A" and rng.random() < 0.5:
            continue
        must(not says(ctx, v, asig, msg), "malformed signature accepted: %s", asig)
        ctx.saw("malformed_refused")
    # keys
    other = Signer(raw=rng.randbytes(32), code=seedcode, transferable=trans).verfer
    must(not says(ctx, other, sig, msg), "accepted under another key")
    p = rng.randrange(len(v.raw))
    raw = v.raw[:p] + bytes([v.raw[p] ^ (1 << rng.randrange(8))]) + v.raw[p + 1:]
    must(not says(ctx, Verfer(raw=raw, code=v.code), sig, msg), "accepted under an altered key")
    if seedcode != "A":
        third = SUITES[3 - SUITES.index(suite)]
        must(not says(ctx, Verfer(raw=v.raw, code=third[1]), sig, msg), "accepted under another suite")
    for c in ("E", "A", "M", "0A", "C"):
        try:
            Verfer(raw=v.raw + bytes(99), code=c)
        except ValueError:
            ctx.saw("malformed_refused")
        else:
            raise Violation(f"verification key with code {c}")
    ctx.saw("wrong_keys_refused")
    ctx.case((seed, msg, kind, index, ondex))
    if i < 2:
        ctx.sample(dict(suite=seedcode, kind=kind, signature=x.qb64))


def salts(ctx, rng, i):
    """Stretching is a function of salt and path, different for each."""
    from keri.core.signing import Salter
    raw = rng.randbytes(16)
    s = Salter(raw=raw)
    path, n = b"ab"[:rng.randrange(3)].decode(), rng.randint(1, 3)
    a = s.signers(count=n, path=path, temp=True, start=rng.randrange(3))
    b = [Salter(qb64=s.qb64).signer(path=path + f"{k:x}", temp=True) for k in range(5)]
    keys = [x.verfer.qb64 for x in b]
    same(len(set(keys)), 5, "distinct paths give distinct keys")
    for x in a:
        must(x.verfer.qb64 in keys, "key of path not reproduced")
    c = Salter(raw=bytes([raw[0] ^ 1]) + raw[1:]).signer(path=path + "0", temp=True)
    must(c.verfer.qb64 != keys[0], "other salt gives the same key")
    same(s.stretch(size=32, path=path, temp=True), pysodium.crypto_pwhash(32, path, raw, 1, 8192, 2), "stretched seed")
    ctx.saw("stretched")
    ctx.case((raw, path))


def refused(ctx, name, fn, what):
    try:
        x = fn()
    except Exception:
        ctx.saw(name)
    else:
        raise Violation(f"{what} accepted as {x!r}"[:1500])


def boxes(ctx, rng, i):
    from keri.core.signing import Signer, Salter, Encrypter, Decrypter, Cipher, Streamer
    from keri.core.coring import Matter, Texter
    seed = Signer(raw=rng.randbytes(32), transferable=rng.random() < 0.5)
    enc = Encrypter(verkey=seed.verfer.qb64)
    dec = Decrypter(seed=seed.qb64b)
    same(enc.raw, pysodium.crypto_scalarmult_curve25519_base(dec.raw), "key pair halves belong together")
    enc = rng.choice([enc, Encrypter(qb64=enc.qb64), Encrypter(raw=enc.raw)])
    dec = rng.choice([dec, Decrypter(qb64=dec.qb64), Decrypter(raw=dec.raw)])
    must(enc.verifySeed(seed.qb64b), "own seed not recognised")
    other = Signer(raw=rng.randbytes(32))
    must(not enc.verifySeed(other.qb64b), "foreign seed recognised")
    wrong = Decrypter(seed=other.qb64b)
    kind = i % 6
    trans = rng.random() < 0.5
    if kind == 0:
        prim, kwa, klas, plain = Salter(raw=rng.randbytes(16)), {}, None, None
    elif kind == 1:
        prim, kwa, klas, plain = Signer(raw=rng.randbytes(32), transferable=trans), {}, None, None
    elif kind == 2:  # any primitive as text
        code, soft = cl.varcode("4B", n := rng.randrange(60))
        prim = Matter(raw=rng.randbytes(n), code=code) if rng.random() < .5 else Matter(raw=rng.randbytes(32), code="E")
        kwa, klas = dict(code="4D"), Matter
    elif kind == 3:
        prim, kwa, klas = Matter(raw=rng.randbytes(17), code="U"), dict(code="4E"), Matter
    elif kind == 4:
        prim = Texter(text="".join(rng.choice("aé\n\0") for _ in range(rng.randrange(50))))
        kwa, klas = dict(code=rng.choice(["4D", "4E"])), Texter
    else:
        stream = rng.choice([rng.randbytes(rng.randint(1, 4000)), b"\0", bytearray(b"-AAB" * 9)])
        prim, kwa, klas = Streamer(stream), dict(code="4C"), None
    c = enc.encrypt(prim=prim, **kwa)
    form = rng.randrange(4)
    if form == 0:
        out = dec.decrypt(cipher=c, klas=klas, transferable=trans)
    elif form == 1:
        out = dec.decrypt(qb64=c.qb64b, klas=klas, transferable=trans)
    elif form == 2:
        out = dec.decrypt(qb2=c.qb2, klas=klas, transferable=trans)
    else:
        out = Cipher(qb64=c.qb64).decrypt(seed=seed.qb64b, klas=klas, transferable=trans)
    if kind == 5:
        same(bytes(out.stream), bytes(prim.stream), "stream decrypted")
        plain = bytes(prim.stream)
        c2 = enc.encrypt(ser=prim.stream)
        same(dec.decrypt(cipher=c2, bare=True), plain, "serialization decrypted")
    else:
        same((out.qb64, out.raw, type(out)), (prim.qb64, prim.raw, type(prim)), "primitive decrypted")
        plain = prim.qb2 if c.code[1:] in ("E", "AAE") else prim.qb64b
        if kind == 1:
            same(out.verfer.qb64, prim.verfer.qb64, "signer decrypted")
    same(bytes(dec.decrypt(cipher=c, bare=True)), bytes(plain), "plain text")
    if len(plain) >= 8:
        must(bytes(plain) not in c.raw, "plain text visible")
    must(enc.encrypt(prim=prim, **kwa).raw != c.raw, "encryption is not randomised")
    ctx.saw("decrypted")
    refused(ctx, "wrong_keys_cannot_decrypt", lambda: wrong.decrypt(cipher=c, bare=True), "wrong key decrypts")
    refused(ctx, "wrong_keys_cannot_decrypt", lambda: c.decrypt(seed=other.qb64b, bare=True), "wrong key decrypts")
    for _ in range(3):
        p = rng.randrange(len(c.raw))
        raw = c.raw[:p] + bytes([c.raw[p] ^ (1 << rng.randrange(8))]) + c.raw[p + 1:]
        refused(ctx, "tampered_ciphers_refused", lambda: dec.decrypt(cipher=Cipher(raw=raw, code=c.code), bare=True), "altered cipher")
    refused(ctx, "tampered_ciphers_refused", lambda: dec.decrypt(cipher=Cipher(raw=c.raw[:40], code="4C"), bare=True), "cut cipher")
    refused(ctx, "malformed_refused", lambda: Encrypter(verkey=Signer(raw=rng.randbytes(32), code="J").verfer.qb64), "foreign key suite")
    ctx.case((kind, bytes(plain)))


DIGS = {"E": lambda m: blake3.blake3(m).digest(), "F": lambda m: hashlib.blake2b(m, digest_size=32).digest(),
        "G": lambda m: hashlib.blake2s(m).digest(), "H": lambda m: hashlib.sha3_256(m).digest(),
        "I": lambda m: hashlib.sha256(m).digest(), "0D": lambda m: blake3.blake3(m).digest(length=64),
        "0E": lambda m: hashlib.blake2b(m).digest(), "0F": lambda m: hashlib.sha3_512(m).digest(),
        "0G": lambda m: hashlib.sha512(m).digest()}


def digests(ctx, rng, i):
    from keri.core.coring import Diger
    code = list(DIGS)[i % len(DIGS)]
    m = message(rng) or b"z"
    d = Diger(ser=m, code=code)
    same((d.raw, d.code), (DIGS[code](m), code), "digest")
    for x in (d, Diger(qb64=d.qb64), Diger(qb2=d.qb2)):
        must(x.verify(m) is True, "own digest refused")
        p = rng.randrange(len(m))
        for bad in (m[:p] + bytes([m[p] ^ (1 << rng.randrange(8))]) + m[p + 1:], m + b"\0", m[:-1], b""):
            must(x.verify(bad) is False, "digest accepts altered content")
            ctx.saw("digest_alterations")
    o = list(DIGS)[rng.randrange(len(DIGS))]
    od, bad = Diger(ser=m, code=o), Diger(ser=m + b"!", code=o)
    for kwa, kbad in ((dict(dig=od.qb64), dict(dig=bad.qb64)), (dict(dig=od.qb64b), dict(dig=bad.qb64b)),
                      (dict(diger=od), dict(diger=bad))):
        must(d.compare(m, **kwa) is True, "equal content compares unequal")
        must(d.compare(m, **kbad) is False, "other content compares equal")
        if o != code:
            must(d.compare(m + b"?", **kwa) is False, "altered content compares equal")
    ctx.saw("digests")
    ctx.case((code, m))


CASES = [("sign", sign, 4000, 60000), ("salts", salts, 200, 2000), ("boxes", boxes, 1800, 30000),
         ("digests", digests, 2700, 60000)]
