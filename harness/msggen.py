"""Generated protocol messages and an independent serializer (JSON, CBOR, MGPK)."""
import hashlib
import json
import blake3
import cbor2
import msgpack
import cesrlib as cl

DIGS = {"E": lambda m: blake3.blake3(m).digest(), "F": lambda m: hashlib.blake2b(m, digest_size=32).digest(),
        "G": lambda m: hashlib.blake2s(m).digest(), "H": lambda m: hashlib.sha3_256(m).digest(),
        "I": lambda m: hashlib.sha256(m).digest(), "0D": lambda m: blake3.blake3(m).digest(length=64),
        "0E": lambda m: hashlib.blake2b(m).digest(), "0F": lambda m: hashlib.sha3_512(m).digest(),
        "0G": lambda m: hashlib.sha512(m).digest()}
SER = {"JSON": lambda d: json.dumps(d, separators=(",", ":"), ensure_ascii=False).encode(),
       "CBOR": cbor2.dumps, "MGPK": msgpack.dumps}
FS = {c: 44 if len(c) == 1 else 88 for c in DIGS}

ROUTES = ["ksn", "tsn/registry", "logs", "mbx", "loc/scheme", "end/role/add", "credential/issue", "multisig/icp", "a/b/c/d"]
TRAITS = ["EO", "DND", "RB", "NRB", "DID"]
WORDS = ["", "a", "name", "Ünï", "日本", "😀", "two words", 'quote"', "back\\slash", "tab\t", "0", "A" * 30, "true", "-", "_x", "1.5",
         "line\nbreak", "http://x.y:80/z?q=1"]
LABELS = ["a", "b", "name", "role", "eid", "url", "x1", "LEI", "Zz9", "q_r", "dt", "i", "s", "kind"]


def digest(rng, codes=("E", "E", "E", "F", "G", "H", "I")):
    c = rng.choice(codes)
    return cl.matter(c, "", rng.randbytes(32))[0].decode()


def key(rng, nontrans=False):
    return cl.matter("B" if nontrans else "D", "", rng.randbytes(32))[0].decode()


def prefix(rng):
    return rng.choice([key, key, digest])(rng)


def salt(rng):
    return cl.matter("0A", "", rng.randbytes(16))[0].decode()


def hexs(rng):
    return f"{rng.choice([0, 1, 2, 9, 10, 15, 16, 255, 256, rng.randrange(2 ** 16), rng.randrange(2 ** 32), rng.randrange(2 ** 64)]):x}"


def stamp(rng):
    return (f"{rng.randint(1970, 2199)}-{rng.randint(1, 12):02}-{rng.randint(1, 28):02}T{rng.randint(0, 23):02}:"
            f"{rng.randint(0, 59):02}:{rng.randint(0, 59):02}.{rng.randrange(10 ** 6):06}{rng.choice(['+00:00', '-06:00', '+05:30'])}")


def threshold(rng, n):
    if n and rng.random() < 0.3:
        if n == 1:
            return rng.choice([["1"], "1"])
        if rng.random() < 0.3 and n >= 2:
            k = rng.randint(1, n - 1)
            return [[f"1/{k}"] * k if k > 1 else ["1"], [f"1/{n - k}"] * (n - k) if n - k > 1 else ["1"]]
        return [f"1/{n}"] * n if rng.random() < 0.5 else ["1/2"] * n
    return f"{rng.randint(1, n):x}" if n else "0"


def value(rng, depth=0):
    c = rng.random()
    if depth < 3 and c < 0.2:
        return {k: value(rng, depth + 1) for k in rng.sample(LABELS, rng.randint(0, 4))}
    if depth < 3 and c < 0.32:
        return [value(rng, depth + 1) for _ in range(rng.randint(0, 4))]
    return rng.choice([rng.choice(WORDS), rng.choice(WORDS), digest(rng), key(rng), stamp(rng), rng.randrange(-5, 2 ** 40),
                       0, 1, True, False, None, 1.5, -0.25])


def mapping(rng, least=0):
    return {k: value(rng, 1) for k in rng.sample(LABELS, rng.randint(least, 5))}


def seal(rng):
    c = rng.randrange(7)
    if c == 6:
        return dict(t=rng.choice(["YKERIBAA", "YKERICAA", "0OKERICAACAA", "0OACDCCAACAA"]), d=digest(rng))
    if c == 0:
        return dict(d=digest(rng))
    if c == 1:
        return dict(rd=digest(rng))
    if c == 2:
        return dict(s=hexs(rng), d=digest(rng))
    if c == 3:
        return dict(i=prefix(rng), s=hexs(rng), d=digest(rng))
    if c == 4:
        return dict(i=prefix(rng))
    return dict(bi=key(rng, True), d=digest(rng))


def seals(rng):
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        s = seal(rng)
        out += [s] * 1 if rng.random() < 0.7 else [s, seal(rng)]
    return out


def keyset(rng, big=False):
    return [key(rng) for _ in range(rng.choice([400]) if big else rng.choice([1, 1, 2, 3, 5]))]


def section(rng, said="d"):
    m = {said: ""}
    m.update({k: v for k, v in mapping(rng).items() if k not in (said, "d")})
    return m


def body(rng, proto, major, ilk, big=False):
    """Fields after v and t, with identifier fields left empty, and which are identifiers."""
    dig = lambda: digest(rng)
    f = {}
    if proto == "KERI":
        if ilk in ("icp", "dip"):
            ks = keyset(rng, big)
            basic = ilk == "icp" and rng.random() < 0.3
            nxt = [dig() for _ in range(rng.randint(0, 3))]
            wits = [key(rng, True) for _ in range(rng.choice([0, 0, 1, 3]))]
            kt = threshold(rng, len(ks))
            if basic:
                ks, kt = ks[:1], "1"
            f = dict(d="", i=ks[0] if basic else "", s="0", kt=kt, k=ks, nt=threshold(rng, len(nxt)), n=nxt,
                     bt=f"{rng.randint(0, len(wits)):x}", b=wits, c=rng.sample(TRAITS, rng.randint(0, 2)), a=seals(rng))
            if ilk == "dip":
                f["di"] = prefix(rng)
        elif ilk in ("rot", "drt"):
            ks = keyset(rng, big)
            nxt = [dig() for _ in range(rng.randint(0, 3))]
            f = dict(d="", i=dig() if ilk == "drt" else prefix(rng), s=hexs(rng), p=dig(), kt=threshold(rng, len(ks)), k=ks,
                     nt=threshold(rng, len(nxt)), n=nxt, bt=f"{rng.randint(0, 3):x}", br=[key(rng, True) for _ in range(rng.randint(0, 2))],
                     ba=[key(rng, True) for _ in range(rng.randint(0, 2))])
            if major == 2:
                f["c"] = rng.sample(TRAITS, rng.randint(0, 2))
            f["a"] = seals(rng)
        elif ilk == "ixn":
            f = dict(d="", i=prefix(rng), s=hexs(rng), p=dig(), a=seals(rng))
        elif ilk == "rct":
            f = dict(d=dig(), i=prefix(rng), s=hexs(rng))
        elif ilk in ("qry", "pro", "rpy", "bar"):
            f = dict(d="", i=prefix(rng), dt=stamp(rng), r=rng.choice(ROUTES))
            if major == 1:
                del f["i"]
            if ilk in ("qry", "pro"):
                f["rr"] = rng.choice(ROUTES + [""])
                f["q"] = mapping(rng)
            else:
                f["a"] = mapping(rng)
        elif ilk == "xip":
            f = dict(d="", u=salt(rng), i=prefix(rng), ri=prefix(rng), dt=stamp(rng), r=rng.choice(ROUTES), q=mapping(rng), a=mapping(rng))
        elif ilk == "exn" and major == 2:
            f = dict(d="", i=prefix(rng), ri=rng.choice(["", prefix(rng)]), x=rng.choice(["", dig()]), p=rng.choice(["", dig()]), dt=stamp(rng), r=rng.choice(ROUTES), q=mapping(rng), a=mapping(rng))
        elif ilk == "exn":
            f = dict(d="", i=prefix(rng), rp=rng.choice(["", prefix(rng)]), p=rng.choice(["", dig()]), dt=stamp(rng), r=rng.choice(ROUTES),
                     q=mapping(rng), a=mapping(rng), e=mapping(rng))
        elif ilk == "vcp":
            f = dict(d="", i="", ii=prefix(rng), s="0", c=rng.sample(["NB"], rng.randint(0, 1)), bt="0", b=[], n=salt(rng))
        elif ilk == "vrt":
            f = dict(d="", i=dig(), p=dig(), s=hexs(rng), bt="0", br=[], ba=[key(rng, True)])
        elif ilk == "iss":
            f = dict(d="", i=dig(), s="0", ri=dig(), dt=stamp(rng))
        elif ilk == "rev":
            f = dict(d="", i=dig(), s="1", ri=dig(), p=dig(), dt=stamp(rng))
        elif ilk == "bis":
            f = dict(d="", i=dig(), ii=dig(), s="0", ra=dict(i=dig(), s=hexs(rng), d=dig()), dt=stamp(rng))
        elif ilk == "brv":
            f = dict(d="", i=dig(), s="1", p=dig(), ra=dict(i=dig(), s=hexs(rng), d=dig()), dt=stamp(rng))
    else:
        u = rng.choice([salt(rng), cl.matter("0A", "", rng.randbytes(16))[0].decode()])
        if ilk in (None, "acm", "ace", "act", "acg"):
            reg = "ri" if major == 1 or ilk == "ace" else "rd"
            f = dict(d="", u=u, i=prefix(rng))
            f[reg] = dig()
            f["s"] = dig()
            if ilk in ("acg",) or ilk != "act" and rng.random() < 0.3:
                f["A"] = dig()
            else:
                f["a"] = dig()
            f.update(e=dig(), r=dig())
            if ilk not in ("act", "acg"):
                for k in ("u", reg, "a", "A", "e", "r"):
                    if k in f and rng.random() < 0.3:
                        del f[k]
            if ilk == "ace" and rng.random() < 0.5:
                f["extra"] = value(rng)
        elif ilk == "rip":
            f = dict(d="", u=u, i=prefix(rng), n="0", dt=stamp(rng))
        elif ilk == "bup":
            f = dict(d="", rd=dig(), n=hexs(rng), p=dig(), dt=stamp(rng), b=dig())
        elif ilk == "upd":
            f = dict(d="", rd=dig(), n=hexs(rng), p=dig(), dt=stamp(rng), td=rng.choice(["", dig()]), ts=rng.choice(["issued", "revoked", "", "two words"]))
        else:
            return None
    return f


def vstring(proto, major, kind, size, gv="CAA"):
    if major == 1:
        return f"{proto}10{kind}{size:06x}_"
    s = cl.intb64(size, 4)
    return f"{proto}CAA{gv}{kind}{s}."


def finish(sad, kind, codes):
    """Complete a structure (version size, identifiers) and its bytes; codes: identifier field -> digest code.
    sad['v'] must have the right shape; size is filled in."""
    sad = dict(sad)
    for l, c in codes.items():
        sad[l] = "#" * FS[c]
    v1 = sad["v"].endswith("_")
    n = len(SER[kind](sad))
    sad["v"] = sad["v"][:10] + f"{n:06x}_" if v1 else sad["v"][:-5] + cl.intb64(n, 4) + "."
    raw = SER[kind](sad)
    for l, c in codes.items():
        sad[l] = cl.matter(c, "", DIGS[c](raw))[0].decode()
    return sad, SER[kind](sad)


ILKS = [("KERI", 1, i) for i in ("icp", "rot", "ixn", "dip", "drt", "rct", "qry", "rpy", "pro", "bar", "exn",
                                 "vcp", "vrt", "iss", "rev", "bis", "brv")] + \
       [("KERI", 2, i) for i in ("icp", "rot", "ixn", "dip", "drt", "rct", "qry", "rpy", "pro", "bar", "xip", "exn")] + \
       [("ACDC", 1, i) for i in (None, "ace")] + \
       [("ACDC", 2, i) for i in (None, "acm", "ace", "act", "acg", "rip", "bup", "upd")]


def message(rng, proto, major, ilk, kind, big=False):
    """(structure without identifiers, identifier fields) of one message."""
    f = body(rng, proto, major, ilk, big)
    sad = dict(v=vstring(proto, major, kind, 0))
    if ilk is not None:
        sad["t"] = ilk
    sad.update(f)
    saids = [l for l in ("d", "i") if sad.get(l) == "" and not (l == "i" and ilk not in ("icp", "dip", "vcp"))]
    return sad, saids
