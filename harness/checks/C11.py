"""C11: see catalog.py."""
import re
import signal

import vboot
import msggen as mg
from vh import must, same

RULE = ("seeded native key event messages of every type with all field shapes are annotated as text, bytes and byte arrays; the tokens are compared with the fields, and the stripped annotation with the message; each with "
        "truncations, trailing material, altered counts, other message types and binary text; non-trivial if the message has lists or seals")
REQUIRE = ["annotated", "icp", "rot", "ixn", "dip", "drt", "keys", "backers", "traits", "seals", "seal_kinds", "big", "weighted", "truncated_refused", "trailing_refused", "binary", "others_refused", "miscounted_refused", "relaid"]
ASSUME = []


class Slow(Exception):
    pass


def within(seconds, f, *a):
    """Result of f, or Slow."""
    def bang(*_):
        raise Slow()
    old = signal.signal(signal.SIGALRM, bang)
    signal.alarm(seconds)
    try:
        return f(*a)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def refused(f, *a):
    try:
        r = within(10, f, *a)
    except Slow:
        must(False, "annotating does not end")
    except Exception:
        return None
    return r


def make(rng, ilk):
    from keri.core.serdering import SerderKERI
    sad, saids = mg.message(rng, "KERI", 2, ilk, "CESR", big=rng.random() < 0.1)
    return SerderKERI(sad=sad, makify=True, saids={l: rng.choice("EEFGHI") for l in saids})


def expected(sad):
    """Primitives of the fields that are written as they are in the structure, in order."""
    out = [sad["d"], sad["i"]]
    if "p" in sad:
        out.append(sad["p"])
    for l in ("k", "n", "b", "br", "ba"):
        out += sad.get(l, [])
    if "di" in sad:
        out.append(sad["di"])
    return out


def annotate(ctx, rng, i):
    from keri.core.annotating import annot, denot
    ilk = rng.choice(["icp", "rot", "ixn", "dip", "drt"])
    s = make(rng, ilk)
    raw, sad = bytes(s.raw), s.sad
    ims = rng.choice([lambda: raw, lambda: bytearray(raw), lambda: memoryview(raw)])()
    a = within(20, annot, ims)
    same(type(a), str, "annotation")
    same(bytes(raw), s.raw, "message annotated")
    same(denot(a), raw, f"{ilk} message after annotating and stripping")
    ctx.saw("annotated")
    ctx.saw(ilk)
    tokens, notes = [], {}
    for line in a.splitlines():
        front, _, note = line.partition("#")
        t = front.strip()
        must(" " not in t, "line of the annotation %r holds more than one item", line)
        tokens.append(t)
        m = re.match(r"\s*'(\w+)'", note)
        if m and t:
            notes.setdefault(m[1], []).append((t, note))
    j = 0
    for e in expected(sad):
        must(e in tokens[j:], "%s of the %s message is not a line of its annotation in order", e, ilk)
        j = tokens.index(e, j) + 1
    same([notes["d"][0][0], notes["i"][0][0]], [sad["d"], sad["i"]], "identifiers named")
    must(f"sn={int(sad['s'], 16)}" in notes["s"][0][1].split(), "sequence number %s is annotated %r", sad["s"], notes["s"])
    must(f"Ilk={ilk}" in notes["t"][0][1].split(), "type is annotated %r", notes["t"])
    if "kt" in sad:
        for l, h in (("kt", s.tholder), ("nt", s.ntholder)):
            same(notes[l][0][1].split("threshold=", 1)[1], str((h.sith if h else "0")) if l == "kt" or sad["n"] or sad["nt"] != "0" else "0", f"threshold {l}")
        ctx.saw("keys", len(sad["k"]) > 1)
        ctx.saw("weighted", isinstance(sad["kt"], list))
        ctx.saw("big", len(raw) > 4 * 4096)
    ctx.saw("backers", bool(sad.get("b") or sad.get("ba")))
    ctx.saw("traits", bool(sad.get("c")))
    seals = sad.get("a") or []
    ctx.saw("seals", bool(seals))
    ctx.saw("seal_kinds", len({tuple(x) for x in seals}) > 1)
    for x in seals:
        for k, v in x.items():
            if isinstance(v, str) and len(v) >= 44:
                must(v in a, "value %s of a seal is not in the annotation", v)
    # layout does not matter for stripping
    b = "\n".join(rng.choice(["", "  ", "\t"]) + l.strip() + rng.choice(["", "  ", " # more"]) for l in a.splitlines() for _ in range(1)) + rng.choice(["", "\n", "\n\n# end\n"])
    same(denot(b), raw, "message after stripping another layout of the annotation")
    ctx.saw("relaid")
    # what is not exactly one message
    for n in {rng.randrange(1, len(raw)) for _ in range(3)}:
        must(refused(annot, raw[:n]) is None, "message cut to %s of %s bytes is annotated", n, len(raw))
        ctx.saw("truncated_refused")
    t = rng.choice([b"-AAA", b"AAAA", raw, b"E" + b"A" * 43])
    must(refused(annot, raw + t) is None, "message followed by %s is annotated", t[:20])
    ctx.saw("trailing_refused")
    if len(raw) < 4 * 4095:
        at = [m.start() for m in re.finditer(rb"-[JMVWT][A-Za-z0-9_-]{2}", raw)]
        k = rng.choice(at) if at else 0
        if k:
            bad = raw[:k + 3] + bytes([rng.choice([c for c in b"BCDZ" if c != raw[k + 3]])]) + raw[k + 4:]
            r = refused(annot, bad)
            must(r is None or denot(r) == bad, "message with an altered count loses material when annotated")
            ctx.saw("miscounted_refused", r is None)
    o = mg.message(rng, "KERI", 2, rng.choice(["rct", "qry", "rpy", "pro", "bar", "xip", "exn"]), "CESR")
    from keri.core.serdering import SerderKERI
    o = SerderKERI(sad=o[0], makify=True, saids={l: "E" for l in o[1]})
    r = refused(annot, bytes(o.raw))
    must(r is None or denot(r) == bytes(o.raw), "%s message loses material when annotated", o.ilk)
    ctx.saw("others_refused", r is None)
    import base64
    r = refused(annot, base64.urlsafe_b64decode(raw))
    must(r is None or denot(r) == raw, "binary message loses material when annotated")
    ctx.saw("binary")
    ctx.case(raw, bool(seals) or len(sad.get("k", [])) > 1)


CASES = [("annotate", annotate, 2000, 60000)]
