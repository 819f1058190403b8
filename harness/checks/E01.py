"""E01: see catalog.py."""
import json

import vboot
import pysodium
import cesrlib as cl
import kellib as kl
from vh import must, same

RULE = ("each case makes signature headers from random markers (several signages, indexed or not, tagged or not, optional parameters) and reads them back; signs random requests with random covered fields and "
        "parameters and verifies them from the parsed headers with an independently built signature base, unaltered and with single alterations; runs the request validator with right, missing, exchanged and "
        "altered signatures; splits message streams into requests; non-trivial if a genuine request verified and an altered one did not")
REQUIRE = ["signages", "indexed", "plain", "tagged", "several", "params", "made", "verified", "altered_refused", "uncovered_ignored", "spaces_ignored", "absent_fields", "several_inputs", "no_created",
           "request_accepted", "request_refused", "several_keys", "streams", "requests", "mixed_refused", "other_kind", "by_hab", "by_signers", "read_requests"]
ASSUME = ["header values carry no line breaks; parameter texts are printable ASCII", "signatures over a request are verified by rebuilding the signature base from the parsed input header"]


def texts(rng, n=10):
    return "".join(rng.choice("abcXYZ019-_.:/+") for _ in range(rng.randint(1, n)))


def mk(rng):
    return kl.Key(rng)


def signages(ctx, rng, i):
    from keri import end
    from keri.core import Cigar, Siger
    from keri.end.ending import Signage, designature, signature
    from keri.core import coring
    out, want = [], []
    for _ in range(rng.randint(1, 4)):
        indexed = rng.random() < 0.5
        n = rng.randint(1, 4)
        ser = rng.randbytes(12)
        keys = [mk(rng) for _ in range(n)]
        idx = rng.sample(range(70), n)
        if indexed:
            ms = [Siger(raw=k.sign(ser), index=j, **({} if j < 64 else dict(code="2A"))) for k, j in zip(keys, idx)]
        else:
            ms = [Cigar(raw=k.sign(ser), code="0B", verfer=coring.Verfer(qb64=k.qb64)) for k in keys]
        tags = None
        if rng.random() < 0.5:
            tags = rng.sample(["sig0", "wit0", "wit1", "choice", "0", "1", "kel"], n)
            ctx.saw("tagged")
        opt = {k: v for k, v in dict(signer=kl.Key(rng).qb64, ordinal=f"{rng.randrange(99):x}", digest=kl.Key(rng).qb64, kind="CESR").items() if rng.random() < 0.4}
        ctx.saw("params", bool(opt))
        told = indexed if tags is None and rng.random() < 0.5 or tags is not None and rng.random() < 0.5 else None
        out.append(Signage(markers=dict(zip(tags, ms)) if tags else ms, indexed=told, signer=opt.get("signer"), ordinal=opt.get("ordinal"), digest=opt.get("digest"), kind=opt.get("kind")))
        want.append((dict(zip(tags or [str(m.index) if indexed else m.verfer.qb64 for m in ms], [m.qb64 for m in ms])), indexed, opt.get("signer"), opt.get("ordinal"), opt.get("digest"), opt.get("kind", "CESR")))
        ctx.saw("indexed" if indexed else "plain")
    ctx.saw("several", len(out) > 1)
    head = signature(out)
    same(list(head), ["Signature"], "header made")
    # independent rendering
    lines = []
    for markers, indexed, signer, ordinal, digest, kind in want:
        o = [("indexed", "?1" if indexed else "?0")]
        o += [(k, v) for k, v in (("signer", signer), ("ordinal", ordinal), ("digest", digest)) if v]
        lines.append((o, markers))
    val = head["Signature"]
    if rng.random() < 0.4:
        val = val.replace(";", "; ").replace(",", ", ")
    got = designature(val)
    same(len(got), len(want), "signages read")
    for g, w in zip(got, want):
        same(({t: m.qb64 for t, m in g.markers.items()}, g.indexed, g.signer, g.ordinal, g.digest, g.kind), w, "signage read back")
        same(list(g.markers), list(w[0]), "order of markers")
        for m in g.markers.values():
            must(isinstance(m, Siger if g.indexed else Cigar), "marker of another sort")
        ctx.saw("signages")
    for part, (o, markers) in zip(head["Signature"].split(","), lines):
        for k, v in o + list(markers.items()):
            must(f'{k}="{v}"' in part.split(";"), "header lacks %s=%r", k, v)
    # a list must be all of one sort
    k = mk(rng)
    a, b = Siger(raw=k.sign(b"1"), index=0), Cigar(raw=k.sign(b"1"), code="0B", verfer=coring.Verfer(qb64=k.qb64))
    for ms, told in (([a, b], None), ([b, a], None), ([a], False), ([b], True)):
        try:
            signature([Signage(markers=ms, indexed=told, signer=None, ordinal=None, digest=None, kind=None)])
        except ValueError:
            ctx.saw("mixed_refused")
        else:
            must(False, "signage mixing indexed and other signatures is accepted")
    # other kinds pass through as given
    s = Signage(markers=dict(x=a), indexed=True, signer=None, ordinal=None, digest=None, kind="hex")
    g, = designature(signature([s])["Signature"])
    same((g.markers, g.kind), (dict(x=a.qb64), "hex"), "signage of another kind")
    ctx.saw("other_kind")
    bad = rng.choice([head["Signature"].replace('indexed="?1";', "").replace('indexed="?0";', ""), "abc", "", ";;", 'indexed="?1";0="xyz"', 'indexed="?1";0="' + a.qb64[:-4] + '"', 'indexed="?0";0="' + b.qb64[:50] + '"'])
    try:
        designature(bad)
    except Exception:
        pass
    else:
        must(False, "improper signature header %r is accepted", bad)
    ctx.case((val,), len(out) > 1)


FIELDS = ["Content-Type", "Signify-Resource", "Signify-Timestamp", "Host", "X-One", "x-two", "Content-Digest"]


def base(method, path, headers, name_fields, params):
    """Signature base as documented, from what the receiver has."""
    low = {}
    for k, v in headers:
        low.setdefault(k.lower(), v)
    lines = []
    for f in name_fields:
        if f == "@method":
            lines.append(f'"@method": {method}')
        elif f == "@path":
            lines.append(f'"@path": {path}')
        elif f in low:
            lines.append(f'"{f}": {low[f].strip()}')
    p = "(" + " ".join(name_fields) + ")" + "".join(f";{k}={v}" for k, v in params if v is not None)
    lines.append(f'"@signature-params: {p}"')
    return "\n".join(lines).encode()


def requests(ctx, rng, i):
    from hio.help import Hict
    from keri.core import signing
    from keri.end.ending import Inputage, Signage, designature, desiginput, signature, siginput
    from keri.core import coring

    heads = [(f, texts(rng, 20)) for f in FIELDS if rng.random() < 0.8]
    method, path = rng.choice(["GET", "POST", "PUT", "DELETE"]), "/" + texts(rng, 15)
    fields = rng.sample(FIELDS + ["@method", "@path"], rng.randint(1, len(FIELDS) + 2))
    present = {h.lower() for h, _ in heads}
    covered = [f if f.startswith("@") else f.lower() for f in fields if f.startswith("@") or f.lower() in present]
    ctx.saw("absent_fields", len(covered) < len(fields))
    name = rng.choice(["sig0", "signify", "s-1", "a_b"])
    kw = {k: v for k, v in dict(expires=rng.randrange(1, 10 ** 10), nonce=texts(rng), alg="ed25519", keyid=kl.Key(rng).qb64, context=texts(rng)).items() if rng.random() < 0.5}
    key = mk(rng)
    fake = None
    if rng.random() < 0.5:
        class Hab:                     # what the function uses of a habitat
            class kever:
                verfers = [coring.Verfer(qb64=key.qb64)]

            @staticmethod
            def sign(ser, verfers, indexed):
                must(not indexed and [v.qb64 for v in verfers] == [key.qb64], "signing other than plainly with current keys")
                return [coring.Cigar(raw=key.sign(ser), code="0B", verfer=verfers[0])]
        hkw = dict(hab=Hab)
        ctx.saw("by_hab")
    else:
        class Signer:
            @staticmethod
            def sign(ser):
                return coring.Cigar(raw=key.sign(ser), code="0B", verfer=coring.Verfer(qb64=key.qb64))
        hkw = dict(signers=[Signer])
        ctx.saw("by_signers")
    hict = Hict(heads)
    header, cig = siginput(name, method, path, hict, list(fields), **kw, **hkw)
    same(list(header), ["Signature-Input"], "input header made")
    ctx.saw("made")
    head = header["Signature-Input"]
    sig = signature([Signage(markers={name: cig}, indexed=False, signer=None, ordinal=None, digest=None, kind=None)])["Signature"]
    if rng.random() < 0.3:             # several inputs in one header
        other = "zz" + texts(rng, 3).replace(":", "").replace("/", "").replace("+", "").lower().replace("x", "x")
        other = "".join(c for c in other if c.isalnum())
        h2, _ = siginput(other, "GET", "/", hict, ["@path"], **hkw)
        head = ", ".join([h2["Signature-Input"], head] if rng.random() < 0.5 else [head, h2["Signature-Input"]])
        ctx.saw("several_inputs")
    ins = [x for x in desiginput(head.encode() if rng.random() < 0.5 else head) if x.name == name]
    same(len(ins), 1, "inputs read by name")
    inp = ins[0]
    same((inp.fields, inp.expires, inp.nonce, inp.alg, inp.keyid, inp.context), (covered, *(kw.get(k) for k in ("expires", "nonce", "alg", "keyid", "context"))), "signature input read back")
    must(type(inp.created) is int, "created is not a whole number")

    def verify(method, path, heads, inp, sigval, vk=key.pk):
        g = [s for s in designature(sigval) if name in s.markers]
        b = base(method, path, heads, inp.fields, [("created", inp.created), ("expires", inp.expires), ("nonce", inp.nonce), ("keyid", inp.keyid), ("context", inp.context), ("alg", inp.alg)])
        try:
            pysodium.crypto_sign_verify_detached(g[0].markers[name].raw, b, vk)
            return True
        except Exception:
            return False
    must(verify(method, path, heads, inp, sig), "genuine request does not verify")
    ctx.saw("verified")
    # single alterations
    hs = dict(heads)
    alts = []
    if "@method" in covered:
        alts.append(lambda: verify("PATCH", path, heads, inp, sig))
    if "@path" in covered:
        alts += [lambda: verify(method, path + "x", heads, inp, sig), lambda: verify(method, path[:-1], heads, inp, sig)]
    for f in covered:
        if not f.startswith("@"):
            k = next(h for h, _ in heads if h.lower() == f)
            v = hs[k]
            for nv in (v + "a", v[1:], v.swapcase() if v.swapcase() != v else v + "b", "z" + v):
                if nv.strip() != v.strip():
                    alts.append(lambda k=k, nv=nv: verify(method, path, [(a, nv if a == k else b) for a, b in heads], inp, sig))
            alts.append(lambda k=k: verify(method, path, [(a, b) for a, b in heads if a != k], inp, sig))
    alts.append(lambda: verify(method, path, heads, inp._replace(created=inp.created + 1), sig))
    for k in ("expires", "nonce", "alg", "keyid", "context"):
        v = getattr(inp, k)
        alts.append(lambda k=k, v=v: verify(method, path, heads, inp._replace(**{k: None if v is not None and rng.random() < 0.5 else (v + 1 if isinstance(v, int) else (v or "") + "q")}), sig))
    if len(covered) > 1:
        alts.append(lambda: verify(method, path, heads, inp._replace(fields=covered[1:]), sig))
        alts.append(lambda: verify(method, path, heads, inp._replace(fields=covered[1:] + covered[:1]), sig))
    alts.append(lambda: verify(method, path, heads, inp, sig, mk(rng).pk))
    raw = bytearray(cig.raw)
    raw[rng.randrange(64)] ^= 1 << rng.randrange(8)
    alts.append(lambda: verify(method, path, heads, inp, sig.replace(cig.qb64, cl.matter("0B", "", bytes(raw))[0].decode())))
    for a in alts:
        must(not a(), "altered request verifies")
        ctx.saw("altered_refused")
    # what is not covered does not matter, nor do surrounding spaces
    unc = [(a, b + "z" if a.lower() not in covered else b) for a, b in heads] + [("Extra", "1")]
    must(verify(method if "@method" in covered else "PATCH", path if "@path" in covered else "/else", unc, inp, sig), "request altered only where not covered does not verify")
    ctx.saw("uncovered_ignored")
    spaced = Hict([(a, "  " + b + " ") for a, b in heads])
    h3, c3 = siginput(name, method, path, spaced, list(fields), **kw, **hkw)
    i3 = desiginput(h3["Signature-Input"])[0]
    must(verify(method, path, heads, i3, sig.replace(cig.qb64, c3.qb64)), "surrounding spaces of a header value matter")
    ctx.saw("spaces_ignored")
    try:
        desiginput(head.replace(";created=", ";creatad="))
    except ValueError:
        ctx.saw("no_created")
    else:
        must(False, "signature input without time of creation is accepted")
    ctx.case((method, path, tuple(covered)), len(covered) > 1)


def validator(ctx, rng, i):
    """The request validator lets through exactly requests signed by all current keys of the controller."""
    import types
    from keri.app import httping
    from keri.core import Siger, Cigar, coring
    from keri.end.ending import Signage, signature
    n = rng.randint(1, 3)
    keys = [mk(rng) for _ in range(n)]
    ctx.saw("several_keys", n > 1)
    pre = kl.Key(rng).qb64
    hby = types.SimpleNamespace(kevers={pre: types.SimpleNamespace(verfers=[coring.Verfer(qb64=k.qb64) for k in keys])})
    comp = httping.SignatureValidationComponent(hby=hby, pre=pre)
    body = {texts(rng, 4): rng.choice([texts(rng), rng.randrange(99), [1, texts(rng)], {"a": texts(rng)}, True, None]) for _ in range(rng.randint(1, 4))}
    ser = json.dumps(body).encode()

    def ask(sig, body=body):
        req = types.SimpleNamespace(headers={"SIGNATURE": sig} if sig is not None else {}, media=body)
        resp = types.SimpleNamespace(complete=False, status="200 OK")
        try:
            comp.process_request(req, resp)
        except Exception:
            return False
        if resp.complete:
            must("401" in str(resp.status), "refused request answered with %s", resp.status)
        return not resp.complete

    def head(sigs, order=None):
        ms = [Siger(raw=s, index=j) for j, s in sigs]
        if order:
            rng.shuffle(ms)
        return signature([Signage(markers=ms, indexed=True, signer=None, ordinal=None, digest=None, kind=None)])["Signature"]
    good = [(j, k.sign(ser)) for j, k in enumerate(keys)]
    must(ask(head(good, True)), "request signed by all keys is refused")
    must(ask(head(good + [(n, mk(rng).sign(ser))])), "request signed by all keys and one more is refused")
    ctx.saw("request_accepted")
    bads = [None, "", "x", head([(0, mk(rng).sign(ser))] + good[1:]), head([(j, k.sign(ser + b" ")) for j, k in enumerate(keys)])]
    j = rng.randrange(n)
    bads.append(head([g for g in good if g[0] != j] or [(n, good[0][1])]))
    if n > 1:
        bads.append(head([(0, good[1][1]), (1, good[0][1])] + good[2:]))
        bads.append(head([good[0]] * 1 + [(k, good[0][1]) for k in range(1, n)]))
    r = bytearray(good[j][1])
    r[rng.randrange(64)] ^= 1
    bads.append(head([(k, bytes(r) if k == j else s) for k, s in good]))
    for b in bads:
        must(not ask(b), "request with signatures %r is let through", b)
        ctx.saw("request_refused")
    for nb in ({**body, "more": 1}, {k: v for k, v in list(body.items())[1:]}, {**body, next(iter(body)): "other!"}, dict(reversed(list(body.items()))) if len(body) > 1 else {}):
        must(not ask(head(good), nb), "request with another body is let through")
        ctx.saw("request_refused")
    hby.kevers = {}
    must(not ask(head(good)), "request for an unknown controller is let through")
    ctx.case((ser, n), True)


def streams(ctx, rng, i):
    """A stream becomes one request per message, nothing lost, moved or mixed; reading a request gives body and attachments."""
    import io
    import types
    from keri.app import httping
    from keri.kering import ColdStartError, ExtractionError
    msgs = []
    for _ in range(rng.randint(1, 4)):
            msgs += ctl(rng)
    reqs = []
    client = types.SimpleNamespace(requester=types.SimpleNamespace(path="/base/"), request=lambda **k: reqs.append(k))
    dest = kl.Key(rng).qb64
    more = {"X-More": "1"} if rng.random() < 0.5 else None
    from hio.help import Hict
    n = httping.streamCESRRequests(client, bytearray(b"".join(a + b for a, b in msgs)), dest, path=rng.choice([None, "/x", "y"]), headers=Hict(more) if more else None)
    same((n, len(reqs)), (len(msgs), len(msgs)), "requests for a stream")
    ctx.saw("streams")
    for r, (raw, atc) in zip(reqs, msgs):
        h = r["headers"]
        same((bytes(r["body"]), bytes(h[httping.CESR_ATTACHMENT_HEADER]), h[httping.CESR_DESTINATION_HEADER], h["Content-Length"], r["method"]), (raw, atc, dest, len(raw), "POST"), "request made from a message")
        must(more is None or h["X-More"] == "1", "given header is lost")
        ctx.saw("requests")
        req = types.SimpleNamespace(content_type=httping.CESR_CONTENT_TYPE, bounded_stream=io.BytesIO(bytes(r["body"])), headers={httping.CESR_ATTACHMENT_HEADER: bytes(h[httping.CESR_ATTACHMENT_HEADER]).decode()})
        cr = httping.parseCesrHttpRequest(req)
        same((cr.payload, cr.attachments), (json.loads(raw), atc.decode()), "request read")
        ctx.saw("read_requests")
        req2 = types.SimpleNamespace(content_type="application/json", bounded_stream=io.BytesIO(raw), headers=req.headers)
        req3 = types.SimpleNamespace(content_type=httping.CESR_CONTENT_TYPE, bounded_stream=io.BytesIO(raw), headers={})
        for b in (req2, req3):
            try:
                httping.parseCesrHttpRequest(b)
            except Exception:
                pass
            else:
                must(False, "request without content type or attachments is read")
    one = []
    client.request = lambda **k: one.append(k)
    raw, atc = rng.choice(msgs)
    httping.createCESRRequest(bytearray(raw + atc), client, dest)
    same((bytes(one[0]["body"]), bytes(one[0]["headers"][httping.CESR_ATTACHMENT_HEADER])), (raw, atc), "single request")
    try:
        httping.streamCESRRequests(client, bytearray(b"-AAB" + raw), dest)
    except (ColdStartError, ExtractionError):
        pass
    else:
        must(False, "stream starting with attachments is sent")
    ctx.case((dest,), len(msgs) > 1)


def ctl(rng):
    """Some signed JSON messages with attachments: (body, attachments)."""
    out = []
    c = kl.Ctl(rng, major=1, kind="JSON")
    for k in range(rng.randint(1, 3)):
        e = c.last if not k else c.ixn([])
        atc = kl.message(rng, b"", major=1, sigs=e.signatures(rng), gm=1)[0]
        out.append((e.raw, atc))
    return out


CASES = [("signages", signages, 300, 6000), ("requests", requests, 300, 6000), ("validator", validator, 200, 4000), ("streams", streams, 60, 1500)]
