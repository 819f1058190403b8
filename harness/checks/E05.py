"""E05: see catalog.py."""
import os
import tempfile
from collections import namedtuple

import vboot  # noqa
from checks.H02 import Site
from vh import must, same

RULE = ("a sender posts key events, exchanges, credentials and bare messages to recipients with every mix of endpoints (own, agents, mailboxes, witnesses, some cut, re-admitted, without address, or the sender's own) and the hosts' "
        "mailboxes and the bytes that arrive at the endpoints are compared with what was posted; non-trivial if something was delivered")
REQUIRE = ["posted", "direct", "mailbox", "witness", "local", "cut", "readmitted", "nobody", "no_address", "moved", "kel", "exn", "acdc", "bare", "announced", "stream_posted", "stream_direct", "stream_mailbox", "stream_witness", "stream_local",
           "stream_two_rounds", "forged", "known_host", "two_senders", "restart", "stream_nobody", "stream_sealed", "stream_sealed_parts", "stream_big", "pledged"]
ASSUME = ["requests reach an endpoint whole and one at a time per connection", "the sender's clients and the hosts run in one process over stand-ins for sockets"]
Rep = namedtuple("Rep", "status body headers")


class Host:
    """A provider of mailboxes and endpoints."""

    def __init__(self, ctx, rng, top, name, major, port):
        from keri.app import storing
        self.ctx, self.port, self.name = ctx, port, name
        self.site = Site(top, name, major, rng)
        self.hab = self.site.hby.makeHab(name=name, transferable=False, version=self.site.version, kind="JSON")
        self.pre = self.hab.pre
        self.mbx = storing.Mailboxer(name=name, headDirPath=os.path.join(top, name), reopen=True)
        self.direct = []          # bytes that arrived, one entry a message
        self.serve()

    def serve(self):
        import falcon
        from falcon import testing
        from keri.app import forwarding, indirecting
        from keri.core import eventing, parsing, routing
        from keri.peer import exchanging
        hby = self.site.hby
        forwarding.print = lambda *a, **k: None
        self.exc = exchanging.Exchanger(hby=hby, handlers=[forwarding.ForwardHandler(hby=hby, mbx=self.mbx)])
        self.rvy = routing.Revery(db=hby.db)
        self.kvy = eventing.Kevery(db=hby.db, lax=True, local=False, rvy=self.rvy)
        self.kvy.registerReplyRoutes(router=self.rvy.rtr)
        self.psr = parsing.Parser(framed=True, kvy=self.kvy, rvy=self.rvy, exc=self.exc, version=self.site.version)
        app = falcon.App()
        app.add_route("/", indirecting.HttpEnd(rxbs=self.psr.ims, mbx=self.mbx))
        self.web = testing.TestClient(app)

    def restart(self):
        self.site.restart()
        self.hab = self.site.hby.habByName(self.name)
        self.serve()

    def take(self, method, path, body, headers):
        if method == "PUT":
            self.direct.append(bytes(body))
        else:
            self.direct.append(bytes(body) + headers["CESR-ATTACHMENT"].encode())
        same(headers["CESR-DESTINATION"], self.pre, "host that a request names")
        if not path.startswith("/"):
            path = "/" + path.split("/", 3)[-1] if "://" in path else "/" + path
        res = self.web.simulate_request(method, path, body=bytes(body), headers=headers)
        self.psr.parse(local=True)
        self.kvy.processEscrows()
        self.rvy.processEscrowReply()
        self.exc.processEscrow()
        return Rep(res.status_code, bytes(res.content or b""), dict(res.headers or {}))

    def held(self, mbx=None):
        """Topic to messages in order."""
        mbx = mbx or self.mbx
        out = {}
        for keys, on, dig in mbx.tpcs.getAllItemIter():
            topic = keys if isinstance(keys, str) else ".".join(keys)
            got = out.setdefault(topic, [])
            same(on, len(got), f"number of an entry of {topic}")
            msg = mbx.getMsg(dig)
            must(msg is not None, f"an entry of {topic} has no message")
            got.append(bytes(msg))
        for topic, msgs in out.items():
            same([bytes(m.encode() if isinstance(m, str) else m) for _, _, m in mbx.cloneTopicIter(topic)], msgs, f"messages of {topic} handed out")
        return out

    def close(self):
        self.mbx.close(clear=True)
        self.site.shut()


class Dest:
    """A recipient and where it wants its messages."""

    def __init__(self, hab):
        self.hab, self.pre = hab, hab.pre
        self.ends = {}            # (role, eid): allowed

    def allowed(self, role):
        return [e for (r, e), ok in self.ends.items() if r == role and ok]


class World:
    def __init__(self, ctx, rng, top, single=False):
        from hio.core.http import clienting
        from keri.app import storing
        self.ctx, self.rng, self.top = ctx, rng, top
        self.major = rng.choice([1, 2])
        self.hosts = [Host(ctx, rng, top, f"h{j}", self.major, 6000 + j) for j in range(rng.randrange(3, 5))]
        self.by = {h.pre: h for h in self.hosts}
        self.site = Site(top, "snd", self.major, rng)
        self.v = self.site.version
        self.clock = 0
        self.own = self.site.hby.makeHab(name="own", transferable=False, version=self.v, kind="JSON")
        wits = [rng.choice(self.hosts).pre] if rng.random() < 0.4 else []
        self.hab = self.site.hby.makeHab(name="me", version=self.v, kind="JSON", icount=1, isith="1", wits=wits)
        self.also = self.site.hby.makeHab(name="also", version=self.v, kind="JSON", icount=1, isith="1")
        self.mbx = storing.Mailboxer(name="snd", headDirPath=os.path.join(top, "snd"), reopen=True)
        ctx.saw("known_host", bool(wits))     # a witness knows its controller
        self.receipt(self.hab, self.site)
        self.addr = {}
        for h in self.hosts:
            self.addr[h.pre] = rng.random() < 0.85
            if self.addr[h.pre]:
                self.place(h.hab, h.port)
        self.addr[self.own.pre] = False
        self.rsite = Site(top, "rcp", self.major, rng)
        self.dests = []
        for j in range(rng.randrange(2, 5)):
            ws = []
            if rng.random() < 0.5:
                ws = [p.pre for p in rng.sample(self.hosts, rng.randrange(1, 3))]
                if rng.random() < 0.2:
                    ws = ws[:-1] + [self.own.pre]
            d = Dest(self.rsite.hby.makeHab(name=f"r{j}", version=self.v, kind="JSON", icount=1, isith="1", wits=ws))
            d.port = 7000 + j
            d.home = None
            self.receipt(d.hab, self.rsite)
            for m in d.hab.db.clonePreIter(pre=d.pre, version=self.v):
                self.site.hby.psr.parse(ims=bytearray(m), local=True)
            must(d.pre in self.site.hby.kevers, "recipient is not known to the sender")
            self.dests.append(d)
            roles = [rng.choice(["controller", "agent", "mailbox", "mailbox", "mailbox"])] if single else rng.choice([[], [], ["mailbox"], ["mailbox"] * 2, ["agent"], ["controller"], ["agent", "mailbox"], ["controller", "agent", "mailbox"], ["agent"] * 2])
            if single and rng.random() < 0.35:
                roles = []
            for role in roles:
                self.admit(d, role)
        self.homes = {}
        clienting.Client.transport = self.carry
        clienting.Client.deferred = True

    def receipt(self, hab, site):
        """The witnesses of the hab receipt its last event."""
        ser = hab.kever.serder
        for w in hab.kever.wits:
            host = self.own if w == self.own.pre else self.by[w].hab
            psr = self.site.hby.psr if w == self.own.pre else self.by[w].psr
            psr.parse(ims=bytearray(site.hby.db.cloneEvtMsg(pre=hab.pre, fn=hab.kever.sn, dig=ser.saidb, version=self.v)), local=True)
            must(host.kevers.get(hab.pre) is not None and host.kevers[hab.pre].serder.said == ser.said, "harness: witness did not accept")
            site.hby.psr.parse(ims=bytearray(host.witness(ser, version=self.v, gvrsn=self.v)), local=True)
        same(len(list(site.hby.db.wigs.get(keys=(hab.pre, ser.said)))), len(hab.kever.wits), "harness: receipts")

    def now(self):
        from keri.help import helping
        import datetime
        self.clock += 1
        return helping.toIso8601(datetime.datetime(2030, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=self.clock))

    def place(self, hab, port):
        msg = bytes(hab.makeLocScheme(url=f"http://127.0.0.1:{port}/" if port else "", scheme="http", stamp=self.now(), version=self.v, gvrsn=self.v, kind="JSON"))
        self.site.hby.psr.parse(ims=bytearray(msg), local=True)

    def admit(self, d, role, eid=None, allow=True):
        if eid is None:
            if role == "controller":
                eid = d.pre
            elif role == "mailbox" and self.rng.random() < 0.25:
                eid = self.own.pre
            else:
                eid = self.rng.choice(self.hosts).pre
        if role == "controller" and not self.addr.get(d.pre):
            self.addr[d.pre] = self.rng.random() < 0.85
            if self.addr[d.pre]:
                self.place(d.hab, d.port)
        msg = bytes(d.hab.makeEndRole(eid=eid, role=role, allow=allow, stamp=self.now(), version=self.v, gvrsn=self.v, kind="JSON"))
        self.site.hby.psr.parse(ims=bytearray(msg), local=True)
        end = self.site.hby.db.ends.get(keys=(d.pre, role, eid))
        must(end is not None and end.allowed is allow, f"{role} endpoint of a recipient is not {'learned' if allow else 'cut'}")
        d.ends[(role, eid)] = allow

    def carry(self, client, req):
        hs = {k: v.decode() if isinstance(v, (bytes, bytearray)) else str(v) for k, v in (req["headers"] or {}).items()}
        for h in self.hosts:
            if h.port == client.port:
                return h.take(req["method"], req["path"], req["body"], hs)
        for d in self.dests:
            if d.port == client.port:
                same(hs["CESR-DESTINATION"], d.pre, "recipient that a request names")
                self.homes.setdefault(d.pre, []).append(bytes(req["body"]) + (b"" if req["method"] == "PUT" else hs["CESR-ATTACHMENT"].encode()))
                return Rep(204, b"", {})
        must(False, f"a message goes to port {client.port}, which nobody named")

    def message(self, hab, kinds=("kel", "exn", "exn", "acdc", "bare"), words=0):
        """(serder, attachment or None) to post."""
        from keri.core import serdering
        rng = self.rng
        kind = rng.choice(kinds)
        if kind == "kel":
            if rng.random() < 0.6:
                hab.interact(data=[], version=self.v, kind="JSON")
                self.receipt(hab, self.site)
            raw = bytearray(self.site.hby.db.cloneEvtMsg(pre=hab.pre, fn=hab.kever.sn, dig=hab.kever.serder.saidb, version=self.v))
        elif kind in ("exn", "bare"):
            raw = bytearray(hab.exchange(route="/challenge/response", receiver=self.dests[0].pre, attributes=dict(words=[str(rng.randrange(10**9)) for _ in range(words or rng.choice([1, 3, 40]))]), version=self.v, gvrsn=self.v, kind="JSON", framed=rng.random() < 0.5))
        else:
            from keri import kering
            sad = dict(v="", d="", i=hab.pre, ri="", s="E" + "A" * 43, a=dict(d="", i=self.dests[0].pre, n=rng.randrange(10**9)))
            ser = serdering.SerderACDC(sad=sad, makify=True, pvrsn=kering.Vrsn_1_0, kind="JSON")
            from keri.core import coring, counting
            atc = bytearray()
            atc.extend(counting.Counter(counting.Codens.SealSourceTriples, count=1, version=self.v).qb64b)
            atc.extend(coring.Prefixer(qb64=hab.pre).qb64b)
            atc.extend(coring.Number(num=0, code=coring.NumDex.Huge).qb64b)
            atc.extend(hab.kever.serder.saidb)
            self.ctx.saw("acdc")
            return ser, atc
        ser = serdering.SerderKERI(raw=raw)
        atc = raw[ser.size:]
        must(atc, "harness: no attachment")
        self.ctx.saw(kind)
        return ser, None if kind == "bare" else atc

    def expect(self, d):
        """(direct endpoints, places of which one gets it)"""
        direct = [("controller", e) for e in d.allowed("controller")] + [("agent", e) for e in d.allowed("agent")]
        store = d.allowed("mailbox")
        if not direct and not store:
            return [], list(d.hab.kever.wits), "witness"
        return direct, store, "mailbox"

    def snap(self):
        out = {h.pre: (list(h.direct), h.held()) for h in self.hosts}
        out["own"] = ([], self.hosts[0].held(self.mbx))
        for d in self.dests:
            out[d.pre] = (list(self.homes.get(d.pre, [])), {})
        return out

    def fresh(self, old):
        """What arrived since: (pre, bytes) direct and (pre, topic, [bytes])."""
        direct, stored = {}, {}
        for pre, (d, s) in self.snap().items():
            od, os_ = old[pre]
            same(d[:len(od)], od, "messages that had arrived")
            direct[pre] = d[len(od):]
            for topic, msgs in s.items():
                was = os_.get(topic, [])
                same(msgs[:len(was)], was, f"messages stored before in {topic}")
                if msgs[len(was):]:
                    stored[(pre, topic)] = msgs[len(was):]
            must(not set(os_) - set(s), "a topic of a mailbox is gone")
        return direct, stored

    def close(self):
        from hio.core.http import clienting
        clienting.Client.transport = None
        clienting.Client.deferred = False
        for h in self.hosts:
            h.close()
        self.mbx.close(clear=True)
        self.site.shut()
        self.rsite.shut()

    def change(self):
        """A recipient moves."""
        rng = self.rng
        d = rng.choice(self.dests)
        if d.ends and rng.random() < 0.7:
            (role, eid), ok = rng.choice(list(d.ends.items()))
            self.admit(d, role, eid, allow=not ok)
            self.ctx.saw("readmitted" if not ok else "cut_before")
        else:
            self.admit(d, rng.choice(["agent", "mailbox", "mailbox", "controller"]))
        if rng.random() < 0.3:
            h = rng.choice(self.hosts)
            if self.addr[h.pre]:
                h.port += 100
                self.place(h.hab, h.port)
                self.ctx.saw("moved")

    def judge(self, d, topic, body, direct, stored, bare=False):
        """Where one posted message went, taken out of what arrived."""
        ends, store, kind = self.expect(d)
        reach = [e for e in ends if self.addr[e[1]]]
        own = self.own.pre in store
        lacks = len(reach) < len(ends) or (not own and any(not self.addr[e] for e in store))
        full = not lacks and bool(ends or store)
        gone = 0
        for _, e in reach:
            n = direct[e].count(body)
            if full:
                must(n, f"message for {topic} of {len(body)} bytes does not arrive whole at an endpoint of the recipient")
            if n:
                direct[e].remove(body)
                gone += 1
                self.ctx.saw("direct")
        where = [("own", f"{d.pre}/{topic}")] if own else [(e, f"{d.pre}/{topic}") for e in store if self.addr[e]]
        # of several stores one has it: the first in which it is next
        hits = [w for w in where if stored.get(w) and stored[w][0] == body]
        if full and store and bare and not own:
            full = False                    # a host does not take what nobody vouches for
        if full and store:
            must(hits, f"message for {topic} of {len(body)} bytes is in no mailbox of the recipient in its turn")
        if hits:
            stored[hits[0]].pop(0)
            gone += 1
            self.ctx.saw("local" if own else kind)
        if lacks:
            self.ctx.saw("no_address")
        if not ends and not store:
            self.ctx.saw("nobody")
        if any(not ok for ok in d.ends.values()):
            self.ctx.saw("cut")
        return full, gone


def settle(w, direct, stored, d=None):
    """Nothing else arrived: what is left are introductions and wrappers to where one may send."""
    from keri.core import serdering
    for key, msgs in stored.items():
        must(not msgs, f"{len(msgs)} messages in {key[1].split('/')[-1]} of a mailbox that nobody posted, posted once, or posted later: {msgs[:1]!r:.200}")
    for pre, msgs in direct.items():
        for m in msgs:
            ked = serdering.Serder(raw=bytearray(m)).sad
            ok = ked.get("t") in ("icp", "ixn", "rot", "dip", "drt", "rpy") and (ked.get("i") in (w.hab.pre, w.also.pre) or ked["t"] == "rpy")
            ok = ok or (ked.get("t") == "exn" and ked.get("r") == "/fwd")
            must(ok, f"an endpoint gets a message that was not posted to it or is sent twice: {m[:160]!r}")
            if ked.get("r") == "/fwd":
                x = next(x for x in w.dests if x.pre == ked["q"]["pre"])
                ends, store, kind = w.expect(x)
                must(pre in store, "a message is left with a host that is no mailbox or witness of the recipient")


def post(ctx, rng, i):
    """Poster and ForwardHandler."""
    from hio.base import doing
    from keri.app import forwarding
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_TMP")) as top:
        w = World(ctx, rng, top)
        try:
            total = 0
            for life in range(rng.randrange(1, 4)):
                poster = forwarding.Poster(hby=w.site.hby, mbx=w.mbx, version=w.v)
                doist = doing.Doist(doers=[poster], tock=0.03125)
                doist.enter()
                if life:
                    ctx.saw("restart")
                    h = rng.choice(w.hosts)
                    h.restart()
                for turn in range(rng.randrange(1, 4)):
                    if life or turn:
                        w.change()
                    old = w.snap()
                    sent = []
                    for _ in range(rng.randrange(1, 6)):
                        d = rng.choice(w.dests)
                        hab = w.hab
                        if rng.random() < 0.25:
                            hab = w.also
                            ctx.saw("two_senders")
                        direct = bool(w.expect(d)[0])
                        ser, atc = w.message(hab, ("kel", "exn", "exn", "bare") if direct else ("kel", "exn", "exn", "acdc", "bare"))
                        topic = rng.choice(["credential", "multisig", "delegate", "challenge"])
                        body = bytes(ser.raw) + bytes(atc or b"")
                        kwa = dict(hab=hab) if rng.random() < 0.5 else dict(src=hab.pre)
                        if (body, topic, d) in [(b, t, x) for x, t, b, _, _ in sent] and len(w.expect(d)[1]) > 1:
                            continue
                        poster.send(dest=d.pre, topic=topic, serder=ser, attachment=None if atc is None else (bytes(atc) if rng.random() < 0.5 else bytearray(atc)), **kwa)
                        ctx.saw("posted")
                        sent.append((d, topic, body, ser.said, atc is None))
                    for t in range(600):
                        doist.recur()
                        if not poster.evts and t > 60 + 12 * len(sent):
                            break
                    must(not poster.evts, "posting does not end")
                    must(not doist.done and poster in [x[2] for x in doist.deeds], "the poster died")
                    direct, stored = w.fresh(old)
                    done = {}
                    for d, topic, body, said, bare in sent:
                        full, gone = w.judge(d, topic, body, direct, stored, bare)
                        total += gone
                        a = done.setdefault(said, [0, 0])
                        a[0] += full
                        a[1] += full or gone > 0 or bare
                        if full:
                            ctx.saw("announced")
                    settle(w, direct, stored)
                    heard = {}
                    for cue in poster.cues:
                        heard[cue["said"]] = heard.get(cue["said"], 0) + 1
                    poster.cues.clear()
                    for said, (lo, hi) in done.items():
                        must(lo <= heard.pop(said, 0) <= hi, "a delivery is not announced, or announced without delivery")
                    must(not heard, "announcement of a message that was not posted")
                doist.exit()
            # nobody but the sender can have a message left
            d = rng.choice(w.dests)
            h = rng.choice(w.hosts)
            forge(ctx, rng, w, d, h)
            ctx.case((w.hab.pre, total), nontrivial=total > 0)
            ctx.sample(dict(major=w.major, delivered=total, hosts=len(w.hosts), recipients=len(w.dests)))
        finally:
            w.close()


def forge(ctx, rng, w, d, h):
    """A wrapper that is not signed by its sender leaves nothing."""
    from keri import kering
    from keri.peer import exchanging
    ser, atc = w.message(w.hab, ("exn",))
    fwd, end = exchanging.specialExchange(sender=w.hab.pre, route="/fwd", modifiers=dict(pre=d.pre, topic="credential"), attributes={}, embeds=dict(evt=bytearray(ser.raw) + atc), gvrsn=w.v, version=kering.Vrsn_1_0, kind="JSON")
    ims = bytearray()
    for m in w.site.hby.db.clonePreIter(pre=w.hab.pre, version=w.v):
        ims += m
    good = bytes(w.hab.endorse(serder=fwd, last=False, framed=True, gvrsn=w.v))
    bad = bytearray(good)
    j = len(good) - 1 - rng.randrange(1, 60)
    bad[j] = ord("A") if bad[j] != ord("A") else ord("B")
    was = h.held()
    if rng.random() < 0.5:
        bad = bytearray(fwd.raw)           # without any
    h.psr.parse(ims=ims + bad + end, local=True)
    h.exc.processEscrow()
    same(h.held(), was, "mailboxes after a forwarded message that its sender did not sign")
    h.psr.parse(ims=bytearray(ims) + bytearray(good) + end, local=True)
    h.exc.processEscrow()
    got = h.held()
    key = f"{d.pre}/credential"
    same(got.get(key, [])[-1:], [bytes(ser.raw) + bytes(atc)], "message stored from a signed wrapper")
    same(len(got[key]), len(was.get(key, [])) + 1, "entries stored from a signed wrapper")
    h.psr.parse(ims=bytearray(good) + end, local=True)
    h.exc.processEscrow()
    same(h.held(), got, "mailboxes after a wrapper that comes again")
    ctx.saw("forged")


def Queue(evts):
    """Queue of a poster that notices when its messages go round for ever."""
    from hio.help import decking

    class Turns(decking.Deck):
        left = 2000

        def appendleft(self, x):
            self.left -= 1
            must(self.left > 0, "a poster puts the same message back for ever")
            super().appendleft(x)
    return Turns(evts)


def unseal(w, host, known):
    """Messages out of the sealed payloads that came to the host since, by payload."""
    from keri.core import Bexter, Prefixer
    from keri.spac import payloading
    out = []
    for (said,), ser in host.site.hby.db.exns.getTopItemIter():
        if said in known or ser.ked["r"] != "/essr/req":
            continue
        known.add(said)
        same(ser.ked["q"], dict(src=w.hab.pre, dest=host.pre), "parties of a sealed payload")
        box = host.site.hby.db.essrs.get(keys=(said,))
        same(len(box), 1, "payloads of a sealed message")
        ims = bytearray(host.hab.decrypt(box[0].raw))
        whole = len(ims)
        tag = host.psr.extract(ims, payloading.PayloadTyper)
        same(tag.type, payloading.PayloadTypes.SCS, "type of a sealed payload")
        same(host.psr.extract(ims, Prefixer).qb64, w.hab.pre, "sender sealed in a payload")
        same(host.psr.extract(ims, Bexter).bext, "", "padding of a payload")
        out.append((ser.ked["dt"], whole, bytes(ims)))
        at = ims.find(b'"t":"exn"')         # events of the sender go in clear before
        must(at < 0 or bytes(ims[at:at + 60]) not in b"".join(host.direct), "a sealed payload is sent in clear")
    return sorted(out)




def stream(ctx, rng, i):
    """StreamPoster."""
    from keri import kering
    from keri.app import forwarding
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_TMP")) as top:
        w = World(ctx, rng, top, single=True)
        try:
            total = 0
            for d in w.dests:
                ends, store, kind = w.expect(d)
                own = w.own.pre in store
                topic = rng.choice(["credential", "multisig", "reply"])
                sp = forwarding.StreamPoster(hby=w.site.hby, recp=d.pre, hab=w.hab, mbx=w.mbx, topic=topic, version=w.v)
                if not (ends or store):
                    ser, atc = w.message(w.hab, ("exn",))
                    old = w.snap()
                    try:
                        sp.send(serder=ser, attachment=bytearray(atc))
                    except kering.ValidationError:
                        ctx.saw("stream_nobody")
                    else:
                        must(False, "a message to a recipient without any endpoint is taken")
                    must(not sp.deliver(), "something is sent to a recipient without any endpoint")
                    direct, stored = w.fresh(old)
                    must(not stored and not any(direct.values()), "something is sent to a recipient without any endpoint")
                    continue
                if any(not w.addr[e[1]] for e in ends) or (not own and any(not w.addr[e] for e in store)):
                    continue
                essr = rng.random() < 0.5 and not (ends and ends[0][0] == "controller")
                if essr:
                    sp = forwarding.StreamPoster(hby=w.site.hby, recp=d.pre, hab=w.hab, mbx=w.mbx, topic=topic, version=w.v, essr=True)
                    sp.evts = Queue(sp.evts)
                known = {h.pre: {said for (said,), _ in h.site.hby.db.exns.getTopItemIter()} for h in w.hosts}
                for turn in range(rng.randrange(1, 3)):
                    ctx.saw("stream_two_rounds", turn > 0)
                    old = w.snap()
                    want = []
                    for _ in range(rng.choice([1, 2, 3, 3, 40 if essr else 4])):
                        big = essr and rng.random() < 0.05
                        ser, atc = w.message(w.hab, ("exn",), 2000) if big else w.message(w.hab)
                        ctx.saw("stream_big", big)
                        if atc is None and not ends and not own:
                            continue
                        sp.send(serder=ser, attachment=None if atc is None else bytearray(atc))
                        want.append(bytes(ser.raw) + bytes(atc or b""))
                        ctx.saw("stream_posted")
                    if essr and ends:           # an endpoint knows whom it deals with
                        for m in w.site.hby.db.clonePreIter(pre=w.hab.pre, version=w.v):
                            w.by[ends[0][1]].psr.parse(ims=bytearray(m), local=True)
                    for doer in sp.deliver():
                        doer.client.service()
                    if not want:
                        continue
                    if essr and not own:
                        lots = []
                        for h in w.hosts:
                            for dt, size, ims in unseal(w, h, known[h.pre]):
                                must(h.pre in [e[1] for e in ends] + store, "a sealed payload goes to a host that is no endpoint of the recipient")
                                lots.append((dt, size, ims, h))
                        lots.sort(key=lambda x: x[0])
                        for _, size, ims, h in lots:
                            must(size <= 16384 or (ims in want if ends else ims.count(b'"r":"/fwd"') <= 2), f"a sealed payload of {size} bytes")
                            if not ends:
                                h.psr.parse(ims=bytearray(ims), local=True)
                        ctx.saw("stream_sealed")
                        ctx.saw("stream_sealed_parts", len(lots) > 1)
                        if ends:
                            same(b"".join(x[2] for x in lots), b"".join(want), "messages sealed to the endpoint")
                    direct, stored = w.fresh(old)
                    got = [m for ms in stored.values() for m in ms]
                    if ends:
                        ctx.saw("stream_direct")
                        same(got, [], "messages left in mailboxes")
                        if not essr:
                            same(direct[ends[0][1]], [b"".join(want)], "stream that arrives at the endpoint")
                        direct[ends[0][1]] = []
                    else:
                        ctx.saw("stream_local" if own else f"stream_{kind}")
                        if len(stored) == 1:
                            same(b"".join(got), b"".join(want), "messages left in the mailbox")
                        else:
                            must(essr and not own and len(lots) > 1, "a stream is left in several mailboxes")
                            same(sorted(got), sorted(want), "messages left in the mailboxes")
                        must(all(t == f"{d.pre}/{topic}" and (p == "own" if own else p in store) for p, t in stored), "messages are left elsewhere")
                    for pre, msgs in direct.items():
                        must(not msgs or (not ends and not own and pre in store and (essr or len(msgs) == 1)), "a stream goes elsewhere")
                    total += len(want)
            ctx.case((w.hab.pre, total), nontrivial=total > 0)
            ctx.sample(dict(major=w.major, streamed=total))
        finally:
            w.close()


def pledge(ctx, rng, i):
    """Poster.sent and sending an event to a delegator."""
    from hio.base import doing
    from keri.app import forwarding
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_TMP")) as top:
        w = World(ctx, rng, top)
        try:
            done = 0
            for d in w.dests:
                ends, store, kind = w.expect(d)
                own = w.own.pre in store
                if not (ends or store) or any(not w.addr[e[1]] for e in ends) or (not own and any(not w.addr[e] for e in store)):
                    continue
                poster = forwarding.Poster(hby=w.site.hby, mbx=w.mbx, version=w.v)
                doist = doing.Doist(doers=[poster], tock=0.03125)
                doist.enter()
                child = w.site.hby.makeHab(name=f"child{d.port}", version=w.v, kind="JSON", icount=1, isith="1", delpre=d.pre)
                old = w.snap()
                ser, atc = w.message(w.hab, ("exn",))
                first = rng.random() < 0.5
                if first:
                    poster.send(dest=d.pre, topic="credential", serder=ser, attachment=atc, hab=w.hab)
                must(not poster.sent(ser.said) and not poster.sent(child.kever.serder.said), "a message is reported as sent before it is")
                gen = poster.sendEventToDelegator(w.hab, child)
                for t in range(300):
                    try:
                        next(gen)
                    except StopIteration:
                        break
                    doist.recur()
                else:
                    must(False, "sending an event to the delegator does not end")
                for _ in range(30):
                    doist.recur()
                same(poster.sent(ser.said), first, "report of a message as sent")
                direct, stored = w.fresh(old)
                body = bytes(w.site.hby.db.cloneEvtMsg(pre=child.pre, fn=0, dig=child.kever.serder.saidb, version=child.kever.serder.pvrsn))
                if first:
                    w.judge(d, "credential", bytes(ser.raw) + bytes(atc), direct, stored)
                full, gone = w.judge(d, "delegate", body, direct, stored)
                must(gone, "an event does not arrive at the delegator when it is reported as sent")
                settle(w, direct, stored)
                doist.exit()
                ctx.saw("pledged")
                done += 1
            ctx.case((w.hab.pre, done), nontrivial=done > 0)
            ctx.sample(dict(major=w.major, pledged=done))
        finally:
            w.close()


CASES = [("post", post, 120, 3000), ("stream", stream, 120, 2400), ("pledge", pledge, 40, 800)]
