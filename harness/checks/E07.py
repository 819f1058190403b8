"""E07: a controller's polling of its mailboxes hands over every message, in order."""
import contextlib
import datetime
import io
import os
import shutil
import tempfile

import vboot  # noqa
from vh import must, same
from checks.E05 import Host
from checks.H02 import Site

RULE = "per mailbox, the messages handed to the controller's parser are the stored ones of the polled topics, in order, without gaps; repeats only right after a stop"
REQUIRE = ["posted", "handed", "polled", "unpolled_topic", "restart", "cut_off", "two_boxes", "late_address", "late_identifier", "witness_box", "split"]
ASSUME = ["responses of a mailbox reach the controller in order, if at all", "the controller and the mailboxes run in one process over stand-ins for sockets"]
TOPICS = ["/receipt", "/reply", "/challenge"]


class Box(Host):
    """A mailbox that answers polls."""

    def serve(self):
        import falcon
        from falcon import testing
        from hio.help import decking
        from keri.app import indirecting
        super().serve()
        host = self
        self.streams = []
        self.asks = decking.Deck()

        class End(indirecting.HttpEnd):
            def on_post(self, req, rep):
                super().on_post(req, rep)
                if rep.stream is not None:
                    host.streams.append(rep.stream)
                    rep.stream = None

        app = falcon.App()
        app.add_route("/", End(rxbs=self.psr.ims, mbx=self.mbx, qrycues=self.asks))
        self.web = testing.TestClient(app)

    def ask(self, req, hs):
        """The stream that answers a poll."""
        n = len(self.streams)
        rep = self.take(req["method"], req["path"], req["body"], hs)
        while self.kvy.cues:
            cue = self.kvy.cues.pull()
            if cue["kin"] == "stream":
                self.asks.append(cue)
        if len(self.streams) == n:
            return None
        same(rep.status, 200, "status of the answer to a poll")
        return iter(self.streams[-1])


class Wire:
    """One connection of a poller with its mailbox."""

    def __init__(self, client, stream):
        self.client, self.stream = client, stream
        self.raw, self.lines, self.on = bytearray(), [], True

    def pump(self, rng, ctx, most=0):
        for _ in range(rng.randrange(1, 3)):
            self.raw.extend(next(self.stream))
        n = most or rng.choice([0, 1, 50, 700, 5000, 10**6])
        part, keep = self.raw[:n], self.raw[n:]
        ctx.saw("split", bool(part) and bool(keep))
        self.lines.append(bytes(part))
        text = b"".join(self.lines)
        *whole, rest = text.split(b"\n\n")
        self.lines, self.raw = [rest], keep
        for blob in whole:
            evt = dict(id=None, name="", data="")
            for line in blob.decode().split("\n"):
                k, _, v = line.partition(": ")
                if k in ("id", "data"):
                    evt[k] = v
                elif k == "event":
                    evt["name"] = v
            if evt["data"]:
                self.client.events.append(evt)


class Inbox(bytearray):
    """What is handed to the parser."""
    note = None

    def extend(self, msg):
        self.note(bytes(msg))
        super().extend(msg)

    def __iadd__(self, msg):
        self.extend(msg)
        return self


class World:
    def __init__(self, ctx, rng, top):
        from hio.core.http import clienting
        self.ctx, self.rng, self.top = ctx, rng, top
        self.major = rng.choice([1, 2])
        self.hosts = [Box(ctx, rng, top, f"h{j}", self.major, 6000 + j) for j in range(rng.randrange(1, 4))]
        ctx.saw("two_boxes", len(self.hosts) > 1)
        self.by = {h.pre: h for h in self.hosts}
        self.site = Site(top, "me", self.major, rng)
        self.other = Site(top, "snd", self.major, rng)
        self.v = self.site.version
        self.snd = self.other.hby.makeHab(name="snd", version=self.v, kind="JSON", icount=1, isith="1")
        for m in self.snd.db.clonePreIter(pre=self.snd.pre, version=self.v):
            self.site.hby.psr.parse(ims=bytearray(m), local=True)
        must(self.snd.pre in self.site.hby.kevers, "harness: sender is not known")
        self.clock, self.n = 0, 0
        self.wires = []
        self.late = []
        for h in self.hosts:
            if rng.random() < 0.85:
                self.place(h)
            else:
                self.late.append(h)
        self.pres, self.boxes = [], {}       # boxes: (pre, host): allowed
        self.wits = {}
        self.store, self.where = {}, {}      # (host, pre, topic): messages; message: its place
        self.at, self.again = {}, set()
        self.handled = set()
        self.live = set()
        self.witnesses = rng.random() < 0.6
        for _ in range(rng.randrange(1, 3)):
            self.join()
        clienting.Client.transport = self.carry
        clienting.Client.deferred = True

    def stamp(self):
        from keri.help import helping
        self.clock += 1
        return helping.toIso8601(datetime.datetime(2030, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=self.clock))

    def place(self, h):
        msg = bytes(h.hab.makeLocScheme(url=f"http://127.0.0.1:{h.port}/", scheme="http", stamp=self.stamp(), version=self.v, gvrsn=self.v, kind="JSON"))
        self.site.hby.psr.parse(ims=bytearray(msg), local=True)

    def join(self):
        """A further identifier of the controller, with its mailboxes."""
        rng = self.rng
        ws = [rng.choice(self.hosts).pre] if rng.random() < 0.4 else []
        name = f"me{len(self.pres)}"
        hab = self.site.hby.makeHab(name=name, version=self.v, kind="JSON", icount=1, isith="1", wits=ws)
        ser = hab.kever.serder
        for w in ws:
            host = self.by[w]
            host.psr.parse(ims=bytearray(self.site.hby.db.cloneEvtMsg(pre=hab.pre, fn=0, dig=ser.saidb, version=self.v)), local=True)
            self.site.hby.psr.parse(ims=bytearray(host.hab.witness(ser, version=self.v, gvrsn=self.v)), local=True)
        self.pres.append((name, hab.pre))
        self.wits[hab.pre] = ws
        for h in self.hosts:
            for m in hab.db.clonePreIter(pre=hab.pre, version=self.v):
                h.psr.parse(ims=bytearray(m), local=True)
            must(hab.pre in h.hab.kevers, "harness: identifier is not known to its mailbox")
            if rng.random() < 0.6:
                self.admit(name, hab.pre, h, True)

    def admit(self, name, pre, h, allow):
        hab = self.site.hby.habByName(name)
        msg = bytes(hab.makeEndRole(eid=h.pre, role="mailbox", allow=allow, stamp=self.stamp(), version=self.v, gvrsn=self.v, kind="JSON"))
        self.site.hby.psr.parse(ims=bytearray(msg), local=True)
        end = self.site.hby.db.ends.get(keys=(pre, "mailbox", h.pre))
        must(end is not None and end.allowed is allow, "harness: mailbox")
        self.boxes[pre, h.pre] = allow

    def follow(self, pre):
        """The mailboxes the controller polls from now on for the identifier."""
        for h in self.hosts:
            if self.boxes.get((pre, h.pre)) or self.witnesses and h.pre in self.wits[pre]:
                self.live.add((h.pre, pre))
                self.ctx.saw("polled")
                self.ctx.saw("witness_box", not self.boxes.get((pre, h.pre)))

    def start(self):
        from hio.base import doing
        from keri.app import indirecting
        from keri.peer import exchanging
        world = self

        class Take:
            resource = "/challenge/response"
            local = False

            def verify(self, serder, **kwa):
                return True

            def handle(self, serder, **kwa):
                world.handled.add(serder.said)

        exc = exchanging.Exchanger(hby=self.site.hby, handlers=[Take()])
        ims = Inbox()
        ims.note = self.note
        self.live = set()
        for _, pre in self.pres:
            self.follow(pre)
        self.director = indirecting.MailboxDirector(hby=self.site.hby, topics=list(TOPICS), ims=ims, exc=exc, witnesses=self.witnesses, version=self.v, kind="JSON")
        self.doist = doing.Doist(doers=[self.director], tock=0.25)
        self.doist.enter()
        self.settle()

    def settle(self):
        """Until the controller has seen which mailboxes to poll."""
        with contextlib.redirect_stderr(io.StringIO()):
            quiet = 0
            while quiet < 8:
                was = sum(self.at.values()), len(self.again)
                self.doist.recur()
                quiet = quiet + 1 if was == (sum(self.at.values()), len(self.again)) else 0

    def carry(self, client, req):
        hs = {k: v.decode() if isinstance(v, (bytes, bytearray)) else str(v) for k, v in (req["headers"] or {}).items()}
        h = next((h for h in self.hosts if h.port == client.port), None)
        must(h is not None, f"a poll goes to port {client.port}, which nobody named")
        stream = h.ask(req, hs)
        must(stream is not None, "a poll of a known identifier is not answered")
        self.wires.append(Wire(client, stream))
        return None

    def note(self, msg):
        """A message is handed over."""
        must(msg in self.where, "something that no mailbox holds is handed over")
        h, pre, topic, k = self.where[msg]
        must((h, pre) in self.live, "a mailbox is polled that the controller did not name")
        must(topic in TOPICS, f"a message of topic {topic} is handed over")
        key = (h, pre, topic)
        n = self.at.get(key, 0)
        self.ctx.log("handed", key, k)
        self.ctx.saw("handed")
        if k == n - 1 and key in self.again:
            self.again.discard(key)
            self.ctx.saw("repeated")
            return
        self.again.discard(key)
        same(k, n, "place of a message handed over")
        self.at[key] = n + 1

    def post(self):
        rng = self.rng
        h = rng.choice(self.hosts)
        _, pre = rng.choice(self.pres)
        topic = rng.choice(TOPICS + ["/delegate"])
        self.ctx.saw("unpolled_topic", topic not in TOPICS)
        for _ in range(rng.choice([1, 1, 2, 5])):
            self.n += 1
            words = [rng.choice(["alpha", "gr\u00fc\u00df", "\u5b57", "id: 7", "a\n\ndata: x", "\u2028"]) for _ in range(rng.choice([1, 3, 60]))] + [str(self.n)]
            msg = bytes(self.snd.exchange(route="/challenge/response", receiver=pre, attributes=dict(words=words), version=self.v, gvrsn=self.v, kind="JSON", framed=True))
            h.mbx.storeMsg(topic=f"{pre}{topic}".encode(), msg=msg)
            lot = self.store.setdefault((h.pre, pre, topic), [])
            self.where[msg] = (h.pre, pre, topic, len(lot))
            lot.append(msg)
            self.ctx.saw("posted")

    def turn(self, most=0):
        with contextlib.redirect_stderr(io.StringIO()):
            self.doist.recur()
        for w in list(self.wires):
            if most or self.rng.random() < 0.7:
                w.pump(self.rng, self.ctx, most)

    def stop(self, kind):
        """The controller goes away, in order or at once, and comes back."""
        if kind == "exit":
            self.doist.exit()
        self.wires.clear()
        self.site.restart()
        self.again = {key for key, n in self.at.items() if n}
        self.start()
        self.ctx.saw("restart")

    def close(self):
        from hio.core.http import clienting
        clienting.Client.transport = None
        clienting.Client.deferred = False
        for s in self.hosts:
            s.close()
        self.site.shut()
        self.other.shut()


def case_poll(ctx, rng, i):
    from keri.app import indirecting
    from keri.help import helping
    top = tempfile.mkdtemp(prefix="e07")
    clock = [datetime.datetime(2031, 1, 1, tzinfo=datetime.timezone.utc)]
    was = indirecting.nowUTC
    w = None
    try:
        w = World(ctx, rng, top)
        indirecting.nowUTC = lambda: clock[0]
        w.start()
        stops = i % 3
        for _ in range(rng.randrange(30, 90)):
            clock[0] += datetime.timedelta(seconds=0.25)
            act = rng.random()
            if act < 0.35:
                w.post()
            elif act < 0.40 and w.wires:
                wire = rng.choice(w.wires)          # goes dead until the poller gives it up
                w.wires.remove(wire)
                ctx.saw("cut_off")
            elif act < 0.45:
                clock[0] += datetime.timedelta(seconds=31)
                for wire in list(w.wires):
                    if rng.random() < 0.5:
                        wire.on = False
                w.wires = [x for x in w.wires if x.on]
                ctx.saw("timeout")
            elif act < 0.48 and w.late:
                w.place(w.late.pop())
                ctx.saw("late_address")
            elif act < 0.50 and len(w.pres) < 4:
                w.join()
                w.follow(w.pres[-1][1])
                w.settle()
                ctx.saw("late_identifier")
            elif act < 0.53:
                name, pre = rng.choice(w.pres)
                h = rng.choice(w.hosts)
                w.admit(name, pre, h, rng.random() < 0.5)
            elif act < 0.58 and stops:
                w.stop("exit" if stops == 1 else "crash")
            w.turn()
        for h in w.late:
            w.place(h)
            ctx.saw("late_address")
        w.late = []
        quiet = 0
        for k in range(3000):
            if all(w.at.get((h, p, t), 0) == len(lot) for (h, p, t), lot in w.store.items() if (h, p) in w.live and t in TOPICS):
                quiet += 1
                if quiet > 12:
                    break
            clock[0] += datetime.timedelta(seconds=31 if k % 40 == 39 else 0.25)
            w.turn(10**7)
        for (h, p, t), lot in w.store.items():
            if (h, p) in w.live and t in TOPICS:
                same(w.at.get((h, p, t), 0), len(lot), f"messages of a mailbox for {t} handed over in the end")
        given = {m for m, (h, p, t, k) in w.where.items() if k < w.at.get((h, p, t), 0)}
        from keri.core import serdering
        want = {serdering.SerderKERI(raw=bytearray(m)).said for m in given}
        same(w.handled, want, "messages that were taken in")
        ctx.case(("poll", w.major, len(w.hosts), stops, i), bool(w.at))
    finally:
        indirecting.nowUTC = was
        if w is not None:
            w.close()
        shutil.rmtree(top, ignore_errors=True)


CASES = [("poll", case_poll, 300, 4000)]
