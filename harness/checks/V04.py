"""V04: see catalog.py."""
import contextlib
import io
from types import SimpleNamespace

import vboot
import cesrlib as cl
import kellib as kl
from vh import must, same

RULE = ("each scene has one to three parties with single, weighted or multiple keys or none that rotate, and a desk handling exchange messages of version 1 or 2; made by the library's builders or freely, messages go to it "
        "in legal and illegal order, repeated, partly signed, mis-signed, by third parties, before their sender is known; non-trivial if an exchange of three messages was accepted")
REQUIRE = ["v1", "v2", "accepted", "acc_apply", "acc_offer", "acc_agree", "acc_grant", "acc_admit", "acc_spurn", "acc_chat", "length3", "refused_order", "refused_taken", "refused_party", "refused_start", "refused_content",
           "bad_signature", "wrong_signer", "repeated", "waited_key", "waited_sigs", "unescrowed", "unescrow_refused", "rotations", "several_keys", "fixed_key", "blocker", "read_back", "relayed", "embedded", "notices",
           "extra_bad_signature", "foreign_prior"]
ASSUME = ["messages carrying encrypted content are not generated", "a signature by keys of the sender's key event it names counts also after a rotation", "messages of unknown routes are stored",
          "unsigned attachments of a message still waiting may be replaced", "the escrow's time limit is not reached", "one message does not carry the same message twice", "version 2 spurn of a grant is not generated"]

PREV = {"offer": ("apply",), "agree": ("offer",), "grant": ("agree",), "admit": ("grant",), "spurn": ("apply", "offer", "agree", "grant")}
VERBS = ["apply", "offer", "agree", "grant", "admit", "spurn"]


class Tap:
    """Stands where the exchanger stands to see what the parser reads from a message."""

    def __init__(self):
        self.got = None

    def processEvent(self, **kwa):
        self.got = kwa


class Msg:
    def __init__(self, serder, raw, sender, route, prior, to, good, parts, sn):
        self.serder, self.raw, self.sender, self.route, self.prior, self.to = serder, bytes(raw), sender, route, prior, to
        self.good = good                      # content rule of its verb is met
        self.parts = parts                    # [(label, body, attachments)]
        self.said, self.sn = serder.said, sn
        self.verb = route.split("/")[2] if route.startswith("/ipex/") and route.count("/") == 2 else None


class Desk:
    def __init__(self, major, world):
        from keri.peer import exchanging
        self.major, self.world = major, world
        self.v = kl.Validator()
        self.hby = SimpleNamespace(db=self.v.db, kevers=self.v.kvy.kevers)
        self.notes, self.handled = [], []
        desk = self
        if major == 1:
            from keri.vc import protocoling as mod
        else:
            from keri.acdc import ipexing as mod

        class Noter:
            def add(self, attrs):
                desk.notes.append(attrs)

        self.exc = exchanging.Exchanger(hby=self.hby, handlers=[])
        self.exc.TimeoutPSE = 10 ** 6
        mod.loadHandlers(self.hby, self.exc, Noter())
        for h in list(self.exc.routes.values()):
            def handle(serder, attachments=None, nests=None, real=h.handle, **kwa):
                desk.handled.append((serder.said, attachments, nests))
                return real(serder=serder, attachments=attachments, **({"nests": nests} if nests is not None else {}), **kwa)
            h.handle = handle

        class Chat:
            resource = "/chat"

            def handle(self, serder, **kwa):
                desk.handled.append((serder.said, None, None))

        self.exc.addHandler(Chat())
        self.known = {}                       # party -> sn
        self.accepted, self.answer, self.waiting, self.dropped = {}, {}, {}, set()
        self.last = None

    def close(self):
        self.v.close()

    # ---------------------------------------------------------- reference
    def rule(self, m, accepted, answer):
        """Why the protocol refuses the message now, or nothing."""
        if m.verb not in VERBS:
            return None
        if not m.good:
            return "content"
        if m.verb == "apply":
            return "start" if m.prior else None
        if not m.prior:
            return None if m.verb in ("offer", "grant") else "start"
        p = accepted.get(m.prior)
        if p is None or p.verb not in PREV[m.verb]:
            return "order"
        to = p.to or (accepted[p.prior].sender if p.prior in accepted else None)
        if to not in (None, m.sender):
            return "party"
        return "taken" if p.said in answer else None

    def admit(self, m, accepted, answer):
        why = self.rule(m, accepted, answer)
        if why is None:
            accepted[m.said] = m
            if m.verb in VERBS and m.prior:
                answer[m.prior] = m.said
        return why

    # ------------------------------------------------------------ delivery
    def quiet(self, f, *pa, **kwa):
        from keri.kering import KeriError
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                return f(*pa, **kwa)
            except (KeriError, ValueError) as ex:
                self.world.ctx.log(type(ex).__name__, str(ex)[:70])

    def parse(self, raw):
        from keri.core.parsing import Parser
        from keri.kering import Vrsn_1_0, Vrsn_2_0
        self.quiet(Parser(version=Vrsn_1_0 if self.major == 1 else Vrsn_2_0).parse, ims=bytearray(raw), kvy=self.v.kvy, exc=self.exc)

    def learn(self, pre, upto=None):
        w = self.world
        evs = w.kels[pre]
        upto = len(evs) - 1 if upto is None else upto
        while self.known.get(pre, -1) < upto:
            sn = self.known.get(pre, -1) + 1
            self.parse(evs[sn])
            self.known[pre] = sn
            same(self.v.sn(pre), sn, "key event delivered")

    def deliver(self, m, sigs, how):
        """sigs: (sn, said, {index: siger}) or cigars; how: what is true of them."""
        w, ctx = self.world, self.world.ctx
        before = dict(self.accepted)
        if how == "raw":
            self.parse(m.raw)
        else:
            kw = dict(w.exts(m))
            kw["tsgs"], kw["cigars"] = [], []
            if m.sender in w.fixed or how == "couple":
                kw["cigars"] = sigs
            else:
                kw["tsgs"] = sigs
            self.quiet(self.exc.processEvent, **kw)
        if m.said in self.accepted:
            return ctx.saw("repeated")
        if how in ("false", "foreign", "couple"):
            ctx.saw("bad_signature" if how == "false" else "wrong_signer")
            if how == "false" and m.sender not in w.fixed:
                self.waiting.setdefault(m.said, (m, {}))
            return
        if m.sender in w.fixed:
            why = self.admit(m, self.accepted, self.answer)
        else:
            groups = sigs if how != "raw" else [w.group(m)]
            sn, idx = groups[0][1].sn, {s.index for s in groups[0][3]}
            if self.known.get(m.sender, -1) < sn or not w.enough(m.sender, sn, idx):
                ctx.saw("waited_key" if self.known.get(m.sender, -1) < sn else "waited_sigs")
                self.waiting.setdefault(m.said, (m, {}))[1].setdefault(sn, set()).update(idx)
                return
            why = self.admit(m, self.accepted, self.answer)
        ctx.saw(f"refused_{why}" if why else "accepted")
        if not why:
            ctx.saw(f"acc_{m.verb or m.route[1:]}")

    def process(self):
        """Escrow processing: those that became ready are judged, in any order among them."""
        w, ctx = self.world, self.world.ctx
        self.quiet(self.exc.processEscrow)
        ready = []
        for said, (m, have) in sorted(self.waiting.items()):
            if said in self.accepted:
                del self.waiting[said]
            elif any(self.known.get(m.sender, -1) >= sn and w.enough(m.sender, sn, idx) for sn, idx in have.items()):
                ready.append(m)
                del self.waiting[said]
        if not ready:
            return
        got = {m.said for m in ready if self.v.db.exns.get(keys=(m.said,)) is not None}
        acc, ans, left = dict(self.accepted), dict(self.answer), [m for m in ready if m.said in got]
        late = [m for m in ready if m.said not in got]
        refused = {m.said for m in late if self.rule(m, acc, ans)}
        while left:
            m = next((m for m in left if self.rule(m, acc, ans) is None), None)
            must(m is not None, f"waiting {[m.route for m in left]} accepted against the protocol")
            self.admit(m, acc, ans)
            left.remove(m)
        refused |= {m.said for m in late if self.rule(m, acc, ans)}
        must(refused == {m.said for m in late}, f"waiting {[m.route for m in late if m.said not in refused]} not accepted once their signatures verify")
        self.accepted, self.answer = acc, ans
        ctx.saw("unescrowed", len(got))
        ctx.saw("unescrow_refused", len(ready) - len(got))
        self.dropped |= {m.said for m in late}
        for m in ready:
            if m.said in got:
                ctx.saw(f"acc_{m.verb or m.route[1:]}")

    # ------------------------------------------------------------- monitor
    def audit(self, full=False):
        ctx, w = self.world.ctx, self.world
        stored = {k[0]: s for k, s in self.v.db.exns.getTopItemIter()}
        same(sorted(f"{w.msgs[s].route} {s}" for s in stored), sorted(f"{m.route} {m.said}" for m in self.accepted.values()), "accepted messages")
        notes = [n["d"] for n in self.notes]
        same(sorted(notes), sorted(m.said for m in self.accepted.values() if m.verb in VERBS), "one notice per accepted message")
        for n in self.notes:
            m = w.msgs[n["d"]]
            same((n["r"], n["m"]), ("/exn" + m.route, m.serder.ked["a"]["m"]), "notice")
        ctx.saw("notices", len(notes))
        saved = [c["said"] for c in self.exc.cues if c["kin"] == "saved"]
        same(sorted(saved), sorted(self.accepted), "one report per accepted message")
        same({k[0] for k, _ in self.v.db.epse.getTopItemIter()}, set(self.waiting), "waiting messages")
        for said, m in w.msgs.items():
            must(bool(self.exc.complete(said)) == (said in self.accepted), "completeness reported wrongly")
        for said, m in self.accepted.items():
            same(bytes(stored[said].raw), bytes(m.serder.raw), "stored message")
            if m.verb:
                r = self.exc.routes[m.route].response(m.serder)
                same(r.said if r is not None else None, self.answer.get(said), "response found")
        for said, atts, nests in self.handled:
            self.content(w.msgs[said], atts, nests)
        self.handled.clear()
        if full:
            for said, m in self.accepted.items():
                self.readback(m)

    def content(self, m, atts, nests):
        if not m.verb or not m.parts:
            return
        self.world.ctx.saw("embedded")
        if self.major == 1:
            got = {tuple(p.rparts): bytes(a) for p, a in atts}
            same(got, {(lab,): bytes(a) for lab, _, a in m.parts if a}, "attachments handed over")
        else:
            got = [n if isinstance(n, dict) else n.__dict__ for n in nests]
            same([bytes(n["serder"].raw) for n in got], [bytes(b) for _, b, _ in m.parts], "embedded messages handed over")
            same([[s.qb64 for s in n["sigers"]] for n in got], [a for _, _, a in m.parts], "signatures of embedded messages")

    def readback(self, m):
        from keri.peer import cloneMessage
        self.world.ctx.saw("read_back")
        serder, pathed = cloneMessage(self.hby, m.said)
        same(bytes(serder.raw), bytes(m.serder.raw), "message read back")
        if self.major == 1:
            same({k: bytes(a) for k, a in pathed.items()}, {lab: bytes(a) for lab, _, a in m.parts if a}, "attachments read back")
            for lab, body, _ in m.parts:
                same(serder.ked["e"][lab], kl.decode(bytes(body), "JSON"), "embedded message read back")

    def relay(self):
        """What is stored is accepted just so by another desk."""
        from keri.peer import serializeMessage
        w = self.world
        other = Desk(self.major, w)
        try:
            for pre in w.kels:
                other.learn(pre)
            for said, m in self.accepted.items():
                raw = serializeMessage(self.hby, said)
                must(bytes(raw).startswith(bytes(m.serder.raw)), "relayed message differs")
                other.parse(raw)
                why = other.admit(m, other.accepted, other.answer)
                must(why is None, "model")
                must(other.v.db.exns.get(keys=(said,)) is not None, f"relayed {m.route} not accepted")
                w.ctx.saw("relayed")
            other.audit(full=True)
        finally:
            other.close()


class World:
    def __init__(self, ctx, rng, major):
        from keri import core, kering
        from keri.app import habbing
        self.ctx, self.rng, self.major = ctx, rng, major
        self.version = kering.Vrsn_1_0 if major == 1 else kering.Vrsn_2_0
        ctx.saw(f"v{major}")
        self.hby = habbing.Habery(name="w", temp=True, salt=core.Salter(raw=rng.randbytes(16)).qb64, version=self.version)
        self.habs, self.kels, self.fixed, self.msgs, self.read = {}, {}, set(), {}, {}
        self.ests, self.used = {}, {}
        for i in range(rng.choice([2, 2, 3])):
            kw = dict(version=self.version)
            r = rng.random()
            if r < 0.15 and major == 1:
                kw["transferable"] = False
            elif r < 0.5:
                n = rng.choice([2, 3, 3])
                kw |= dict(icount=n, ncount=n, isith=rng.choice([str(n), str(n - 1), ["1/2"] * n]), nsith=str(rng.randint(1, n)))
                ctx.saw("several_keys")
            hab = self.hby.makeHab(name=f"p{i}", **kw)
            self.habs[hab.pre] = hab
            self.kels[hab.pre] = []
            if not hab.kever.prefixer.transferable:
                self.fixed.add(hab.pre)
                ctx.saw("fixed_key")
            self.note(hab.pre)
        self.arts = []
        self.n = 0

    def close(self):
        self.hby.close(clear=True)

    def note(self, pre):
        hab = self.habs[pre]
        self.kels[pre].append(bytes(hab.msgOwnEvent(sn=hab.kever.sn, framed=False, gvrsn=self.version)))
        self.ests[pre, hab.kever.lastEst.s] = (hab.kever.lastEst.d, hab.kever.tholder)

    def enough(self, pre, sn, idx):
        return self.ests[pre, sn][1].satisfy(sorted(idx))

    # ------------------------------------------------------------- content
    def artifact(self, pre):
        """A message with or without attachments to embed: (what a builder takes, body, attachments)."""
        from keri.vc import proving
        from keri.core import Salter
        rng, hab = self.rng, self.habs[pre]
        self.n += 1
        r = rng.random()
        if r < 0.5 or pre in self.fixed:
            if self.major == 1:
                s = proving.credential(schema="E" + "A" * 43, issuer=pre, data=dict(n=self.n, dt="2025-01-01T00:00:00.000000+00:00"), status="E" + "B" * 43, version=self.version)
                a = b""
                if rng.random() < 0.5:
                    a = ("-IAB" + s.said + "0A" + cl.intb64(self.n, 22) + s.said).encode()
                return bytes(s.raw) + a, bytes(s.raw), a
            from keri.acdc import acdcmap
            s = acdcmap(israid=pre, regid="E" + "B" * 43, attribute=dict(d="", n=str(self.n)), iseaid=pre)
            return s, bytes(s.raw), []
        if self.used.get(pre) == hab.kever.sn or r < 0.7:
            hab.interact(data=[dict(n=str(self.n))], version=self.version)
            self.note(pre)
        self.used[pre] = hab.kever.sn
        raw = self.kels[pre][-1]
        serder, sigs, _ = hab.getOwnEvent(sn=hab.kever.sn)
        return raw, raw[:serder.size], (raw[serder.size:] if self.major == 1 else [s.qb64 for s in sigs])

    def build(self, verb, sender, to, prior, free=False):
        """A message of the library's builders."""
        rng, hab = self.rng, self.habs[sender]
        self.n += 1
        text = f"message {self.n} \u00e9"
        sn = hab.kever.lastEst.s
        ps = self.msgs[prior].serder if prior else None
        parts = []
        if verb == "offer":
            arts = [("acdc", self.artifact(sender))]
        elif verb == "grant":
            arts = [("acdc", self.artifact(sender))] + [(k, self.artifact(sender)) for k in ("iss", "anc") if rng.random() < 0.6]
        else:
            arts = []
        sn = hab.kever.lastEst.s
        parts = [(lab, b, a) for lab, (_, b, a) in arts]
        made = {lab: s for lab, (s, _, _) in arts}
        data = dict(score=str(self.n)) if rng.random() < 0.5 else {}
        if self.major == 1:
            from keri.vc import protocoling as mod
            kw = dict(version=self.version, framed=rng.random() < 0.5)
            if verb == "apply":
                serder, atc = mod.ipexApplyExn(hab, to, text, "E" + "A" * 43, data, **kw)
            elif verb == "offer":
                serder, atc = mod.ipexOfferExn(hab, text, made["acdc"], apply=ps, **kw)
                to = None
            elif verb == "grant":
                serder, atc = mod.ipexGrantExn(hab, to, text, made["acdc"], iss=made.get("iss"), anc=made.get("anc"), agree=ps, **kw)
            elif verb == "agree":
                serder, atc = mod.ipexAgreeExn(hab, text, ps, **kw)
            elif verb == "admit":
                serder, atc = mod.ipexAdmitExn(hab, text, ps, **kw)
            else:
                serder, atc = mod.ipexSpurnExn(hab, text, ps, **kw)
            if verb in ("agree", "admit", "spurn"):
                to = None
        else:
            from keri.acdc import ipexing as mod
            if verb == "apply":
                serder, atc = mod.apply(hab, to, text, "E" + "A" * 43, data)
            elif verb == "offer":
                serder, atc = mod.offer(hab, text, made["acdc"], apply=ps, recp=to)
            elif verb == "grant":
                serder, atc = mod.grant(hab, to, text, made["acdc"], iss=made.get("iss"), anc=made.get("anc"), agree=ps)
            else:
                serder, atc = getattr(mod, verb)(hab, text, ps, recp=to)
        same((serder.ked["r"], serder.ked["i"], serder.ked["p"], serder.ked["a"]["m"]), (f"/ipex/{verb}", sender, prior or "", text), "message built")
        if self.major == 1:
            same({k: v for k, v in serder.ked["e"].items() if k != "d"}, {lab: kl.decode(b, "JSON") for lab, b, _ in parts}, "embedded messages built in")
        if verb == "apply":
            same((serder.ked["a"]["s"], serder.ked["a"]["a"]), ("E" + "A" * 43, data), "application built")
        return self.keep(Msg(serder, bytes(serder.raw) + bytes(atc), sender, f"/ipex/{verb}", prior, to, True, parts, sn))

    def keep(self, m):
        self.msgs[m.said] = m
        return m

    def free(self, route, sender, to, prior, nests=None, attrs=None, parts=(), good=True):
        """A message no builder makes."""
        from keri.core import messagize
        from keri.peer.exchanging import specialExchange
        from keri.core.eventing import exchange
        rng, hab = self.rng, self.habs[sender]
        self.n += 1
        a = dict(attrs or {}, m=f"free {self.n}")
        if self.major == 1:
            serder, _ = specialExchange(sender=sender, receiver=to or "", prior=prior or "", route=route, attributes=a, embeds={}, version=self.version, pvrsn=self.version, gvrsn=self.version)
            if to:
                pass
        else:
            serder = exchange(sender=sender, receiver=to or "", prior=prior or "", route=route, attributes=a, pvrsn=self.version, gvrsn=self.version)
        raw = hab.endorse(serder=serder, framed=False, gvrsn=self.version, **({"nests": nests} if nests else {}))
        return self.keep(Msg(serder, raw, sender, route, prior, to, good, list(parts), hab.kever.lastEst.s))

    def exts(self, m):
        if m.said not in self.read:
            from keri.core.parsing import Parser
            t = Tap()
            Parser(version=self.version).parse(ims=bytearray(m.raw), exc=t)
            must(t.got is not None, f"message made is not read: {m.route} {m.raw[-300:]}")
            self.read[m.said] = t.got
        return dict(self.read[m.said])

    def group(self, m):
        return self.exts(m)["tsgs"][0]


def turn(w, d, rng, ctx):
    """One step at the desk."""
    r = rng.random()
    acc = list(d.accepted.values())
    pres = list(w.habs)
    if r < 0.07:
        pre = rng.choice(pres)
        if pre not in w.fixed:
            n = len(w.habs[pre].kever.ndigers)
            w.habs[pre].rotate(version=w.version, **({"isith": str(n), "nsith": "1", "ncount": 1} if rng.random() < 0.3 else {}))
            w.note(pre)
            ctx.saw("rotations")
        return
    if r < 0.17:
        pre = rng.choice(pres)
        d.learn(pre, rng.randint(d.known.get(pre, -1), len(w.kels[pre]) - 1))
        return
    if r < 0.27:
        d.process()
        return
    if r < 0.42 and w.msgs:
        m = rng.choice(list(w.msgs.values())[-8:])
    elif r < 0.75 and acc:
        live = (rng.random() < 0.7 and [p for p in acc if p.verb and p.said not in d.answer]) or acc
        p = live[-1] if rng.random() < 0.6 else rng.choice(live)
        nexts = [v for v in PREV if p.verb in PREV[v] and v != "spurn"] or ["spurn"]
        verb = rng.choice(nexts) if rng.random() < 0.85 else rng.choice(VERBS[1:])
        if rng.random() < 0.1:
            verb = "spurn"
        if (w.major, verb, p.verb) == (2, "spurn", "grant"):        # whether a grant may be spurned differs between versions
            verb = "admit"
        who = p.to or (d.accepted[p.prior].sender if p.prior in d.accepted else rng.choice(pres))
        if rng.random() < 0.12:
            who = rng.choice(pres)
        m = w.build(verb, who, p.sender if rng.random() < 0.9 else rng.choice(pres), p.said)
    elif r < 0.86 or not w.msgs:
        a, b = (rng.sample(pres, 2))
        m = w.build(rng.choice(["apply", "apply", "offer", "grant"]), a, b, None)
    else:
        prior = rng.choice(list(w.msgs)) if rng.random() < 0.85 else None
        route = rng.choice(["/chat", "/chat", "/chat", "/note", "/chat/offer", "/note/grant", "/ipex/apply", "/ipex/agree", "/ipex/admit", "/ipex/spurn"])
        if route == "/chat":
            ctx.saw("blocker", bool(prior and prior in d.accepted))
        kw = {}
        if w.major == 2 and rng.random() < 0.6:
            who = rng.choice(pres)
            kw = odd(w, who, rng)
            route = kw.pop("route")
            prior = None
            m = w.free(route, who, rng.choice(pres), prior, **kw)
        else:
            if route == "/ipex/spurn" and prior and w.major == 2 and w.msgs[prior].verb == "grant":
                route = "/ipex/agree"
            m = w.free(route, rng.choice(pres), rng.choice(pres) if rng.random() < 0.5 else None, prior)
        if m.route in ("/chat/offer", "/note/grant") and m.sender in pres:
            send(w, d, rng, ctx, m, "raw")
            ctx.saw("foreign_prior")
            m = w.build("agree" if "offer" in m.route else "admit", rng.choice(pres), m.sender, m.said)
    send(w, d, rng, ctx, m)


def odd(w, who, rng):
    """Version 2 content that does not match what is carried along, or does."""
    from keri.acdc import ipexing as mod
    arts = [w.artifact(who) for _ in range(rng.randint(1, 3))]
    labs = ["acdc", "iss", "anc"][:len(arts)]
    saids = [mod._streamSerder(a[0]).said for a in arts]
    attrs, order = dict(zip(labs, saids)), list(range(len(arts)))
    x = rng.choice(["missing", "extra", "swapped", "other", "fine", "none", "verb", "verb"])
    route = "/ipex/grant"
    if x == "missing":
        order.pop(rng.randrange(len(order)))
    elif x == "extra":
        arts.append(w.artifact(who))
        saids.append(mod._streamSerder(arts[-1][0]).said)
        order.append(len(arts) - 1)
    elif x == "swapped":
        order.reverse()
    elif x == "other":
        attrs[rng.choice(labs)] = "E" + "C" * 43
    elif x == "none":
        order = []
    elif x == "verb":
        route = rng.choice(["/ipex/apply", "/ipex/offer"])
        if route == "/ipex/offer" and rng.random() < 0.5:
            attrs, order = {"acdc": saids[0]}, [0]
    good = [saids[i] for i in order] == [attrs[k] for k in ("acdc", "iss", "anc") if k in attrs]
    if route == "/ipex/apply":
        good = not order
    elif route == "/ipex/offer":
        good = [saids[i] for i in order] == [attrs["acdc"]]
    parts = [("x", arts[i][1], arts[i][2]) for i in order]
    return dict(route=route, attrs=attrs, nests=[mod._normalizeNestedStream(arts[i][0]) for i in order], parts=parts, good=good)


def send(w, d, rng, ctx, m, how=None):
    from keri.core import Diger, Number, Prefixer
    how = how or rng.choices(["raw", "some", "false", "foreign", "couple", "extra"], [9, 3, 1.5, 0.7, 0.4, 1])[0]
    if m.said in d.dropped:                   # whether earlier true signatures are kept is open
        how = "raw"
    hab = w.habs[m.sender]
    if how == "raw":
        return d.deliver(m, None, "raw")
    full = w.exts(m)
    if m.sender in w.fixed:
        cig = full["cigars"][0]
        if how in ("false", "foreign", "couple", "extra"):
            o = w.habs[rng.choice([p for p in w.habs if p != m.sender])]
            bad = [hab.sign(m.serder.raw + b" ", indexed=False)[0]] if how == "false" else o.sign(m.serder.raw, indexed=False)
            return d.deliver(m, bad, "false" if how == "false" else "foreign")
        return d.deliver(m, [cig], "true")
    pre, sn, dig, sigers = full["tsgs"][0]
    other = w.habs[rng.choice([p for p in w.habs if p != m.sender])]
    if how == "some":
        k = rng.randint(1, len(sigers))
        return d.deliver(m, [(pre, sn, dig, rng.sample(sigers, k))], "true")
    bad = hab.sign(bytes(m.serder.raw) + b" ", indexed=True) if rng.random() < 0.5 else other.sign(m.serder.raw, indexed=True)
    if how == "false":
        return d.deliver(m, [(pre, sn, dig, bad)], "false")
    if how == "foreign":
        o = w.habs[other.pre]
        return d.deliver(m, [(Prefixer(qb64=o.pre), Number(num=o.kever.lastEst.s), Diger(qb64=o.kever.lastEst.d), o.sign(m.serder.raw, indexed=True))], "foreign")
    if how == "couple":
        return d.deliver(m, other.sign(m.serder.raw, indexed=False), "couple")
    # a false signature first, then the true ones
    ctx.saw("extra_bad_signature")
    d.deliver(m, [(pre, sn, dig, bad)], "false")
    if rng.random() < 0.4:
        d.process()
    return d.deliver(m, None, "raw")


def scene(ctx, rng, major, n=28):
    w = World(ctx, rng, major)
    d = Desk(major, w)
    try:
        for pre in w.kels:
            if rng.random() < 0.7:
                d.learn(pre)
        for step in range(n):
            turn(w, d, rng, ctx)
            d.audit(full=rng.random() < 0.15)
        for pre in w.kels:
            d.learn(pre)
        d.process()
        d.process()
        d.audit(full=True)
        d.relay()
        deep = {}
        for said, m in d.accepted.items():
            deep[said] = 1 + deep.get(m.prior, 0) if m.verb else 0
        long = sum(v >= 3 for v in deep.values())
        ctx.saw("length3", long)
        ctx.case(repr([(m.route, m.prior and m.prior[-4:]) for m in d.accepted.values()]) + str(w.n), nontrivial=long > 0)
    finally:
        d.close()
        w.close()


def v1(ctx, rng, i):
    scene(ctx, rng, 1)


def v2(ctx, rng, i):
    scene(ctx, rng, 2)


CASES = [("v1", v1, 100, 2500), ("v2", v2, 100, 2500)]
