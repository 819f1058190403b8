"""H02: see catalog.py."""
import os
import tempfile

import vboot
import lmdb
import pysodium
import kellib as kl
from vh import must, same

RULE = ("each case opens a controller's stores, makes identifiers of random configuration (both key algorithms, several keys, weighted thresholds, ingested secrets, witnesses run by other controllers, "
        "delegation, establishment only, both versions, all serializations) and applies random actions, refused ones among them, with restarts and crashes at storage commits in between; a remote "
        "validator gets what is produced; non-trivial if at least two rotations and a restart happened")
REQUIRE = ["habs", "rotations", "interactions", "restarts", "refused_rotations", "refused_interactions", "witnessed", "delegated", "ingested", "replayed_keys", "names", "namespaces", "signed", "estonly",
           "nontransferable", "abandoned", "v1", "v2", "remote_states", "fresh_states", "crashes", "crash_in_rotation", "crash_in_interaction", "crash_in_inception", "event_completed", "event_dropped",
           "encrypted", "signator", "deleted", "witness_changes", "weighted", "audited_events"]
ASSUME = ["a transaction is atomic and durable once committed, as lmdb promises", "the first creation of a controller's stores is not interrupted"]
REFUSED = None


class Crash(BaseException):
    pass


class Site:
    """One controller's stores, opened again and again."""

    def __init__(self, top, name, major, rng, bran=None):
        from keri import core
        self.top, self.name, self.major, self.bran = os.path.join(top, name), name, major, bran
        os.makedirs(self.top)
        self.salt = core.Salter(raw=rng.randbytes(16)).qb64
        self.temp = True
        self.open()

    def open(self):
        from keri import kering
        from keri.app import configing, habbing, keeping
        from keri.db import basing
        self.version = kering.Vrsn_1_0 if self.major == 1 else kering.Vrsn_2_0
        self.ks = keeping.Keeper(name=self.name, headDirPath=self.top, reopen=True)
        self.db = basing.Baser(name=self.name, headDirPath=self.top, reopen=True)
        self.hby = habbing.Habery(name=self.name, ks=self.ks, db=self.db, cf=configing.Configer(name=self.name, temp=True, reopen=True), temp=True, salt=self.salt, bran=self.bran,
                                  version=self.version)
        must(self.hby.inited, "stores do not open again")

    def shut(self):
        self.hby.cf.close(clear=True)
        self.ks.close()
        self.db.close()

    def restart(self):
        self.shut()
        self.open()


class Ident:
    """What one identifier should be."""

    def __init__(self, name, ns, kwa):
        self.name, self.ns, self.kwa = name, ns, kwa
        self.wits = []
        self.sent = -1
        self.dead = False
        self.lots = None           # ingested lots still to come


class World:
    def __init__(self, ctx, rng, top, crashy=False):
        self.ctx, self.rng = ctx, rng
        self.major = rng.choice([1, 2])
        ctx.saw(f"v{self.major}")
        self.site = Site(top, "own", self.major, rng, bran="0123456789abcdefghijk" if rng.random() < 0.15 else None)
        ctx.saw("encrypted", bool(self.site.bran))
        self.wsite = Site(top, "wits", self.major, rng)
        self.wits = [self.wsite.hby.makeHab(name=f"w{j}", transferable=False, version=self.site.version).pre for j in range(3)]
        self.remote = kl.Validator(name="remote")
        self.ids = {}
        self.signator = self.site.hby.signator.pre
        self.nrot = self.nres = 0
        self.kinds = {}

    def close(self):
        self.site.shut()
        self.wsite.shut()
        self.remote.close()

    def hab(self, pre):
        return self.site.hby.habByPre(pre)

    def kw(self, pre):
        return dict(version=self.site.version, kind=self.kinds[pre])

    # ------------------------------------------------------------ delivery
    def send(self, pre):
        """Everything of pre not yet delivered, with its witnesses' receipts."""
        hab = self.hab(pre)
        v = self.site.version
        while self.ids[pre].sent < hab.kever.sn:
            sn = self.ids[pre].sent + 1
            msg = hab.msgOwnEvent(sn=sn, framed=True, gvrsn=v)
            serder, _, _ = hab.getOwnEvent(sn=sn)
            self.remote.feed(msg, self.major)
            for w in self.current(pre, sn):
                wh = self.wsite.hby.habByPre(w)
                self.wsite.hby.psr.parse(ims=bytearray(self.all(pre)))
                for _ in range(8):
                    self.wsite.hby.kvy.processEscrows()
                must(pre in wh.kevers, "witness has no key state of %s", pre)
            for w in self.current(pre, sn):
                rct = self.wsite.hby.habByPre(w).witness(serder, framed=True, gvrsn=v, version=v)
                self.remote.feed(rct, self.major)
                self.site.hby.psr.parse(ims=bytearray(rct))
                self.ctx.saw("witnessed")
            self.remote.settle()
            self.ids[pre].sent = sn

    def all(self, pre):
        """Own log, with its delegators' before."""
        hab = self.hab(pre)
        out = b""
        if hab.kever.delpre:
            out += self.all(hab.kever.delpre)
        for sn in range(hab.kever.sn + 1):
            out += bytes(hab.msgOwnEvent(sn=sn, framed=True, gvrsn=self.site.version))
        return out

    def current(self, pre, sn):
        """Witnesses of the event at sn by the stored log."""
        w = []
        for n in range(sn + 1):
            ked = self.hab(pre).getOwnEvent(sn=n)[0].ked
            if ked["t"] in ("icp", "dip"):
                w = list(ked["b"])
            elif ked["t"] in ("rot", "drt"):
                w = [x for x in w if x not in ked["br"]] + list(ked["ba"])
        return w

    def approve(self, pre):
        """The delegator of pre, if any, anchors its last establishment events."""
        d = self.hab(pre).kever.delpre
        if not d:
            return
        for sn in range(self.ids[pre].anchored + 1, self.hab(pre).kever.sn + 1):
            serder = self.hab(pre).getOwnEvent(sn=sn)[0]
            if serder.ked["t"] in ("dip", "drt"):
                seal = [dict(i=pre, s=serder.ked["s"], d=serder.said)]
                if self.hab(d).kever.estOnly:
                    self.rotate(d, dict(self.rotkw(d), data=seal))
                else:
                    self.hab(d).interact(data=seal, **self.kw(d))
                self.ctx.saw("delegated")
            self.ids[pre].anchored = sn
        self.approve(d)
        self.send(d)
        self.remote.settle()

    def deliver(self, pre):
        self.send(pre)
        self.approve(pre)

    # ------------------------------------------------------------- monitors
    def state(self, k):
        return (k.sn, k.serder.said, [v.qb64 for v in k.verfers], str(k.tholder.sith), [d.qb64 for d in k.ndigers], str(k.ntholder.sith), list(k.wits), k.toader.num, k.delpre or None, k.estOnly)

    def judge(self, pre):
        hab = self.hab(pre)
        must(hab is not None and hab.accepted, "identifier %s has no key state", pre)
        must(pre in self.remote.kvy.kevers, "remote validator has no key state of %s", pre)
        same(self.state(self.remote.kvy.kevers[pre]), self.state(hab.kever), "key state of %s at a remote validator against its own", pre)
        self.ctx.saw("remote_states")
        x = self.ids[pre]
        must(self.site.hby.habByName(x.name, ns=x.ns) is hab, "name %r (%r) does not give identifier %s", x.name, x.ns, pre)
        same((hab.name, hab.ns), (x.name, x.ns), "name of %s", pre)
        self.ctx.saw("names")
        self.ctx.saw("namespaces", x.ns is not None)
        ser = self.rng.randbytes(20)
        sigs = hab.sign(ser)
        same(len(sigs), len(hab.kever.verfers), "signatures of %s", pre)
        for s, v in zip(sigs, hab.kever.verfers):
            try:
                pysodium.crypto_sign_verify_detached(s.raw, ser, v.raw)
            except Exception:
                must(False, "signature of %s does not verify under its current keys", pre)
        self.ctx.saw("signed")

    def judgeall(self):
        for pre in self.ids:
            self.judge(pre)
        same(set(self.site.hby.habs), set(self.ids), "identifiers of the controller")
        for pre in self.ids:
            must(pre in self.site.hby.prefixes, "%s is not among the controller's own identifiers", pre)
        s = self.site.hby.signator
        same(s.pre, self.signator, "signing identifier of the stores")
        ser = self.rng.randbytes(9)
        must(s.verify(ser, s.sign(ser)) and not s.verify(ser + b"1", s.sign(ser)), "stores' own signature does not verify")
        self.ctx.saw("signator")

    def fresh(self):
        """A new validator fed only the replay of the stored log."""
        v = kl.Validator(name="fresh")
        try:
            for pre in self.ids:
                v.feed(self.hab(pre).replay(gvrsn=self.site.version), self.major)
            v.settle()
            for pre in self.ids:
                must(pre in v.kvy.kevers, "replayed log of %s is not accepted", pre)
                same(self.state(v.kvy.kevers[pre]), self.state(self.hab(pre).kever), "key state of %s from its replayed log", pre)
                self.ctx.saw("fresh_states")
        finally:
            v.close()

    def audit(self):
        kl.audit(self.ctx, self.site.db, owner=set(self.ids) | {self.signator})

    # -------------------------------------------------------------- actions
    def threshold(self, n):
        rng = self.rng
        if n >= 2 and rng.random() < 0.3:
            self.ctx.saw("weighted")
            return [f"1/{n}" if rng.random() < 0.3 else "1/2" for _ in range(n)] if n == 2 else ["1/2"] * n
        return f"{rng.randint(1, n):x}"

    def incept(self, name=None):
        rng = self.rng
        j = len(self.ids)
        name = name or f"n{j}_{rng.randrange(1000)}"
        ns = f"ns{j}" if rng.random() < 0.2 else None
        n, nn = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
        kw = dict(icount=n, ncount=nn, isith=self.threshold(n), nsith=self.threshold(nn))
        w = rng.random()
        lots = None
        if w < 0.1:
            kw = dict(transferable=False)
            self.ctx.saw("nontransferable")
        elif w < 0.25:
            from keri.core import signing
            size = rng.randint(1, 2)
            nlots = rng.randint(2, 4)
            iridx = rng.randrange(nlots - 1)
            secs = [[signing.Signer(raw=rng.randbytes(32)) for _ in range(size)] for _ in range(nlots)]
            kw = dict(secrecies=[[s.qb64 for s in lot] for lot in secs], iridx=iridx, isith=f"{size:x}", nsith=f"{size:x}", icount=size, ncount=size)
            lots = [[s.verfer.qb64 for s in lot] for lot in secs[iridx:]]
            self.ctx.saw("ingested")
        elif rng.random() < 0.4:
            kw["algo"] = rng.choice(["randy", "salty"])
        ds = [p for p in self.ids if not self.ids[p].dead and not self.hab(p).kever.doNotDelegate]
        if ds and "transferable" not in kw and rng.random() < 0.3:
            kw["delpre"] = rng.choice(ds)
        if rng.random() < 0.3 and "transferable" not in kw:
            kw["wits"] = rng.sample(self.wits, rng.randint(1, 3))
            kw["toad"] = rng.randint(1, len(kw["wits"]))
        if rng.random() < 0.1 and "transferable" not in kw:
            kw["estOnly"] = True
            self.ctx.saw("estonly")
        if rng.random() < 0.1:
            kw["DnD"] = True
        if rng.random() < 0.2:
            kw["data"] = [dict(d=kl.Key(rng).qb64)] if False else None
        kind = rng.choice(["JSON", "JSON", "CBOR", "MGPK"])
        hab = self.site.hby.makeHab(name=name, ns=ns, version=self.site.version, kind=kind, **{k: v for k, v in kw.items() if v is not None})
        x = self.ids[hab.pre] = Ident(name, ns, kw)
        x.anchored = -1
        x.dead = "transferable" in kw
        x.lots = lots
        self.kinds[hab.pre] = kind
        if lots:
            same([v.qb64 for v in hab.kever.verfers], lots[0], "keys of an identifier made from given secrets")
            lots.pop(0)
        self.ctx.saw("habs")
        self.deliver(hab.pre)
        return hab.pre

    def rotkw(self, pre):
        """Arguments of a proper rotation."""
        rng = self.rng
        k = self.hab(pre).kever
        kw = {}
        if self.ids[pre].lots is None and rng.random() < 0.5:
            n = rng.choice([1, 1, 2, 3])
            kw.update(ncount=n, nsith=self.threshold(n))
        elif rng.random() < 0.3:
            kw["isith"] = k.ntholder.sith
        if rng.random() < 0.3:
            cuts = rng.sample(list(k.wits), rng.randint(0, len(k.wits)))
            adds = [w for w in self.wits if w not in k.wits and rng.random() < 0.5]
            if cuts or adds:
                n = len(k.wits) - len(cuts) + len(adds)
                kw.update(cuts=cuts, adds=adds, toad=rng.randint(1, n) if n else 0)
                self.ctx.saw("witness_changes")
        return kw

    def rotate(self, pre, kw=None):
        hab = self.hab(pre)
        before = [d.qb64 for d in hab.kever.ndigers]
        sn = hab.kever.sn
        kw = self.rotkw(pre) if kw is None else kw
        hab.rotate(**kw, **self.kw(pre))
        same(hab.kever.sn, sn + 1, "sequence number after a rotation")
        from keri.core import coring
        same([coring.Diger(ser=v.qb64b, code="E").qb64 for v in hab.kever.verfers], before, "keys after a rotation are those committed before")
        x = self.ids[pre]
        if x.lots:
            same([v.qb64 for v in hab.kever.verfers], x.lots.pop(0), "keys of an identifier made from given secrets")
            self.ctx.saw("replayed_keys")
        elif x.lots is not None:
            x.lots = None
        self.nrot += 1
        self.ctx.saw("rotations")

    def badrotate(self, pre):
        from keri import kering
        rng = self.rng
        hab = self.hab(pre)
        k = hab.kever
        before = self.state(k)
        kw = rng.choice([dict(toad=len(k.wits) + 1), dict(cuts=[kl.Key(rng, False).qb64]), dict(nsith="9"), dict(isith="9"), dict(adds=[kl.Key(rng, False).qb64] * 2), dict(adds=list(k.wits) or ["x"]),
                         dict(data=["not a seal"]) if False else dict(nsith="9", ncount=4), dict(ncount=3, toad=99), dict(ncount=1, toad=99)])
        if self.ids[pre].lots is not None:
            kw.pop("ncount", None)
        try:
            hab.rotate(**kw, **self.kw(pre))
        except (kering.KeriError, ValueError):
            pass
        else:
            must(False, "rotation with %r is accepted", kw)
        same(self.state(self.hab(pre).kever), before, "key state of %s after a refused rotation", pre)
        self.ctx.saw("refused_rotations")

    def interact(self, pre):
        from keri import kering
        hab = self.hab(pre)
        rng = self.rng
        if hab.kever.estOnly:
            before = self.state(hab.kever)
            try:
                hab.interact(**self.kw(pre))
            except (kering.KeriError, ValueError):
                pass
            else:
                must(False, "interaction of an establishment only identifier is accepted")
            same(self.state(hab.kever), before, "key state after a refused interaction")
            self.ctx.saw("refused_interactions")
            return
        data = [dict(i=hab.pre, s=f"{rng.randrange(40):x}", d=hab.kever.serder.said) for _ in range(rng.randint(0, 2))]
        hab.interact(data=data, **self.kw(pre))
        self.ctx.saw("interactions")

    def bury(self, pre):
        """An abandoned identifier approves nothing any more."""
        self.ids[pre].dead = True
        for p in self.ids:
            if self.hab(p).kever.delpre == pre and not self.ids[p].dead:
                self.bury(p)

    def restart(self):
        self.site.restart()
        self.nres += 1
        self.ctx.saw("restarts")
        self.judgeall()

    def delete(self, pre):
        if any(self.hab(p).kever.delpre == pre for p in self.ids):
            return
        x = self.ids.pop(pre)
        must(self.site.hby.deleteHab(x.name, ns=x.ns), "identifier %s is not removed", pre)
        must(self.site.hby.habByName(x.name, ns=x.ns) is None, "removed identifier still has its name")
        self.ctx.saw("deleted")

    def step(self):
        rng = self.rng
        live = [p for p in self.ids if not self.ids[p].dead]
        w = rng.random()
        if w < 0.12 or not live:
            self.incept()
            return
        pre = rng.choice(live)
        self.ctx.log(round(w, 2), pre, self.hab(pre).kever.sn)
        if w < 0.45:
            self.rotate(pre)
        elif w < 0.65:
            self.interact(pre)
        elif w < 0.75:
            self.badrotate(pre)
        elif w < 0.78 and self.ids[pre].lots is None and rng.random() < 0.5:
            self.rotate(pre, dict(ncount=0, nsith="0"))
            self.deliver(pre)
            self.bury(pre)
            self.ctx.saw("abandoned")
        elif w < 0.82 and len(self.ids) > 1:
            self.delete(pre)
            return
        else:
            self.restart()
        self.deliver(pre)
        self.judge(pre)


def history(ctx, rng, i):
    with tempfile.TemporaryDirectory(prefix="vh02") as top:
        w = World(ctx, rng, top)
        try:
            w.incept()
            for _ in range(rng.randint(8, 24) if ctx.thorough else rng.randint(6, 14)):
                w.step()
            w.judgeall()
            w.fresh()
            w.audit()
            w.restart()
            for pre in list(w.ids):
                if not w.ids[pre].dead:
                    w.rotate(pre, {})
                    w.deliver(pre)
            w.judgeall()
            ctx.case((tuple(w.ids), w.nrot, w.nres), w.nrot >= 2 and w.nres >= 1)
            ctx.sample(dict(identifiers=len(w.ids), rotations=w.nrot, restarts=w.nres))
        finally:
            w.close()


def crash(ctx, rng, i):
    """The process dies at a storage commit of an action; opened again everything goes on."""
    with tempfile.TemporaryDirectory(prefix="vh02") as top:
        w = World(ctx, rng, top)
        try:
            for _ in range(rng.randint(1, 3)):
                w.incept()
            for _ in range(rng.randint(0, 4)):
                w.step()
            for _ in range(4 if ctx.thorough else 2):
                live = [p for p in w.ids if not w.ids[p].dead and p in w.site.hby.habs]
                if not live:
                    break
                pre = rng.choice(live)
                hab = w.hab(pre)
                sn = hab.kever.sn
                op = rng.choice(["rotation", "rotation", "interaction", "inception"])
                if op == "interaction" and hab.kever.estOnly:
                    op = "rotation"
                kw = w.rotkw(pre)
                # a rotation needs about twice as many commits as an interaction
                at, seen = rng.randrange(14 if op == "rotation" else 10 if op == "interaction" else 30), [0]

                def die(env, seq, changes):
                    if seen[0] == at:
                        raise Crash()
                    seen[0] += 1
                ctx.log("crash", op, at, pre, sn)
                made = None
                lmdb.hooks.on_commit = die
                try:
                    if op == "rotation":
                        hab.rotate(**kw, **w.kw(pre))
                    elif op == "interaction":
                        hab.interact(data=[dict(d=hab.kever.serder.said)], **w.kw(pre))
                    else:
                        made = w.site.hby.makeHab(name=f"c{rng.randrange(10 ** 6)}", version=w.site.version, icount=2, ncount=1).pre
                    died = False
                except Crash:
                    died = True
                finally:
                    lmdb.hooks.on_commit = None
                w.site.restart()
                if died:
                    ctx.saw("crashes")
                    ctx.saw(f"crash_in_{op}")
                new = set(w.site.hby.habs) - set(w.ids)
                if made:
                    same(new, {made}, "identifiers after a restart")
                must(len(new) <= (op == "inception"), "identifiers appear: %r", new)
                for p in new:
                    h = w.hab(p)
                    x = w.ids[p] = Ident(h.name, h.ns, {})
                    x.anchored = -1
                    w.kinds[p] = "JSON"
                    w.deliver(p)
                now = w.hab(pre)
                must(now is not None and now.accepted, "identifier %s is lost in a crash during %s", pre, op)
                must(now.kever.sn in (sn, sn + (op != "inception")) and (died or now.kever.sn == sn + (op != "inception")), "sequence number %d after a crash at %d", now.kever.sn, sn)
                if died and op != "inception":
                    ctx.saw("event_completed" if now.kever.sn > sn else "event_dropped")
                x = w.ids[pre]
                if now.kever.sn > sn and op == "rotation" and x.lots is not None:
                    if x.lots:
                        x.lots.pop(0)
                    else:
                        x.lots = None
                w.deliver(pre)
                w.judgeall()
                for _ in range(rng.randint(1, 3)):
                    if rng.random() < 0.3 and not w.hab(pre).kever.estOnly:
                        w.interact(pre)
                    else:
                        w.rotate(pre, {} if rng.random() < 0.5 else None)
                    w.deliver(pre)
                    w.judge(pre)
                if rng.random() < 0.3:
                    w.incept()
            w.judgeall()
            w.fresh()
            if all(k[0] in w.site.db.kevers for k, _, _ in w.site.db.kels.getAllItemIter()):      # else an interrupted inception is left without state
                w.audit()
            ctx.case((tuple(w.ids), w.nrot, i), True)
        finally:
            w.close()


CASES = [("history", history, 100, 1500), ("crash", crash, 120, 2000)]
