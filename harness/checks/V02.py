"""V02: see catalog.py."""
import json
import os
import tempfile
from types import SimpleNamespace

import vboot
import lmdb
import cesrlib as cl
import kellib as kl
import msggen as mg
from vh import must, same

RULE = ("each scene makes issuers (with and without witnesses, own or foreign to the node), registries and chains of updates of every serialization, then delivers key events, missing receipts, registry events, "
        "explicit anchorings, escrow processing, restarts, repetitions and hostile registry events in random order, with crashes at storage commits; non-trivial if at least two updates waited")
REQUIRE = ["registries", "updates", "steps", "accepted", "waited_anchor", "waited_order", "receipts_later", "anchored_by_rot", "explicit", "explicit_refused", "restarts", "repeated", "hostile", "unanchored", "mis_sealed",
           "wrong_prior", "wrong_place", "other_registry", "altered", "other_issuer", "bad_inception", "other_sort", "conflicts", "final", "crashes", "crash_effective", "local_issues", "local_refused",
           "names", "unblinded", "heads", "audited", "no_key_given", "json", "cbor", "mgpk", "several_seals"]
ASSUME = ["a transaction is atomic and durable once committed, as lmdb promises", "key events that seal registry events are not superseded",
          "an issuer does not seal two different updates for one place, except as conflict: then the first accepted one stays"]


class Crash(BaseException):
    pass


def dt(rng):
    return f"20{rng.randint(20, 39)}-{rng.randint(1, 12):02}-{rng.randint(1, 28):02}T{rng.randint(0, 23):02}:{rng.randint(0, 59):02}:{rng.randint(0, 59):02}.{rng.randint(0, 999999):06}+00:00"


class E:
    """One registry event."""

    def __init__(self, sad, raw, reg=None):
        self.sad, self.raw, self.reg = sad, raw, reg
        self.said, self.sn = sad["d"], int(sad["n"], 16)
        self.regk = self.said if sad["t"] == "rip" else sad["rd"]
        self.anchor = None

    def seal(self):
        return dict(i=self.regk, s=self.sad["n"], d=self.said)

    def serder(self):
        from keri.core.serdering import SerderACDC
        return SerderACDC(raw=bytes(self.raw))


def rip(rng, pre, kind, **over):
    sad = dict(v=mg.vstring("ACDC", 2, kind, 0), t="rip", d="", u=cl.matter("0A", "", rng.randbytes(16))[0].decode(), i=pre, n="0", dt=dt(rng))
    sad.update(over)
    return E(*mg.finish(sad, kind, {"d": rng.choice("EEEFGHI")}))


def bup(rng, regk, prior, sn, kind, t="bup", **over):
    sad = dict(v=mg.vstring("ACDC", 2, kind, 0), t=t, d="", rd=regk, n=f"{sn:x}", p=prior, dt=dt(rng))
    sad.update(dict(b=mg.digest(rng)) if t == "bup" else dict(td=mg.digest(rng), ts="issued"))
    sad.update(over)
    return E(*mg.finish(sad, kind, {"d": rng.choice("EEEFGHI")}))


class Node:
    """Key event and registry stores opened again and again."""

    def __init__(self, top, own):
        self.top, self.own = top, own
        self.given = {}
        self.open()

    def open(self):
        from keri.acdc.regbasing import RegBaser
        from keri.acdc.registraring import Regery
        from keri.core.eventing import Kevery
        from keri.db.basing import Baser
        self.db = Baser(name="v", headDirPath=self.top, reopen=True)
        self.db.reload()
        for pre in self.own:
            self.db.prefixes.add(pre)
        self.kvy = Kevery(db=self.db, lax=True, local=False)
        self.baser = RegBaser(name="v", headDirPath=self.top, reopen=True)
        self.habs = {}
        self.rgy = Regery(hby=SimpleNamespace(habs=Habs(self.db)), baser=self.baser)
        self.regs = {}

    def reg(self, key, pre, withkey):
        from keri.acdc.registraring import Registry
        if key not in self.regs:
            r = Registry(hab=SimpleNamespace(pre=pre, db=self.db), store=self.rgy.store, name=key[:6], regk=key if withkey else None)
            self.regs[key] = r
        return self.regs[key]

    def close(self):
        self.baser.close()
        self.db.close()

    def restart(self):
        self.close()
        self.open()

    def feed(self, data, gm):
        from keri.core.parsing import Parser
        from keri.kering import Vrsn_1_0, Vrsn_2_0
        Parser(version=Vrsn_1_0 if gm == 1 else Vrsn_2_0).parse(ims=bytearray(data), kvy=self.kvy, local=True)

    def settle(self):
        for _ in range(4):
            self.kvy.processEscrows()

    def log(self, key):
        return [(sn, s.qb64) for _, sn, s in self.baser.tels.getAllItemIter(keys=key)]


class Habs(dict):
    def __init__(self, db):
        self.db = db

    def get(self, pre, default=None):
        return SimpleNamespace(pre=pre, db=self.db)


class Scene:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.issuers = [kl.Ctl(rng, wits=[kl.Key(rng, False) for _ in range(rng.choice([0, 0, 1, 3]))]) for _ in range(rng.choice([1, 1, 2]))]
        self.regs = []                                    # lists of events
        self.issuer = {}
        for c in self.issuers:
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choice(["JSON", "JSON", "CBOR", "MGPK"])
                ctx.saw(kind.lower())
                e = rip(rng, c.pre, kind)
                r = [e]
                self.issuer[e.regk] = c
                ctx.saw("registries")
                for sn in range(1, 1 + rng.choice([0, 1, 2, 3, 4, 5])):
                    r.append(bup(rng, e.regk, r[-1].said, sn, rng.choice([kind, "JSON", "CBOR"])))
                    ctx.saw("updates")
                self.regs.append(r)
        todo = [e for r in self.regs for e in r]
        if rng.random() < 0.5:
            rng.shuffle(todo)                             # an issuer may seal in any order
        while todo:
            e = todo.pop(0)
            c = self.issuer[e.regk]
            more = []
            if rng.random() < 0.2:
                more = [x for x in todo if self.issuer[x.regk] is c][:2]
                todo = [x for x in todo if x not in more]
                ctx.saw("several_seals", len(more) > 0)
            self.seal(c, [e] + more)
            if rng.random() < 0.15:
                c.ixn()

    def seal(self, c, es, seals=None):
        rng = self.rng
        a = [e.seal() for e in es] if seals is None else seals
        if rng.random() < 0.3:
            a = a + [dict(d=mg.digest(rng))]
        if rng.random() < 0.3:
            a.insert(0, dict(i=mg.prefix(rng), s="1", d=mg.digest(rng)))
        if rng.random() < 0.15:
            k = c.rot(a=a, rotwits=0) if rng.random() < 0.5 else c.rot(a=a)
            self.ctx.saw("anchored_by_rot")
        else:
            k = c.ixn(a=a)
        for e in es:
            e.anchor = k
        return k


def hostile(ctx, rng, sc):
    """Hostile registry events: list of (registry key the event is given to, event)."""
    out = []
    for _ in range(rng.randint(1, 5)):
        r = rng.choice(sc.regs)
        c = sc.issuer[r[0].regk]
        key = r[0].regk
        sn = rng.randint(1, len(r))
        prior = r[sn - 1]
        kind = rng.choice(["JSON", "CBOR", "MGPK"])
        k = rng.choice(["unanchored", "seal", "prior", "place", "other", "altered", "issuer", "inception", "sort", "conflict"])
        if k == "unanchored":
            e = bup(rng, key, prior.said, sn, kind)
            ctx.saw("unanchored")
        elif k == "seal":
            e = bup(rng, key, prior.said, sn, kind)
            s = e.seal()
            o = [x for x in sc.issuers if x is not c]
            if o and rng.random() < 0.3:
                c = o[0]
            else:
                s.update(rng.choice([dict(i=mg.digest(rng)), dict(s=f"{sn + 1:x}"), dict(s="0" + s["s"]), dict(d=mg.digest(rng)), dict(d=prior.said)]))
                if rng.random() < 0.2:
                    s = dict(d=e.said)
            e.tried = sc.seal(c, [], [s])
            ctx.saw("mis_sealed")
        elif k == "prior":
            e = bup(rng, key, rng.choice([mg.digest(rng), key if sn > 1 else mg.digest(rng), r[sn - 2].said if sn > 1 else mg.digest(rng)]), sn, kind)
            sc.seal(c, [e])
            ctx.saw("wrong_prior")
        elif k == "place":
            e = bup(rng, key, prior.said, rng.choice([0, len(r) + 1, len(r) + 2]), kind)
            sc.seal(c, [e])
            ctx.saw("wrong_place")
        elif k == "other":
            others = [x for x in sc.regs if x is not r]
            if not others:
                continue
            e = rng.choice(rng.choice(others))
            ctx.saw("other_registry")
        elif k == "altered":
            e = rng.choice(r)
            sad = dict(e.sad)
            sad["dt"] = dt(rng)
            e = (sad, e)
            ctx.saw("altered")
        elif k == "issuer":
            e = rip(rng, mg.prefix(rng), kind)
            sc.seal(c, [e])
            key = rng.choice([key, e.regk])
            ctx.saw("other_issuer")
        elif k == "inception":
            e = rip(rng, c.pre, kind, n=rng.choice(["1", "5"]))
            sc.seal(c, [e])
            key = rng.choice([key, e.regk])
            ctx.saw("bad_inception")
        elif k == "sort":
            e = bup(rng, key, prior.said, sn, kind, t="upd")
            sc.seal(c, [e])
            ctx.saw("other_sort")
        else:
            e = bup(rng, key, prior.said, sn, kind)
            sc.seal(c, [e])
            e.conflict = True
            ctx.saw("conflicts")
        ctx.saw("hostile")
        out.append((key, e))
    return out


def scenes(ctx, rng, i):
    run(ctx, rng, False)


def crashes(ctx, rng, i):
    run(ctx, rng, True)


def run(ctx, rng, crashy):
    from keri.core.coring import Diger, Number
    from keri.kering import ValidationError
    from keri.core.serdering import SerderACDC
    sc = Scene(ctx, rng)
    bad = hostile(ctx, rng, sc)
    conflicts = any(getattr(e, "conflict", False) for _, e in bad)
    truth = {r[0].regk: r for r in sc.regs}
    withkey = {k: rng.random() < 0.7 for k in truth}
    for k, e in bad:
        if isinstance(e, tuple) or e.sad["t"] == "rip" or e.regk != k:
            withkey[k] = True
        withkey.setdefault(k, True)
    ctx.saw("no_key_given", sum(not w for w in withkey.values()))
    own = {c.pre for c in sc.issuers if rng.random() < 0.6}
    pre = {k: sc.issuer[k].pre for k in truth}
    for k, e in bad:
        pre.setdefault(k, sc.issuers[0].pre)
    # steps
    steps = []
    gm = {}
    for c in sc.issuers:
        t = len(steps)
        at = sorted(rng.random() for _ in c.branch)
        if rng.random() < 0.3:
            at = [0.0] * len(at)
        for x, ev in zip(at, c.branch):
            n = len(ev.wits) if hasattr(ev, "wits") else 0
            few = n and c.pre in own and rng.random() < 0.5
            steps.append((x, 0, "K", ev, rng.sample(range(n), rng.randint(0, max(0, ev.toad - 1))) if few else list(range(n))))
            if few:
                steps.append((rng.uniform(x, 1.2), 1, "K", ev, list(range(n))))
                ctx.saw("receipts_later")
    for r in sc.regs:
        mode = rng.random()
        for e in r:
            x = rng.random()
            if mode < 0.3:
                x = e.sn / 10
            elif mode < 0.5:
                x = 1 - e.sn / 10
            steps.append((x, 2, "R", r[0].regk, e))
            if rng.random() < 0.3:
                steps.append((rng.random() * 1.2, 2, "R", r[0].regk, e))
                ctx.saw("repeated")
            if rng.random() < 0.3:
                steps.append((rng.random() * 1.2, 3, "A", r[0].regk, e))
    for k, e in bad:
        if isinstance(e, tuple):
            steps.append((rng.random(), 2, "X", k, e))
            continue
        for _ in range(rng.choice([1, 1, 2])):
            steps.append((rng.random() * 1.2, 2, "R", k, e))
        if rng.random() < 0.5:
            steps.append((rng.random() * 1.2, 3, "A", k, e))
    for _ in range(rng.randint(0, 4)):
        steps.append((rng.random() * 1.2, 4, "P"))
    for _ in range(rng.choice([0, 0, 1, 2])):
        steps.append((rng.random() * 1.2, 4, "S"))
    steps.sort(key=lambda s: s[:2])
    with tempfile.TemporaryDirectory() as top:
        n = Node(top, own)
        seen = {}                    # key -> log
        given = {}                   # key -> {said: event} delivered
        anchored = {}                # said -> bool: anchor known at a processing
        wigs = {}
        done = set()                 # processed without interruption

        def kel(ev):
            return ev.said in [d for d in n.db.kels.get(keys=ev.pre, on=ev.sn)] if hasattr(ev, "pre") else False

        def good(e):
            """Sealed by an accepted, sufficiently receipted key event."""
            a = e.anchor
            return a is not None and kel(a) and len(wigs.get(a.said, ())) >= a.toad

        def audit(clean=True):
            for k in withkey:
                log = n.log(k)
                old = seen.get(k, [])
                same(log[:len(old)], old, "accepted updates changed")
                same([sn for sn, _ in log], list(range(len(log))), "positions of accepted updates")
                for j, (sn, said) in enumerate(log):
                    if j < len(old):
                        continue
                    e = given.get(k, {}).get(said)
                    must(e is not None, "accepted update %s was never delivered", said)
                    same(n.rgy.store.event(said).raw, e.raw, "stored update")
                    must(e.sn == sn and e.regk == k and e.sad["t"] == ("bup" if sn else "rip"), "update accepted at another place")
                    must(sn == 0 or e.sad["p"] == log[j - 1][1], "update accepted with another prior")
                    must(good(e), "update accepted without an accepted seal")
                    num, dig = n.rgy.store.anchor(said)
                    same((num.sn, dig.qb64), (e.anchor.sn, e.anchor.said), "stored anchor")
                    ctx.saw("accepted")
                    ctx.saw("audited")
                seen[k] = log
                if clean:
                    h = n.rgy.store.head(k)
                    same(h and h.qb64, log[-1][1] if log else None, "head of %s", k)
                    if k in n.regs and n.regs[k].regk:
                        r = n.regs[k]
                        same((r.sn, r.head and r.head.qb64), (len(log) - 1, log[-1][1] if log else None), "head and number of the registry")
                    ctx.saw("heads")

        def give(k, e):
            given.setdefault(k, {})[e.said] = e
            r = n.reg(k, pre[k], withkey[k])
            ok = r.processEvent(e.serder())
            done.add((k, e.said))
            log = dict(n.log(k))
            same(bool(ok), log.get(e.sn) == e.said, "processing an update says")
            if not ok:
                ctx.saw("waited_order" if good(e) else "waited_anchor")

        def step(s):
            ctx.saw("steps")
            op = s[2]
            ctx.log(op, *[getattr(x, "said", x) for x in s[3:]])
            if op == "K":
                ev, which = s[3:]
                data, g = kl.message(rng, ev.raw, major=ev.major, sigs=ev.signatures(rng), wigs=[kl.isig("B", j, None, ev.wits[j].sign(ev.raw)) for j in which])
                n.feed(data, g)
                n.settle()
                # genuine receipts for events accepted
                wigs.setdefault(ev.said, set()).update(which)
            elif op == "R":
                try:
                    give(s[3], s[4])
                except ValidationError as ex:
                    must(s[4] not in truth.get(s[3], []) or conflicts, "genuine update refused: %s", ex)
            elif op == "A":
                k, e = s[3:]
                r = n.reg(k, pre[k], withkey[k])
                a = rng.choice([None, e.anchor, "wrong"])
                kwa = {}
                if a == "wrong":
                    w = rng.choice(rng.choice(sc.issuers).branch)
                    kwa = rng.choice([dict(number=Number(num=w.sn), diger=Diger(qb64=w.said)), dict(number=Number(num=w.sn)), dict(diger=Diger(qb64=w.said)),
                                      dict(number=Number(num=w.sn + 40), diger=Diger(qb64=w.said))])
                    if e.anchor is not None and w is e.anchor:
                        return
                elif a is not None:
                    kwa = dict(number=Number(num=a.sn), diger=Diger(qb64=a.said))
                if e.said not in given.get(k, {}):
                    given.setdefault(k, {})
                was = n.rgy.store.event(e.said) is not None
                acc = e.said in [d for _, d in n.log(k)]
                try:
                    ok = r.anchorMsg(e.said, **kwa)
                except ValidationError as ex:
                    ctx.saw("explicit_refused")
                    must(not (was and e in truth.get(k, []) and good(e) and a != "wrong" and not conflicts), "true anchoring refused: %s", ex)
                    return
                must(was and a != "wrong", "false anchoring accepted")
                given.setdefault(k, {}).setdefault(e.said, e)
                same(bool(ok), dict(n.log(k)).get(e.sn) == e.said, "anchoring says")
                ctx.saw("explicit")
            elif op == "P":
                for k in list(n.regs):
                    n.regs[k].processEscrows()
                settled()
            elif op == "S":
                restart()
            else:
                sad, e = s[4]
                raw = mg.SER[e.serder().kind](sad)
                try:
                    x = SerderACDC(raw=bytes(raw))
                except ValidationError:
                    return
                must(x.said != e.said, "altered update read")

        def restart():
            n.restart()
            ctx.saw("restarts")
            for k in withkey:
                withkey[k] = True
                if k in truth:
                    r = n.reg(k, pre[k], True)
                    r.regd = r.head.qb64 if r.head is not None else r.regk
                    must(not n.log(k) or r.head is not None, "registry has no head after restart")

        def settled():
            """All that can be accepted is."""
            if conflicts:
                return
            for k, r in truth.items():
                if k not in n.regs or n.regs[k].regk is None:
                    continue
                want = 0
                while want < len(r) and ((k, r[want].said) in done or (want, r[want].said) in n.log(k)) and good(r[want]):
                    want += 1
                same([d for _, d in n.log(k)], [e.said for e in r[:want]], "accepted updates after processing what waits")

        lost = []
        for s in steps:
            if crashy and s[2] in "RAP" and rng.random() < 0.35:
                left = [rng.choice([0, 1, 1, 2, 3, 4])]

                def boom(env, seq, changes):
                    if env is n.baser.env:
                        if left[0] == 0:
                            raise Crash()
                        left[0] -= 1
                lmdb.hooks.on_commit = boom
                ctx.saw("crashes")
                try:
                    step(s)
                except Crash:
                    ctx.saw("crash_effective")
                    lmdb.hooks.on_commit = None
                    restart()
                    audit()
                    lost.append(s)
                finally:
                    lmdb.hooks.on_commit = None
            else:
                step(s)
            audit()
        for s in lost:
            step(s)
            audit()
        for c in sc.issuers:
            for ev in c.branch:
                step((9, 0, "K", ev, list(range(len(ev.wits)))))
        # everything genuine once more
        for r in sc.regs:
            if rng.random() < 0.5 or crashy:
                for e in rng.sample(r, len(r)):
                    step((9, 2, "R", r[0].regk, e))
        for _ in range(2):
            step((9, 4, "P"))
        audit()
        if rng.random() < 0.3:
            restart()
            audit()
        for k, r in truth.items():
            log = [d for _, d in n.log(k)]
            if not conflicts:
                same(log, [e.said for e in r], "final accepted updates")
                wait = [d for _, sn, d in list(n.baser.maes.getTopItemIter(keys=k)) + list(n.baser.ooes.getTopItemIter(keys=k))]
                must(not set(wait) & set(log), "accepted update still waits")
            else:
                must(log and log[0] == k, "registry was not accepted")
            ctx.saw("final")
        for c in sc.issuers:
            for ev in c.branch:
                must(kel(ev), "key event not accepted")
        n.close()
    ctx.case((len(truth), len(bad), len(steps), len(lost)))


def local(ctx, rng, i):
    """The issuer's own side: names, issuing, refusals, restarts."""
    from checks.H02 import Site
    from keri import Vrsn_2_0
    from keri.acdc import Regery, Registrar, acdcmap
    from keri.acdc.regbasing import RegBaser
    from keri.core.structing import Blinder
    from keri.kering import ConfigurationError
    with tempfile.TemporaryDirectory() as top:
        site = Site(top, "own", 2, rng)
        hab = site.hby.makeHab(name="a", version=Vrsn_2_0)
        pres = [hab.pre, site.hby.makeHab(name="b", version=Vrsn_2_0).pre]

        def open():
            baser = RegBaser(name="r", headDirPath=top, reopen=True)
            rgy = Regery(hby=site.hby, baser=baser)
            return rgy, Registrar(rgy)
        rgy, rar = open()
        names = {}                     # name -> [key, pre, chain]
        pool = ["plain", "a.b", "a", "a.b.c", "Name with space", "x/y", "ünïcode", ".", "r" * 200]
        stamps = []
        for _ in range(rng.randint(6, 14)):
            k = rng.random()
            if k < 0.3 or not names:
                nm = rng.choice(pool)
                pre = rng.choice(pres)
                if nm in names:
                    try:
                        rar.makeRegistry(nm, pre)
                        must(False, "name used twice")
                    except ConfigurationError:
                        ctx.saw("local_refused")
                    continue
                if rng.random() < 0.2:
                    try:
                        rar.makeRegistry(nm, mg.prefix(rng))
                        must(False, "registry of an unknown identifier")
                    except ConfigurationError:
                        ctx.saw("local_refused")
                    must(rgy.registryByName(nm) is None, "refused registry exists")
                r = rar.makeRegistry(nm, pre)
                e = rgy.store.event(r.regk)
                same((e.said, e.sad["i"], e.sad["n"]), (r.regk, pre, "0"), "registry inception")
                names[nm] = [r.regk, pre, [e.said], None]
                ctx.saw("names")
                if rng.random() < 0.7:
                    confirm(ctx, rng, site, rgy, names[nm], e)
            elif k < 0.75:
                nm = rng.choice(list(names))
                key, pre, chain, ok = names[nm]
                r = rng.choice([key, nm, rgy.registryByName(nm)])
                q = rng.random()
                pre2, key2 = pre, key
                if q < 0.15:
                    pre2 = [p for p in pres if p != pre][0]
                elif q < 0.3:
                    key2 = mg.digest(rng)
                acdc = acdcmap(israid=pre2, regid=key2, attribute=dict(d="", LEI="x" * rng.randint(1, 9)), iseaid=rng.choice(pres))
                state = rng.choice(["issued", "revoked", "active", ""])
                salt = mg.salt(rng)
                before = rgy.store.baser.evts.cntAll(), rgy.store.baser.maes.cntAll()
                try:
                    b, u = rar.issue(r, acdc, state=state, salt=salt)
                except ConfigurationError:
                    must(not ok or q < 0.3, "issuing refused")
                    same((rgy.store.baser.evts.cntAll(), rgy.store.baser.maes.cntAll()), before, "stored by a refused issuance")
                    ctx.saw("local_refused")
                    continue
                must(ok and q >= 0.3, "issued for another registry, issuer or before the registry")
                sn = len(chain)
                same((u.sad["rd"], u.sad["n"], u.sad["p"], u.sad["b"]), (key, f"{sn:x}", chain[-1], b.said), "update")
                x = Blinder.unblind(b.said, salt=salt, sn=sn, acdc=acdc.said, states=["active", "issued", "revoked"])
                must(x is not None and (x.acdc, x.state) == (acdc.said, state), "blinded state")
                ctx.saw("unblinded")
                ctx.saw("local_issues")
                must(rgy.regs[key].sn == sn - 1, "update counts before it is sealed")
                chain.append(u.said)
                if rng.random() < 0.85:
                    confirm(ctx, rng, site, rgy, names[nm], u)
                else:
                    chain.pop()
            elif k < 0.85:
                nm = rng.choice(list(names))
                if not names[nm][3]:
                    confirm(ctx, rng, site, rgy, names[nm], rgy.store.event(names[nm][0]))
            else:
                rgy.close()
                site.restart()
                rgy, rar = open()
                ctx.saw("restarts")
                same(sorted(rgy.names), sorted(names), "names after restart")
            for nm, (key, pre, chain, ok) in names.items():
                r = rgy.registryByName(nm)
                must(r is not None and r.regk == key and r.hab.pre == pre, "registry by name")
                got = [s.qb64 for _, _, s in rgy.store.baser.tels.getAllItemIter(keys=key)]
                same(got, chain if ok else [], "accepted updates")
                same(r.head and r.head.qb64, chain[-1] if ok else None, "head")
        rgy.close()
        site.shut()
    ctx.case((len(names), sum(len(c[2]) for c in names.values())))


def confirm(ctx, rng, site, rgy, rec, e):
    from keri import Vrsn_2_0
    key, pre, chain, ok = rec
    hab = site.hby.habByPre(pre)
    seal = dict(i=key, s=e.sad["n"], d=e.said)
    if rng.random() < 0.7:
        hab.interact(data=[seal], framed=True, gvrsn=Vrsn_2_0)
    else:
        hab.rotate(data=[seal], framed=True, gvrsn=Vrsn_2_0)
    if rng.random() < 0.5:
        rgy.processEscrows()
    else:
        must(rgy.regs[key].anchorMsg(e.said) is True, "sealed update not accepted")
    rec[3] = True
    if e.said not in chain:
        chain.append(e.said)


CASES = [("scenes", scenes, 400, 6000), ("crashes", crashes, 160, 2500), ("local", local, 60, 700)]
