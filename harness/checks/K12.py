"""K12: queries are answered from accepted state, exactly, once, and as soon as it is there."""
import datetime
import vboot
import kellib as kl
import msggen as mg
from vh import must, same

RULE = ("each case delivers the events of several identifiers to a real validator in varied order with queries mixed in: routes logs, ksn, mbx and unknown ones, with and without sequence "
        "number, first-seen number and seal conditions, by transferable and nontransferable requesters, both protocol versions, repeated and malformed; every answer cue is compared with "
        "the state an independent model derives from the accepted events, and each query must be answered exactly when its condition first holds; non-trivial if some query waited")
REQUIRE = ["witness_answered", "witness_waits", "witness_short", "witness_receipt", "logs", "ksn", "mbx", "invalid", "malformed", "waited", "answered_late", "answered_at_once", "never", "sn", "fn", "anchor", "nontransferable", "transferable", "delegated",
           "replayed", "v2", "repeated"]
ASSUME = ["queries are not authenticated by this path (the code says so); authentication of queries is K13's", "escrow timeouts do not pass", "no recoveries: seals in superseded events are unspecified"]


class Query:
    def __init__(self, rng, route, q, requester, major=None):
        self.route, self.q = route, q
        self.major = major or rng.choice([1, 1, 2])
        self.by = requester.qb64 if isinstance(requester, kl.Key) else requester.pre
        kind = rng.choice(["JSON", "CBOR", "MGPK"])
        sad = dict(v=mg.vstring("KERI", self.major, kind, 0), t="qry", d="")
        if self.major == 2:
            sad["i"] = self.by
        now = datetime.datetime.now(datetime.timezone.utc) - datetime.timedelta(microseconds=rng.randrange(10 ** 8))
        sad.update(dt=now.isoformat(timespec="microseconds"), r=route, rr=rng.choice(["", "/log/processor", "/x"]), q=q)
        self.sad, self.raw = mg.finish(sad, kind, {"d": "E"})
        self.said = self.sad["d"]
        if isinstance(requester, kl.Key):
            self.msg = kl.message(rng, self.raw, self.major, couples=[(requester.qb64, kl.csig(requester.sign(self.raw)))])
        else:
            e = requester.last
            self.msg = kl.message(rng, self.raw, self.major, lsg=(requester.pre, [kl.isig("A", j, None, k.sign(self.raw)) for j, k in enumerate(e.keys)]))
        self.answered = self.waits = False


def chain(db, pre):
    return [dig for on, dig in sorted((on, dig) for keys, on, dig in db.fels.getAllItemIter(keys=(pre,)) if keys[0] == pre)]


def history(ctx, rng, i):
    v = kl.Validator(name=f"q{i}", lax=rng.random() < 0.5)
    ctls, evs = [], {}
    for _ in range(rng.randint(1, 3)):
        d = rng.choice(ctls) if ctls and rng.random() < 0.5 else None
        c = kl.Ctl(rng, delegator=d, major=rng.choice([1, 1, 2]))
        if d:
            d.approve(c.branch[0])
        ctls.append(c)
    for _ in range(rng.randint(1, 6)):
        c = rng.choice(ctls)
        ev = rng.choice([c.ixn, c.rot])()
        if c.delegator and ev.est:
            c.delegator.approve(ev)
    for c in ctls:
        evs.update({e.said: e for e in c.events})
    seals = [(c, a) for c in ctls for e in c.branch for a in e.sad["a"] if list(a) == ["i", "s", "d"]]
    requesters = ctls + [kl.Key(rng, False) for _ in range(2)]
    pres = [c.pre for c in ctls]

    def query():
        route = rng.choice(["logs", "logs", "logs", "ksn", "ksn", "mbx"])
        by = rng.choice(requesters)
        c = rng.choice(ctls)
        pre = c.pre if rng.random() < 0.9 else mg.digest(rng)
        q = dict(i=pre, src=rng.choice([mg.prefix(rng)] + pres))
        w = rng.random()
        if route == "mbx":
            q["topics"] = {"/receipt": rng.randint(0, 9)}
        if route == "logs":
            if rng.random() < 0.4:
                q["s"] = f"{rng.choice([rng.randint(0, c.last.sn), c.last.sn, c.last.sn + 1]):x}"
                ctx.saw("sn")
            if rng.random() < 0.3:
                q["fn"] = f"{rng.randint(0, c.last.sn + 1):x}"
                ctx.saw("fn")
            if seals and rng.random() < 0.4:
                o, a = rng.choice(seals)
                if pre == c.pre and rng.random() < 0.8:
                    q["i"] = o.pre
                q["a"] = dict(a) if rng.random() < 0.8 else dict(a, d=mg.digest(rng))
                ctx.saw("anchor")
        if w < 0.06:
            ctx.saw("malformed")
            del q[rng.choice(["i", "src"])]
        elif w < 0.12:
            route = rng.choice(["log", "kel", "logs/x", "ksns", ""])
            ctx.saw("invalid")
        x = Query(rng, route, q, by)
        ctx.saw(route if route in ("logs", "ksn", "mbx") else "other")
        ctx.saw("nontransferable" if isinstance(by, kl.Key) else "transferable")
        ctx.saw("v2", x.major == 2)
        return x

    queries = {}

    def condition(x):
        if x.route not in ("logs", "ksn", "mbx") or "i" not in x.q or "src" not in x.q:
            return None
        log = chain(v.db, x.q["i"])
        if not log:
            return False
        if x.route == "logs":
            es = [evs[d] for d in log]
            if "a" in x.q:
                return any(x.q["a"] in e.sad["a"] for e in es)
            if "s" in x.q:
                return es[-1].sn >= int(x.q["s"], 16)
        return True

    def expected(x):
        """The events an answer to a log query replays."""
        log = chain(v.db, x.q["i"])
        c = [c for c in ctls if c.pre == x.q["i"]][0]
        out = [evs[d] for d in log][int(x.q.get("fn", "0"), 16):]
        if c.delegator:
            ctx.saw("delegated")
            out += [evs[d] for d in chain(v.db, c.delegator.pre)]
        return out

    def stateof(pre):
        es = [evs[d] for d in chain(v.db, pre)]
        last, est = es[-1], [e for e in es if e.est][-1]
        before = [e for e in es if e.est and e is not est]
        wits = [w.qb64 for w in est.wits]
        old = [w.qb64 for w in before[-1].wits] if before else []
        return dict(vn=[last.major, 0], i=pre, s=f"{last.sn:x}", p=last.sad.get("p", ""), d=last.said, f=f"{len(es) - 1:x}",
                    dt=v.db.dtss.get(keys=(pre, last.said)).dts, et=last.ilk, kt=est.sad["kt"], k=est.sad["k"], nt=est.sad["nt"], n=est.sad["n"], bt=est.sad["bt"], b=wits,
                    c=es[0].sad["c"], ee=dict(s=f"{est.sn:x}", d=est.said, br=est.sad.get("br", []), ba=est.sad.get("ba", [])), di=es[0].sad.get("di", ""))

    def drain(now=None):
        """Answers since the last call."""
        while v.kvy.cues:
            cue = v.kvy.cues.popleft()
            kin = cue["kin"]
            if kin not in ("replay", "reply", "stream", "invalid"):
                continue
            if kin == "invalid":
                must(now is not None and now.route not in ("logs", "ksn", "mbx"), "cue %s for no invalid query", cue)
                continue
            cands = [x for x in queries.values() if not x.answered and dict(replay="logs", reply="ksn", stream="mbx")[kin] == x.route and condition(x) and cue["src"] == x.q["src"]
                     and (cue.get("dest", x.by) == x.by)]
            good, why = None, "no query open"
            for x in cands:
                if kin == "stream":
                    if cue["serder"].said == x.said and cue["pre"] == x.q["i"] and cue["topics"] == x.q["topics"]:
                        good = x
                elif kin == "replay":
                    want = expected(x)
                    ok = cue["pre"] == x.q["i"] and len(cue["msgs"]) == len(want) and all(bytes(m).startswith(e.raw) for m, e in zip(cue["msgs"], want))
                    if ok:
                        good = x
                    else:
                        why = (x.q, len(cue["msgs"]), [(e.pre[:6], e.sn) for e in want])
                else:
                    ks = cue["serder"].sad
                    want = stateof(x.q["i"])
                    if ks["t"] == "rpy" and ks["r"] == "/ksn/" + x.q["src"] and kl.differ(ks["a"], want) == []:
                        must(cue["serder"].verify(), "key state reply does not verify")
                        if ks["v"].endswith(".") == (x.major == 2):
                            good = x
                        else:
                            why = ("version", ks["v"], x.major)
                    else:
                        why = (kl.differ(ks["a"], want), ks["a"], want)
                if good:
                    break
            must(good, "answer %s with no open query it answers exactly: %s", {k: c for k, c in cue.items() if k != "msgs"}, why)
            good.answered = True
            ctx.saw("answered_at_once" if good is now else "answered_late")
            own = [c for c in ctls if c.pre == good.q["i"]][0]
            if kin == "replay" and "fn" not in good.q and not (own.delegator and own.delegator.delegator) and rng.random() < 0.3:
                w = kl.Validator(name=f"w{i}", lax=True)
                for _ in range(2):      # delegator after delegate
                    for m, e in zip(cue["msgs"], expected(good)):
                        w.feed(m, e.major)
                    w.settle()
                same(w.head(good.q["i"]), v.head(good.q["i"]), "state from a replayed answer")
                ctx.saw("replayed")
                w.close()
        for x in queries.values():
            if not x.answered and condition(x):
                if x.route == "logs" and not expected(x):
                    x.answered = True       # nothing to replay, nothing sent
                    continue
                must(False, "query %s %s by %s not answered though its condition holds", x.route, x.q, x.by)

    todo = [("event", e) for c in ctls for e in c.branch]
    if rng.random() < 0.5:      # keep order within an identifier, mix between
        mixed, left = [], [[("event", e) for e in c.branch] for c in ctls]
        while any(left):
            s = rng.choice([s for s in left if s])
            mixed.append(s.pop(0))
        todo = mixed
    if rng.random() < 0.3:
        rng.shuffle(todo)
    for _ in range(rng.randint(3, 10)):
        todo.insert(rng.randrange(len(todo) + 1), ("query", query()))
    waited = False

    def settle():
        for _ in range(15):
            before = v.digest()
            v.kvy.processEscrows()
            drain()
            if v.digest() == before:
                return

    for what, x in todo:
        if what == "event":
            ctx.log("event", x.pre[:6], x.sn)
            src = None
            if x.ctl.delegator and x.est:
                a = [e for e in x.ctl.delegator.branch if any(s.get("d") == x.said for s in e.sad["a"])]
                src = (a[0].sn, a[0].said)
            v.feed(*kl.message(rng, x.raw, x.major, sigs=x.signatures(rng), wigs=x.receipts(), source=src))
            for _ in range(2):     # cues of queries answered meanwhile carry the state of now
                v.kvy.processEscrows()
                drain()
        else:
            ctx.log("query", x.route, x.q, x.by[:6])
            again = x.said in queries
            queries.setdefault(x.said, x)
            if condition(x) is False:
                ctx.saw("waited")
                waited = True
            v.feed(*x.msg)
            drain(x)
            if not x.answered and rng.random() < 0.3:
                ctx.saw("repeated")
                v.feed(*x.msg)
                drain(x)
        if rng.random() < 0.3:
            settle()
    settle()
    for x in queries.values():
        if condition(x) is False:
            ctx.saw("never")
            must(not x.answered, "query %s answered though its condition never held", x.q)
    # nothing is answered a second time
    v.kvy.processEscrows()
    drain()
    v.close()
    ctx.case(tuple(queries), waited)


def witnessed(ctx, rng, i):
    """A witness answers for a log only once enough witnesses, and not the same twice, receipted its last event."""
    import shutil
    import tempfile
    from checks.H02 import Site
    from hio.help import decking
    from keri.core import eventing, parsing, routing
    top = tempfile.mkdtemp(prefix="k12")
    sites = []
    try:
        major = rng.choice([1, 2])
        mine, asks, his, rest = sites = [Site(top, n, major, rng) for n in ("wit", "ask", "his", "rest")]
        vs = mine.version
        kwa = dict(version=vs, kind="JSON")
        wit = mine.hby.makeHab(name="wit", transferable=False, **kwa)
        ask = asks.hby.makeHab(name="ask", icount=1, isith="1", **kwa)
        fellows = [rest.hby.makeHab(name=f"f{j}", transferable=False, **kwa) for j in range(rng.randrange(0, 3))]
        habs = [wit] + fellows
        rng.shuffle(habs)
        toad = rng.randrange(1, len(habs) + 1)
        hab = his.hby.makeHab(name="his", icount=1, isith="1", wits=[h.pre for h in habs], toad=toad, **kwa)
        rvy = routing.Revery(db=mine.hby.db)
        kvy = eventing.Kevery(db=mine.hby.db, lax=False, local=False, rvy=rvy, cues=decking.Deck())
        kvy.registerReplyRoutes(router=rvy.rtr)
        psr = parsing.Parser(framed=True, kvy=kvy, rvy=rvy, version=vs)
        for m in ask.db.clonePreIter(pre=ask.pre, version=vs):
            psr.parse(ims=bytearray(m))
        must(ask.pre in mine.hby.kevers, "harness: asker is not known")
        seals, open_, got = [], {}, {}
        answered = 0

        def holds(q):
            kever = mine.hby.kevers.get(hab.pre)
            if kever is None:
                return False
            if q["r"] == "logs" and "a" in q:
                return any(sn <= kever.sn and len(got.get(said, ())) >= toad for sn, seal, said in seals if seal == q["a"])
            enough = len(got.get(kever.serder.said, ())) >= toad
            if q["r"] == "logs":
                return "s" not in q or int(q["s"], 16) <= kever.sn and enough
            return enough

        def drain():
            nonlocal answered
            now = []
            while kvy.cues:
                cue = kvy.cues.pull()
                if cue["kin"] in ("replay", "reply"):
                    now.append("logs" if cue["kin"] == "replay" else "ksn")
            due = [q for q in open_.values() if not q["done"] and holds(q)]
            for q in due:
                q["done"] = True
                answered += 1
                ctx.saw("witness_answered")
            same(sorted(now), sorted(q["r"] for q in due), "queries a witness answers")

        def settle():
            for _ in range(4):
                kvy.processEscrows()
            drain()

        def put():
            q = dict(r=rng.choice(["logs", "logs", "ksn"]))
            mods = {}
            if q["r"] == "logs":
                how = rng.random()
                if how < 0.6:
                    mods = dict(s=f"{rng.choice([rng.randrange(0, 4), hab.kever.sn]):x}", fn="0")
                elif how < 0.8 and seals:
                    mods = dict(a=rng.choice(seals)[1])
            q.update(mods)
            msg = bytes(ask.query(hab.pre, src=wit.pre, query=dict(mods), route=q["r"], gvrsn=vs, **kwa))
            q["done"] = False
            open_[len(open_)] = q
            ctx.saw("witness_waits", not holds(q))
            ctx.saw("witness_short", mine.hby.kevers.get(hab.pre) is not None and len(got.get(mine.hby.kevers[hab.pre].serder.said, ())) < toad)
            ctx.log("query", q)
            psr.parse(ims=bytearray(msg))
            settle()

        last = rng.randrange(1, 4)
        for n in range(last):
            if n:
                if rng.random() < 0.3:
                    hab.rotate(toad=toad, **kwa)
                else:
                    seal = dict(i=hab.pre, s=f"{n:x}", d="E" + "A" * 43)
                    hab.interact(data=[seal], **kwa)
                    seals.append((n, seal, hab.kever.serder.said))
            ser = hab.kever.serder
            raw = bytes(hab.db.cloneEvtMsg(pre=hab.pre, fn=n, dig=ser.saidb, version=vs))
            for f in fellows:
                rest.hby.psr.parse(ims=bytearray(raw), local=True)
            todo = [("event", raw)] + [("query", None) for _ in range(rng.randrange(0, 3))]
            if rng.random() < 0.5:
                rng.shuffle(todo)
            for what, m in todo:
                if what == "event":
                    psr.parse(ims=bytearray(m), local=True)
                    same(mine.hby.kevers[hab.pre].sn, n, "event that a witness takes in")
                    settle()
                else:
                    put()
            todo = [("receipt", h) for h in habs if rng.random() < 0.8] + [("query", None)] * rng.randrange(0, 4)
            todo += [x for x in todo if x[0] == "receipt" and rng.random() < 0.3]
            rng.shuffle(todo)
            rcts = {h.pre: bytes(h.witness(ser, gvrsn=vs, **{k: v for k, v in kwa.items() if k != "kind"})) for h in fellows}
            for what, h in todo:
                if what == "query":
                    put()
                    continue
                msg = rcts.get(h.pre)
                if msg is None:
                    msg = bytes(wit.witness(ser, version=vs, gvrsn=vs))
                else:
                    psr.parse(ims=bytearray(msg), local=True)
                got.setdefault(ser.said, set()).add(h.pre)
                ctx.log("receipt", h.pre[:6])
                ctx.saw("witness_receipt")
                settle()
        settle()
        ctx.case(("witnessed", major, len(habs), toad, last, i), answered > 0)
    finally:
        for x in sites:
            x.shut()
        shutil.rmtree(top, ignore_errors=True)


CASES = [("history", history, 150, 5000), ("witnessed", witnessed, 80, 2000)]
