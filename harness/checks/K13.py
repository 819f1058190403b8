"""K13: with replay protection on, a message is processed at most once, in its window, and only when authenticated."""
import datetime
import vboot
import kellib as kl
import msggen as mg
from vh import must, same

RULE = ("each case lets several senders (one key, several keys with thresholds, nontransferable) send requests through the real parser and processor with replay protection configured, under "
        "a controlled clock that is stepped to both sides of every window edge, with the pruner run at random times; deliveries are full, partial, repeated, false, by seal and by keys no "
        "longer in force; stand-in processors record what comes through and every delivery is judged by an independent model; non-trivial if a message was delivered again after it was "
        "processed")
REQUIRE = ["processed", "refused", "repeated_after_processed", "repeated_after_prune", "late", "early", "edge", "pruned", "false", "unsigned", "seal", "badseal", "partial", "completed", "exchange",
           "exchange_unknown", "exempt", "rotated", "oldkeys", "nontransferable", "must", "both", "early_prune"]
ASSUME = ["the clock never goes back and the configuration is fixed during a history", "messages of protocol version 1 are not subject to replay protection",
          "a message accepted while its sender had one key is not signed anew once it has several", "a message first authenticated in its window by part of the keys may be completed later"]


class Conf:
    def __init__(self, data):
        self.data = data

    def get(self):
        return self.data


class Sink:
    """Stand-in processor: records what was let through."""

    def __init__(self, got):
        self.got = got

    def note(self, serder=None, *pa, **kwa):
        self.got.append(serder.said)

    processReply = processEvent = processQuery = note


ROUTES = {"qry": ["tels", "tsn"], "rpy": ["/x", "/ksn/abc", "/end/role/add"], "exn": ["/a", "/b/c"], "xip": ["/a"]}


def config(rng):
    def rec():
        d = rng.choice([0, 500, 2000])
        sl = rng.choice([1000, 3000, 10000])
        ll = sl + rng.choice([0, 0, 5000])
        xl = ll + rng.choice([0, 0, 4000, 20000])
        return [d, sl, ll, xl] + [v + rng.choice([0, 0, 1000, 7000]) for v in (sl, ll, xl)]
    caches = {"~": rec()}
    for k in ("qry", "rpy", "exn", "xip", "qry.R.tels", "exn.R./a", "rpy.R./x"):
        if rng.random() < 0.35:
            caches[k] = rec()
    denials = [[[2, 0], *rng.choice([("rpy", ""), ("qry", "tsn"), ("exn", "/b")])]] if rng.random() < 0.4 else []
    return dict(kram=dict(enabled=True, denials=denials, caches=caches))


class Msg:
    pass


def history(ctx, rng, i):
    from keri.help import helping
    from keri.core.eventing import Kevery
    from keri.core.kraming import Kramer, Pruner
    from keri.core.parsing import Parser
    from keri.kering import Vrsn_2_0
    from hio.base import doing
    clock = [datetime.datetime(2024, 3, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(microseconds=rng.randrange(10 ** 9))]
    real = helping.nowUTC
    helping.nowUTC = lambda: clock[0]
    try:
        run(ctx, rng, i, clock, Kevery, Kramer, Pruner, Parser, Vrsn_2_0, doing)
    finally:
        helping.nowUTC = real


def run(ctx, rng, i, clock, Kevery, Kramer, Pruner, Parser, V2, doing):
    v = kl.Validator(name=f"r{i}", lax=True)
    cf = config(rng)
    kramer = Kramer(db=v.db, cf=Conf(cf))
    got = []

    class Watched(Kevery):
        def processXip(self, serder, kwa):
            got.append(serder.said)

    kvy = Watched(db=v.db, lax=True, kramer=kramer)
    sink = Sink(got)
    doist = doing.Doist(tock=0.0, limit=0.0)
    deeds = doist.enter(doers=[Pruner(kramer, 0.0)])
    senders = [kl.Ctl(rng, nkeys=1, wits=[]), kl.Ctl(rng, nkeys=rng.choice([2, 3, 4]), wits=[]), kl.Ctl(rng, wits=[], nkeys=rng.choice([1, 2])), kl.Ctl(rng, transferable=False, basic=True)]
    for c in senders[:3]:
        for _ in range(rng.choice([0, 0, 1, 2])):
            rng.choice([lambda: c.rot(rotwits=0), c.ixn])()

    def put(ev):
        v.feed(*kl.message(rng, ev.raw, ev.major, sigs=ev.signatures(rng)))
        v.settle()

    for c in senders:
        for e in c.branch:
            put(e)
        same(v.head(c.pre), c.last.said, "sender known")
    msgs = {}
    xips = []

    def now():
        return clock[0]

    def record(m):
        caches = cf["kram"]["caches"]
        for k in (f"{m.ilk}.R.{m.route}", m.ilk, "~"):
            if k in caches:
                return caches[k]

    def make():
        c = rng.choice(senders)
        ilk = rng.choice(["qry", "qry", "rpy", "exn", "exn", "xip", "xip"])
        m = Msg()
        m.ilk, m.c, m.route = ilk, c, rng.choice(ROUTES[ilk])
        m.x = None
        off = rng.choice([0, 0, -1, 1]) * rng.choice([0.2, 0.9, 2.5, 8])
        m.mdt = now() + datetime.timedelta(seconds=off)
        cand = [x for x in xips if x.c is c]
        if ilk == "exn":
            if cand and rng.random() < 0.8:
                m.x = rng.choice(cand)
                ctx.saw("exchange")
                if rng.random() < 0.4:
                    m.mdt = m.x.mdt + datetime.timedelta(milliseconds=rng.choice([-1, 0, 1, record(m)[3] - 1, record(m)[3], record(m)[3] + 1, 500]))
            elif rng.random() < 0.6:
                m.x = rng.choice(xips) if xips and rng.random() < 0.5 else mg.digest(rng)
                ctx.saw("exchange_unknown")
        sad = dict(v=mg.vstring("KERI", 2, "JSON", 0), t=ilk, d="")
        if ilk == "xip":
            sad["u"] = mg.salt(rng)
        sad["i"] = c.pre
        if ilk in ("xip", "exn"):
            sad["ri"] = mg.prefix(rng)
        if ilk == "exn":
            sad["x"] = m.x.said if isinstance(m.x, Msg) else m.x or ""
            sad["p"] = mg.digest(rng) if sad["x"] else ""
        sad["dt"] = m.mdt.isoformat(timespec="microseconds")
        sad["r"] = m.route
        n = len(msgs)
        if ilk == "qry":
            sad.update(rr="", q=dict(n=n))
        elif ilk in ("rpy",):
            sad["a"] = dict(n=n)
        else:
            sad.update(q=dict(n=n), a={})
        m.sad, m.raw = mg.finish(sad, "JSON", {"d": "E"})
        m.said = m.sad["d"]
        m.count, m.opened, m.parts, m.sure, m.state, m.known, m.timely, m.gone, m.tried = 0, None, set(), set(), None, False, False, False, False
        m.exempt = any(ilk == t and m.route.startswith(r) for _, t, r in cf["kram"]["denials"]) or (ilk == "rpy" and m.route.startswith("/end/role"))
        ctx.saw("exempt", m.exempt)
        msgs[m.said] = m
        if ilk == "xip":
            xips.append(m)
        return m

    def wire(m, sigs=None, seal=None, how=None):
        kwa = {}
        if m.c.transferable_ is False:
            kwa["couples"] = sigs or []
        elif sigs:
            e = m.c.last
            if m.ilk in ("exn", "rpy"):
                kwa["tsgs"] = [how if how else (m.c.pre, m.c.lastest.sn, m.c.lastest.said)]
                kwa["tsgs"] = [kwa["tsgs"][0] + (sigs,)]
            elif m.ilk == "qry" or rng.random() < 0.5:
                kwa["lsg"] = (m.c.pre, sigs)
            else:
                kwa["sigs"] = sigs
        if seal:
            kwa["source"] = seal
        return kl.message(rng, m.raw, 2, **kwa)

    def deliver(m, w=None):
        """One delivery: returns (class, positions validly signed, sealed)."""
        keys = m.c.lastest.keys
        nt = m.c.transferable_ is False
        w = w or rng.choice(["full", "full", "full", "part", "part", "false", "unsigned", "seal", "badseal", "both", "oldkeys"] if not nt else ["full", "full", "false", "unsigned"])
        if not nt and w != "full" and m.timely and not m.gone and m.open and rng.random() < 0.6:
            w = "part"
        if nt:
            k = keys[0]
            ctx.saw("nontransferable")
            if w == "full":
                return w, {0}, wire(m, [(k.qb64, kl.csig(k.sign(m.raw)))])
            if w == "false":
                o = kl.Key(rng, False)
                return w, set(), wire(m, [rng.choice([(k.qb64, kl.csig(k.sign(m.raw + b" "))), (o.qb64, kl.csig(o.sign(m.raw))), (k.qb64, kl.csig(o.sign(m.raw)))])])
            return w, set(), (m.raw, 2)
        sig = lambda j, k, raw=m.raw: kl.isig("A", j, None, k.sign(raw))
        if w == "full":
            return w, set(range(len(keys))), wire(m, [sig(j, k) for j, k in enumerate(keys)])
        if w == "part":
            pos = set(rng.sample(range(len(keys)), rng.randint(1, max(1, len(keys) - 1) if rng.random() < 0.7 else len(keys))))
            if m.timely and m.open and rng.random() < 0.7:
                pos |= set(range(len(keys))) - m.parts
            if kl.sat(m.c.lastest.kt, pos):
                return "full", pos, wire(m, [sig(j, keys[j]) for j in sorted(pos)])
            ctx.saw("partial")
            return w, pos, wire(m, [sig(j, keys[j]) for j in sorted(pos)])
        if w == "false":
            bad = rng.choice([lambda j, k: sig(j, kl.Key(rng)), lambda j, k: sig(j, k, m.raw + b" ")])
            return w, set(), wire(m, [bad(j, k) for j, k in enumerate(keys)])
        if w == "oldkeys":
            old = [e for e in m.c.branch if e.est and e is not m.c.lastest and not set(k.qb64 for k in e.keys) & set(k.qb64 for k in keys)]
            if old:
                e = rng.choice(old)
                ctx.saw("oldkeys")
                return w, set(), wire(m, [sig(j, k) for j, k in enumerate(e.keys)], how=(m.c.pre, e.sn, e.said))
            return "unsigned", set(), (m.raw, 2)
        if w in ("seal", "both"):
            if not hasattr(m, "sealed"):
                ev = m.c.ixn(a=[dict(d=m.said)] if rng.random() < 0.5 else [dict(i=m.c.pre, s="0", d=m.said)])
                put(ev)
                m.sealed = ev
            if w == "both":
                return w, set(range(len(keys))), wire(m, [sig(j, k) for j, k in enumerate(keys)], seal=(m.sealed.sn, m.sealed.said))
            return w, set(), wire(m, seal=(m.sealed.sn, m.sealed.said))
        if w == "badseal":
            e = rng.choice([e for e in m.c.branch if e is not getattr(m, "sealed", None)])
            s = rng.choice([(e.sn, e.said), (e.sn, mg.digest(rng)), (e.sn + 50, e.said)])
            return w, set(), wire(m, seal=s)
        return w, set(), (m.raw, 2)

    again = False
    plan = []
    for c in senders:
        c.transferable_ = c is not senders[3]
    for step in range(rng.randint(8, 40)):
        a = rng.random()
        force = None
        if plan:
            what, m = plan.pop(0)
            if what == "clock":
                clock[0] = max(clock[0], m)
                continue
            a = 0 if what == "prune" else 1
            force = m
        if a < 0.12:
            ctx.log("prune", str(now()))
            doist.recur(deeds=deeds)
            ctx.saw("pruned")
            for m in msgs.values():
                if m.timely:
                    m.gone = True
            continue
        if a < 0.32:
            if msgs and rng.random() < 0.6:      # to an edge of some message
                m = rng.choice(list(msgs.values()))
                d, sl, ll, xl, psl, pll, pxl = record(m)
                edge = rng.choice([sl + d, ll + d, psl + d, pll + d, pxl, xl, xl + d, pxl + d, -d])
                base = m.x.mdt if isinstance(m.x, Msg) else m.mdt
                t = base + datetime.timedelta(milliseconds=edge + rng.choice([-1, 1, 1]))
                ctx.saw("edge")
            else:
                t = now() + datetime.timedelta(milliseconds=rng.choice([1, 300, 1500, 4000]))
            if t > now():
                clock[0] = t
                ctx.log("clock", str(t))
            continue
        if a < 0.36:
            c = rng.choice(senders[:3])
            ctx.log("rotate", c.pre[:6])
            put(c.rot(rotwits=0, reserve=0))
            ctx.saw("rotated")
            continue
        known = list(msgs.values())
        open_ = [x for x in known if x.timely and not x.gone and x.open]
        m = force or rng.choice(open_) if force or open_ and rng.random() < 0.4 else rng.choice(known) if known and rng.random() < 0.65 else make()
        w, pos, wired = deliver(m, "full" if force else None)
        ctx.saw({"full": "full", "part": "part"}.get(w, w))
        d, sl, ll, xl, psl, pll, pxl = record(m)
        many = len(m.c.lastest.keys) > 1
        lag = sl if w in ("seal", "badseal", "both") or not many else ll
        ms = datetime.timedelta(milliseconds=1)
        age = (now() - m.mdt) / ms
        timely = -d <= age <= d + lag
        clear = -d + 0.5 <= age <= d + lag - 0.5      # away from the edges
        ctx.saw("late", age > d + lag)
        ctx.saw("early", age < -d)
        xok = xsure = True
        if m.ilk == "exn" and m.x:
            xok = isinstance(m.x, Msg) and m.x.c is m.c and m.x.timely
            if xok:
                gap = (m.mdt - m.x.mdt) / ms
                xok = 0 <= gap <= xl
                xsure = xok and not m.x.gone
        auth = w == "seal" or bool(pos)
        short = lag == sl and psl < ll
        full = w == "seal" or bool(pos) and kl.sat(m.c.lastest.kt, pos)
        head = m.c.last.said
        may = must_ = False
        if m.exempt:
            may = True
        elif m.count == 0:
            if m.timely:              # opened before: completed by more signatures
                if m.state == head:
                    may = kl.sat(m.c.lastest.kt, m.parts | pos) and bool(pos)
                    must_ = may and kl.sat(m.c.lastest.kt, m.sure | pos) and not m.gone and m.open and many and w != "both"
                if full and timely and xok:
                    may = True
            else:
                may = full and timely and xok
                must_ = full and clear and xsure and xok and (w != "seal" or m.ilk == "xip")      # others need signatures to be dispatched
        if m.count and not m.exempt:
            again = True
            ctx.saw("repeated_after_processed")
            ctx.saw("repeated_after_prune", m.gone)
        before = len(got)
        ctx.log(w, m.ilk, m.route, m.said[:6], sorted(pos), f"age {age}", record(m), f"count {m.count}", "x" if m.x else "")
        try:
            Parser(version=V2).parse(ims=bytearray(wired[0]), kvy=kvy, exc=sink, rvy=sink, tvy=sink)
        except Exception as ex:
            must(False, "parser raised %r", ex)
        new = got[before:]
        must(all(s == m.said for s in new) and len(new) <= 1, "unexpected processing %s", new)
        if new:
            if m.count and m.single and many:
                break                         # signed anew after its sender got several keys
            must(m.exempt or m.count == 0, "message %s processed again (%s after pruning: %s)", m.said, w, m.gone)
            must(may, "message %s (%s, age %s ms, window %s, %s) processed though not authenticated, not timely or not in its exchange", m.said, w, age, (d, lag), m.ilk)
            m.count += 1
            m.single = not many
            if short and not m.exempt and (many or m.c is not senders[3] and rng.random() < 0.3) and rng.random() < 0.7:
                plan = [("clock", m.mdt + max(psl + d + 1, m.ilk in ("xip", "exn") and pxl + 1) * ms), ("prune", None), ("full", m)]
                ctx.saw("early_prune")
            ctx.saw("processed")
            if m.timely and not (full and timely):
                ctx.saw("completed")
        else:
            must(not must_, "timely authenticated message %s (%s, age %s ms, window %s) not processed", m.said, w, age, (d, lag))
            ctx.saw("refused")
        ctx.saw("must", must_)
        if auth and timely and xok and not m.exempt:
            if not m.timely or (m.gone and not m.count):
                m.open = not full and (not m.timely or m.open and m.state == head)      # only perhaps gone: perhaps still closed
                m.parts = m.parts | pos if m.timely and m.state == head else set(pos)      # only perhaps gone: perhaps still there
                m.timely, m.gone = True, False
                m.state, m.sure = head, set(pos)
            elif m.state == head:
                m.parts |= pos
                m.sure |= pos
        elif auth and m.timely and m.state == head:
            m.parts |= pos
            m.sure |= pos
    v.close()
    ctx.case(tuple(msgs), again)


CASES = [("history", history, 500, 8000)]
