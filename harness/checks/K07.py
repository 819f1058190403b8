"""K07: cloning, reloading and cleaning a database keep what it recorded."""
import os
import tempfile
import vboot
import kellib as kl
import msggen as mg
from vh import must, same

RULE = ("each case fills a real database with several identifiers (delegation, recovery, witnesses, receipts of every kind), then replays its cloned logs to fresh real validators "
        "in cloned mode, reopens it from disk, or cleans it; recorded state, logs, dates, signatures and receipts must be the same, and both must accept the same further events; "
        "non-trivial if more than three events are recorded")
REQUIRE = ["clones", "clones_with_recovery", "clones_with_delegation", "reopened", "cleaned", "continued", "records", "partial", "audited_events"]
ASSUME = ["no delegator recovers from an event that approved a delegation (what a fresh party makes of such an approval is not specified)",
          "delegators and receiptors are replayed before those that rest on them, as cloneDelegation does, where dates are compared",
          "cleaning keeps no first-seen dates (it re-accepts events)"]


def world(ctx, rng, name, path=None):
    """A validator that has accepted a random world; returns (validator, controllers in order of dependency)."""
    v = kl.Validator(name=name, temp=path is None, path=path, lax=rng.random() < 0.5)
    ctls, order, approvals = [], [], set()
    s = kl.Story(ctx, rng, [], v)
    watch = [kl.Key(rng, False) for _ in range(2)]

    def put(ev):
        for d in s.plan(ev, hostile=0.1):
            s.deliver(d)
            if rng.random() < 0.2:
                v.settle(2)
        if rng.random() < 0.3:
            s.deliver(s.receipt(ev, couples=[ev.couple(rng.choice(watch))]))
        if rng.random() < 0.3:
            v.settle()

    def step(c, ev):
        order.append(ev)
        if c.delegator and ev.est:
            a = c.delegator.approve(ev, est=rng.random() < 0.2)
            approvals.add(a.said)
            step(c.delegator, a)
        put(ev)

    for k in range(rng.randint(1, 4)):
        d = rng.choice(ctls) if ctls and rng.random() < 0.45 else None
        c = kl.Ctl(rng, nkeys=rng.choice([1, 1, 2, 3]), wits=[kl.Key(rng, False) for _ in range(rng.choice([0, 0, 1, 3]))], delegator=d)
        ctls.append(c)
        step(c, c.branch[0])
        for _ in range(rng.randint(0, 4)):
            o = rng.choice(ctls)
            kept = max([e.sn for e in o.branch if e.said in approvals], default=0)       # approvals are not superseded
            tail = [e for e in o.branch if e.sn > max(o.lastest.sn, kept)]
            if tail and rng.random() < 0.4:
                ev = o.rot(at=rng.choice(tail).sn)
                ctx.saw("recoveries")
            else:
                ev = rng.choice([o.ixn, o.rot])()
            step(o, ev)
        for o in ctls:
            if o is not c and rng.random() < 0.4:
                s.deliver(s.chit(rng.choice(c.branch), o))
    v.settle(20)
    return v, ctls


def dated(db):
    """First-seen order, ordinals and dates."""
    out = {}
    for keys, on, dig in db.fels.getAllItemIter():
        pre = keys[0]
        out.setdefault(pre, []).append((on, dig, db.dtss.get(keys=(pre, dig)).dts, db.fons.get(keys=(pre, dig)).sn))
    for keys, rec in db.states.getTopItemIter():
        out["state", keys[0]] = (rec.dt, rec.f)
    for keys, val in db.aess.getTopItemIter():
        out[("aess",) + tuple(keys)] = (val[0].sn, val[1].qb64)
    return out


def accepted(db):
    """Records about accepted events."""
    recs = kl.records(db)
    seen = {d for k, v in recs.items() if k[0] == "fel" for d in v}
    return {k: v for k, v in recs.items() if k[0] not in ("sigs", "wigs", "wits", "rcts", "vrcs") or k[2] in seen}


def compare(a, b, what):
    if a != b:
        must(False, "%s: %s", what, kl.differ(a, b))


def further(ctx, rng, ctls, vs):
    """Both validators must treat further events alike."""
    for _ in range(rng.randint(1, 4)):
        c = rng.choice(ctls)
        ev = rng.choice([c.ixn, c.rot])() if rng.random() < 0.8 else c.rot(at=rng.choice(c.branch[1:]).sn) if len(c.branch) > 1 else c.ixn()
        sigs = ev.signatures(rng) if rng.random() < 0.8 else ev.signatures(rng, [0])
        data, gm = kl.message(rng, ev.raw, ev.major, sigs=sigs, wigs=ev.receipts())
        ctx.log("further", ev.ilk, ev.sn, ev.pre)
        for v in vs:
            v.feed(data, gm)
            v.settle()
        heads = [v.head(c.pre) for v in vs]
        same(heads[1:], heads[:1] * (len(vs) - 1), "event in force after a further %s", ev.ilk)
        if heads[0] == ev.said:
            ctx.saw("continued")


def clone(ctx, rng, i):
    from keri.kering import Vrsn_1_0, Vrsn_2_0
    v, ctls = world(ctx, rng, f"a{i}")
    db = v.db
    kl.audit(ctx, db)
    want = accepted(db)
    ctx.saw("records", len(want))
    when = dated(db)
    gm = 2 if any(c.major == 2 for c in ctls) else rng.choice([1, 2])
    gv = Vrsn_1_0 if gm == 1 else Vrsn_2_0
    known = [c for c in ctls if c.pre in db.kevers]
    msgs = {c.pre: [bytes(m) for m in db.clonePreIter(pre=c.pre, gvrsn=gv)] for c in known}
    for c in known:
        same(len(msgs[c.pre]), db.fels.cnt(keys=c.pre) if hasattr(db.fels, "cnt") else len(msgs[c.pre]), "messages cloned")
        # from a later ordinal on: the same messages
        fn = rng.randrange(len(msgs[c.pre]) + 1)
        same([bytes(m) for m in db.clonePreIter(pre=c.pre, fn=fn, gvrsn=gv)], msgs[c.pre][fn:], "messages cloned from first-seen ordinal %d", fn)
        ctx.saw("partial")
    everything = [bytes(m) for m in db.cloneAllPreIter(gvrsn=gv)]
    same(sorted(everything), sorted(m for ms in msgs.values() for m in ms), "messages of all logs cloned")
    if any(db.fels.cntAll(keys=c.pre) > db.kevers[c.pre].sn + 1 for c in known if hasattr(db.fels, "cntAll")):
        ctx.saw("clones_with_recovery")
    if any(c.delegator for c in known):
        ctx.saw("clones_with_delegation")

    # in order, delegators first
    b = kl.Validator(name=f"b{i}", cloned=True, lax=rng.random() < 0.5)
    how = rng.choice(["each", "log", "delegation"])
    for c in known:
        ms = msgs[c.pre]
        if how == "delegation":
            for m in db.cloneDelegation(db.kevers[c.pre], gvrsn=gv):
                b.feed(m, gm)
        if how == "each":
            for m in ms:
                b.feed(m, gm)
        else:
            b.feed(b"".join(ms), gm)
    b.settle(20)
    ctx.log("cloned", how, gm)
    compare(accepted(b.db), want, "records after cloned replay")
    compare(dated(b.db), when, "first-seen records after cloned replay")
    for c in known:
        same([bytes(m) for m in b.db.clonePreIter(pre=c.pre, gvrsn=gv)], msgs[c.pre], "clone of the clone")
    same(kl.waiting(b.db), {}, "left waiting after cloned replay")
    kl.audit(ctx, b.db)
    ctx.saw("clones")

    # in any order and not cloned: all but the dates
    o = kl.Validator(name=f"o{i}", lax=rng.random() < 0.5)
    pres = [c.pre for c in known]
    if not any(c.delegator for c in known):
        rng.shuffle(pres)
    for p in pres:
        for m in msgs[p]:
            o.feed(m, gm)
    o.settle(20)
    last = {ds[-1] for k, ds in want.items() if k[0] == "kel"}
    live = lambda r: {k: x for k, x in r.items() if k[0] != "vrcs" or k[2] in last}       # late receipts of superseded events are dropped
    compare(live(accepted(o.db)), live(want), "records after replay of logs in any order")
    kl.audit(ctx, o.db)
    further(ctx, rng, known, [v, b, o])
    ctx.case(tuple(pres), sum(len(m) for m in msgs.values()) > 3)
    for x in (v, b, o):
        x.close()


def reopen(ctx, rng, i):
    with tempfile.TemporaryDirectory(prefix="k07") as path:
        v, ctls = world(ctx, rng, "db", path=path)
        want, when, left = kl.records(v.db), dated(v.db), kl.waiting(v.db)
        t = twin(v, ctls, i)
        v.db.close()
        v.db = None
        w = kl.Validator(name="db", temp=False, path=path, lax=v.kvy.lax)
        for c in ctls:
            if ("state", c.pre) in want:
                must(c.pre in w.kvy.kevers, "identifier %s is not loaded again", c.pre)
        compare(kl.records(w.db), want, "records after reopening")
        compare(dated(w.db), when, "first-seen records after reopening")
        same(kl.waiting(w.db), left, "waiting entries after reopening")
        kl.audit(ctx, w.db)
        further(ctx, rng, [c for c in ctls if c.pre in w.kvy.kevers], [t, w])
        kl.audit(ctx, w.db)
        ctx.saw("reopened")
        ctx.saw("records", len(want))
        ctx.case((path, i), len(want) > 3)
        w.db.close()
        t.close()


def twin(v, ctls, i):
    """A validator that never closes, filled from the clones of v."""
    from keri.kering import Vrsn_2_0
    t = kl.Validator(name=f"t{i}", cloned=True, lax=v.kvy.lax)
    for c in ctls:
        if c.pre in v.kvy.kevers:
            for m in v.db.clonePreIter(pre=c.pre, gvrsn=Vrsn_2_0):
                t.feed(m, 2)
    t.settle(20)
    return t


def clean(ctx, rng, i):
    with tempfile.TemporaryDirectory(prefix="k07") as path:
        v, ctls = world(ctx, rng, "db", path=path)
        want = accepted(v.db)
        order = {p: [d for _, d, _, _ in x] for p, x in dated(v.db).items() if isinstance(p, str)}
        v.db.clean()
        v.db.close()
        w = kl.Validator(name="db", temp=False, path=path)
        last = {ds[-1] for k, ds in want.items() if k[0] == "kel"}
        live = lambda r: {k: x for k, x in r.items() if k[0] != "vrcs" or k[2] in last}
        compare(live(accepted(w.db)), live(want), "records after cleaning")
        same({p: [d for _, d, _, _ in x] for p, x in dated(w.db).items() if isinstance(p, str)}, order, "first-seen order after cleaning")
        kl.audit(ctx, w.db)
        ctx.saw("cleaned")
        ctx.case((path, i), len(want) > 3)
        w.db.close()


CASES = [("clone", clone, 40, 3000), ("reopen", reopen, 15, 800), ("clean", clean, 15, 800)]
