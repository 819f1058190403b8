"""K05: delegated events need their delegator's seal, observed at a real validator that gets delegators and delegates in any order."""
import vboot
import kellib as kl
import msggen as mg
from vh import must, same

RULE = ("each case builds one to three levels of delegation with right, missing, altered, foreign and forbidden seals and right, missing and wrong source seals attached, "
        "delivers everything in or out of order with false and repeated messages, and compares acceptance with an independent computation; non-trivial if a delegated event "
        "had to wait or was refused")
REQUIRE = ["deliveries", "settled_states", "held_back", "complete", "approved", "unapproved", "forbidden", "audited_delegations"]
ASSUME = ["the validator is neither delegator nor delegate nor a witness of either", "approval by an event that is later superseded is judged by K04"]


def wrongseal(rng, ev):
    good = dict(i=ev.pre, s=f"{ev.sn:x}", d=ev.said)
    return rng.choice([dict(good, d=mg.digest(rng)), dict(good, s=f"{ev.sn + 1:x}"), dict(good, i=mg.prefix(rng)), dict(d=ev.said), dict(i=ev.pre, s=f"{ev.sn + 1:x}", d=ev.said),
                       dict(i=ev.pre, d=ev.said), dict(s=f"{ev.sn:x}", d=ev.said), dict(i=ev.ctl.branch[0].said, s=f"{ev.sn:x}", d=(ev.ctl.branch[0].said if ev.sn else mg.digest(rng)))])


def build(ctx, rng, levels):
    """Controllers with approvals; returns (controllers, whether anything is left unapproved)."""
    ctls = []
    flaw = False
    for k in range(levels + 1):
        traits = ["DND"] if rng.random() < 0.08 and k < levels else []
        c = kl.Ctl(rng, nkeys=rng.choice([1, 1, 2]), wits=[kl.Key(rng, False) for _ in range(rng.choice([0, 0, 0, 2]))],
                   delegator=(rng.choice(ctls) if rng.random() < 0.3 else ctls[-1]) if k else None, traits=traits)
        ctls.append(c)
        flaw |= bool(c.delegator and "DND" in c.delegator.traits)
        if c.delegator and "DND" in c.delegator.traits:
            ctx.saw("forbidden")
    todo = [(c, c.branch[0]) for c in ctls if c.delegator]
    for c in ctls:
        for _ in range(rng.randint(0, 3)):
            ev = rng.choice([c.ixn, c.rot])()
            if ev.est and c.delegator:
                todo.append((c, ev))
    while todo:
        c, ev = todo.pop(0)
        d = c.delegator
        w = rng.random()
        extra = [wrongseal(rng, ev) for _ in range(rng.choice([0, 0, 1, 2]))]
        if w < 0.12:
            flaw = True
            ctx.saw("unapproved")
            if extra:
                a = rng.choice([d.ixn, d.rot])(a=extra)
                if a.est and d.delegator:
                    todo.append((d, a))
            if rng.random() < 0.4:
                o = rng.choice(ctls)
                if o is not d:      # sealed by somebody else
                    a = o.approve(ev)
            continue
        more = [x for x in todo if x[0].delegator is d and rng.random() < 0.4]
        for x in more:
            todo.remove(x)
        a = d.approve([ev] + [x[1] for x in more], est=rng.random() < 0.3, extra=extra)
        ctx.saw("approved", 1 + len(more))
        if a.est and d.delegator:
            todo.append((d, a))
    return ctls, flaw


def plan(ctx, rng, s, ctls):
    ds = []
    for c in ctls:
        for ev in c.branch:
            for d in s.plan(ev, hostile=0.15):
                ds.append(d)
            if c.delegator and ev.est and rng.random() < 0.4:
                # with a wrong source seal
                e = rng.choice([x for o in ctls for x in o.branch])
                src = rng.choice([(e.sn, e.said), (rng.randint(50, 90), mg.digest(rng)), (max(e.sn - 1, 1), mg.digest(rng)), (e.sn + 1, e.said)])
                if src[0] > 0:
                    ds.append(s.event(ev, ev.signatures(rng), list(range(len(ev.wits))), source=src))
                    ctx.saw("wrong_source")
            if c.delegator and ev.est and ev.ilk == "drt" and rng.random() < 0.2:
                # same but of the undelegated type
                f = c.rot(at=ev.sn, push=False, ilk="rot")
                ds.append(s.event(f, f.signatures(rng), list(range(len(f.wits))), source=None, pure=False))
                ctx.saw("undelegated_rotations")
    return ds


def anyorder(ctx, rng, i):
    ctls, flaw = build(ctx, rng, rng.choice([1, 1, 2, 3]))
    v = kl.Validator(lax=rng.random() < 0.3)
    s = kl.Story(ctx, rng, ctls, v)
    ds = plan(ctx, rng, s, ctls)
    w = rng.random()
    if w < 0.6:
        rng.shuffle(ds)
    elif w < 0.8:
        ds.reverse()
    if rng.random() < 0.3:
        ds += rng.sample(ds, rng.randint(0, len(ds)))
    for d in ds:
        s.deliver(d)
        s.judge(False)
        if rng.random() < 0.15:
            v.settle(1 if rng.random() < 0.5 else 20)
            s.judge(False)
    v.settle(20)
    s.judge(True)
    kl.audit(ctx, v.db)
    v.close()
    ctx.case(tuple(c.pre for c in ctls), flaw or w < 0.8)


def strangers(ctx, rng, i):
    """Delegated inception that names a delegator never heard of, or known only later."""
    root = kl.Ctl(rng)
    c = kl.Ctl(rng, delegator=root)
    a = root.approve(c.branch[0], est=rng.random() < 0.4)
    v = kl.Validator()
    s = kl.Story(ctx, rng, [root, c], v)
    for d in s.plan(c.branch[0]):
        s.deliver(d)
    v.settle()
    s.judge(True)
    must(c.pre not in v.db.kevers, "delegated inception accepted without its delegator")
    # somebody else seals it
    o = kl.Ctl(rng)
    e = o.ixn(a=[dict(i=c.pre, s="0", d=c.pre)])
    s.chain[o.pre] = o.branch
    for x in o.branch:
        for d in s.plan(x):
            s.deliver(d)
    s.deliver(s.event(c.branch[0], c.branch[0].signatures(rng), list(range(len(c.branch[0].wits))), source=(e.sn, e.said)))
    v.settle()
    s.judge(True)
    for x in root.branch:
        for d in s.plan(x):
            s.deliver(d)
            s.judge(False)
    v.settle()
    s.judge(True)
    must(c.pre in v.db.kevers, "delegated inception not accepted once its approval arrived")
    kl.audit(ctx, v.db)
    v.close()
    ctx.case(c.pre)


CASES = [("anyorder", anyorder, 320, 9000), ("strangers", strangers, 60, 1500)]
