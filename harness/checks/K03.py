"""K03: witness thresholds, observed at a real validator that gets receipts in every form and order."""
import vboot
import kellib as kl
from vh import must, same

RULE = ("each case builds controllers with 1..6 witnesses that change over rotations and delivers events and receipts (attached indexed, receipt messages with indexed or "
        "plain signatures) before, with or after each other, with repeats, false, foreign and cut witnesses; acceptance is compared with an independent count of distinct "
        "designated witnesses; non-trivial if some event was short of its witness threshold")
REQUIRE = ["deliveries", "settled_states", "held_back", "complete", "late_receipts", "receipts_first", "audited_events"]
ASSUME = ["the validator is neither controller nor witness", "receipts given as plain signatures attached to the event itself may or may not count"]


def controller(rng):
    c = kl.Ctl(rng, nkeys=rng.choice([1, 1, 2]), wits=[kl.Key(rng, False) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))])
    for _ in range(rng.randint(1, 4)):
        rng.choice([c.ixn, c.rot, c.rot])(**({"rotwits": 0.8} if 0 else {}))
    return c


def few(rng, ev):
    n = rng.randint(0, max(ev.toad - 1, 0))
    return rng.sample(range(len(ev.wits)), n)


def stepwise(ctx, rng, i):
    c = controller(rng)
    v = kl.Validator(lax=rng.random() < 0.3)
    s = kl.Story(ctx, rng, [c], v)
    short = 0
    stop = rng.randrange(len(c.branch) * 2)
    for k, ev in enumerate(c.branch):
        w = list(range(len(ev.wits)))
        if ev.toad and (k == stop or rng.random() < 0.5):
            short += 1
            lack = few(rng, ev)
            ds = s.plan(ev, wits=lack, hostile=0.5)
            rng.shuffle(ds)
            for d in ds:
                s.deliver(d)
                s.judge(False)
            v.settle()
            s.judge(True)
            if k == stop:
                break
            rest = [x for x in w if x not in lack]
            rng.shuffle(rest)
            must(rest, "harness")
            for d in s.plan(ev, sigs=[0] if len(ev.keys) == 1 else None, wits=rest, hostile=0.2):
                s.deliver(d)
                if rng.random() < 0.3:
                    v.settle()
                    s.judge(True)
            ctx.saw("late_receipts")
        elif rng.random() < 0.5:
            ds = s.plan(ev, hostile=0.2)
            ds.sort(key=lambda d: not d.what.startswith("rct"))
            if ds[0].what.startswith("rct"):
                ctx.saw("receipts_first")
            for d in ds:
                s.deliver(d)
                s.judge(False)
        else:
            for d in s.plan(ev, wits=rng.sample(w, rng.randint(ev.toad, len(w))), hostile=0.3):
                s.deliver(d)
        v.settle()
        s.judge(True)
    kl.audit(ctx, v.db)
    v.close()
    ctx.case((c.pre, stop), short > 0)


def anyorder(ctx, rng, i):
    cs = [controller(rng) for _ in range(rng.choice([1, 1, 2]))]
    v = kl.Validator()
    s = kl.Story(ctx, rng, cs, v)
    ds = []
    short = 0
    for c in cs:
        for ev in c.branch:
            lack = ev.toad and rng.random() < 0.3
            short += bool(lack)
            ds += s.plan(ev, wits=few(rng, ev) if lack else None, hostile=0.4)
            if lack and rng.random() < 0.7:
                ds += s.plan(ev, hostile=0.2)
    rng.shuffle(ds)
    if rng.random() < 0.4:
        ds += rng.sample(ds, rng.randint(0, len(ds)))
    for d in ds:
        s.deliver(d)
        s.judge(False)
        if rng.random() < 0.15:
            v.settle(1 if rng.random() < 0.5 else 12)
            s.judge(False)
    v.settle()
    s.judge(True)
    kl.audit(ctx, v.db)
    # every valid receipt of an accepted event ends up recorded once it is settled
    for c in cs:
        for ev in c.branch[:s.prevs[c.pre] + 1]:
            have = {kl.unsig(x.qb64)[1] for x in v.db.wigs.get(keys=(c.pre, ev.said))}
            want = s.lo.get((ev.said, "wit"), set())
            must(want <= have, "receipts of witnesses %s of event %d of %s are not recorded (%s are)", sorted(want - have), ev.sn, c.pre, sorted(have))
            ctx.saw("recorded_receipts", len(have))
    v.close()
    ctx.case(tuple(c.pre for c in cs), short > 0)


CASES = [("stepwise", stepwise, 240, 6000), ("anyorder", anyorder, 240, 6000)]
