"""D12: crashes at storage commits while events are accepted."""
import os
import tempfile
import vboot
import lmdb
import kellib as kl
from vh import must, same

RULE = ("each case records the deliveries of a random world (delegation, recovery, witnesses, signatures spread over messages, escrows), runs them once undisturbed, then again with the "
        "process dying at a storage commit (before it takes effect), reopens the database and judges what is stored, and resubmits the deliveries; several commits of each world are "
        "chosen, at random or around acceptances; non-trivial if the crash fell inside the acceptance of an event")
REQUIRE = ["worlds", "commits", "crashes", "crash_in_acceptance", "crash_in_escrow", "log_ahead_of_state", "from_start", "from_crash", "recoveries", "delegated", "audited_events", "restored",
           "incepting", "twice", "whole", "crashed_again"]
ASSUME = ["a transaction is atomic and durable once committed, as lmdb promises", "after the restart the interrupted delivery is the first to be submitted again, or everything from the start"]
ACCEPT = {"fels", "kels", "fons", "stts", "states"}


class Crash(BaseException):
    pass


def world(ctx, rng):
    """Steps: deliveries and escrow processing."""
    steps, ctls = [], []
    s = kl.Story(ctx, rng, [], None)
    approvals, reached = set(), {}

    def put(ev):
        if ev.ilk in ("rot", "drt") and ev.sn <= reached.get(ev.pre, -1):      # receipts apart from superseding events may be dropped
            steps.append(None)          # what it supersedes is not left waiting
            plan = [s.event(ev, ev.signatures(rng), list(range(len(ev.wits))))]
        else:
            plan = s.plan(ev, hostile=0.1)
        reached[ev.pre] = ev.sn
        for d in plan:
            steps.append(d)
            if rng.random() < 0.25:
                steps.append(None)
        if rng.random() < 0.3:
            steps.append(None)

    def step(c, ev):
        if c.delegator and ev.est:
            ctx.saw("delegated")
            a = c.delegator.approve(ev, est=rng.random() < 0.2)
            approvals.add(a.said)
            late = rng.random() < 0.4
            if late:
                put(ev)
            step(c.delegator, a)
            if late:
                steps.append(None)
                return
        put(ev)

    for k in range(rng.randint(1, 3)):
        d = rng.choice(ctls) if ctls and rng.random() < 0.5 else None
        c = kl.Ctl(rng, nkeys=rng.choice([1, 1, 2, 3]), wits=[kl.Key(rng, False) for _ in range(rng.choice([0, 0, 1, 3]))], delegator=d)
        ctls.append(c)
        step(c, c.branch[0])
        for _ in range(rng.randint(0, 4)):
            o = rng.choice(ctls)
            kept = max([e.sn for e in o.branch if e.said in approvals], default=0)
            tail = [e for e in o.branch if e.sn > max(o.lastest.sn, kept)]
            if tail and rng.random() < 0.5:
                ev = o.rot(at=rng.choice(tail).sn)
                ctx.saw("recoveries")
            else:
                ev = rng.choice([o.ixn, o.ixn, o.rot])()
            step(o, ev)
    steps.append(None)
    return ctls, steps


def play(v, steps):
    for d in steps:
        if d is None:
            v.settle()
        else:
            v.feed(d.data, d.gm)


def order(db):
    out = {}
    for keys, on, dig in db.fels.getAllItemIter():
        out.setdefault(keys[0], []).append(dig)
    return out


def kel(db):
    out = {}
    for keys, on, dig in db.kels.getAllItemIter():
        out.setdefault(keys[0], {}).setdefault(on, []).append(dig)
    return out


def proven(db, pre, dig, what):
    """The event is stored with enough valid signatures."""
    s = db.evts.get(keys=(pre, dig))
    must(s is not None, "%s %s of %s is not stored", what, dig, pre)
    e, kind, raw = kl.bodyof(s)
    kl.selfsaid(e, kind, raw)
    est = e
    for _ in range(1000):
        if "k" in est:
            break
        p = db.evts.get(keys=(pre, est["p"]))
        must(p is not None, "event before %s of %s is not stored", est["d"], pre)
        est = kl.bodyof(p)[0]
    good = set()
    for q in db.sigs.get(keys=(pre, dig)):
        code, index, ondex, sraw = kl.unsig(q.qb64)
        if index < len(est["k"]) and kl.verifies(est["k"][index], sraw, raw):
            good.add(index)
    must(good and kl.sat(est["kt"], good), "%s %s of %s is visible with signatures at %s for threshold %s", what, dig, pre, sorted(good), est["kt"])
    return e


def after(ctx, db, want, worder):
    """What is stored right after a crash, given the final logs of the undisturbed run."""
    logs = kel(db)
    ahead = False
    for pre, log in logs.items():
        same(sorted(log), list(range(len(log))), "sequence numbers of log of %s", pre)
        for on, digs in log.items():
            same(digs, want[pre][on][:len(digs)], "events at %d of %s", on, pre)
            for d in digs:
                e = proven(db, pre, d, "logged event")
                must(not on or e["p"] in log[on - 1], "event %d of %s does not follow a logged event", on, pre)
    for pre, digs in order(db).items():
        same(digs, worder[pre][:len(digs)], "first seen log of %s", pre)
        for d in digs:
            proven(db, pre, d, "first seen event")
        logged = {d for ds in logs.get(pre, {}).values() for d in ds}
        must(len(set(digs) ^ logged) <= 1, "first seen log of %s against its event log: %s", pre, set(digs) ^ logged)
        ahead |= set(digs) != logged
    states = dict((k[0], r) for k, r in db.states.getTopItemIter())
    for pre, rec in states.items():
        proven(db, pre, rec.d, "event of key state")
        must(rec.d in logs.get(pre, {}).get(int(rec.s, 16), ()), "key state of %s at %s, which is not in its log", pre, rec.d)
    for pre, log in logs.items():
        k = db.kevers[pre] if pre in db.kevers else None
        head = states[pre].d if pre in states else None
        ds = order(db).get(pre, [])
        must(head is None and len(ds) <= 1 or head in ds[-2:], "key state of %s at %s, first seen log ends with %s", pre, head, ds[-2:])
        ahead |= not ds or head != ds[-1]
        must((k is None) == (head is None) and (k is None or k.serder.said == head), "key state after restart of %s", pre)
    if ahead:
        ctx.saw("log_ahead_of_state")


def crash(ctx, rng, i):
    ctls, steps = world(ctx, rng)
    ctx.saw("worlds")
    ctx.log(*[d.what if d else "settle" for d in steps])
    with tempfile.TemporaryDirectory() as top:
        v = kl.Validator(name="whole", temp=False, path=os.path.join(top, "w"))
        places = []                      # (step, commit within the step, changed tables)
        at = [0]
        state = [0]

        def note(env, seq, changes):
            if at[0] == state[0]:
                places[-1][1] += 1
            places.append([at[0], 0, {c[0] for c in changes if isinstance(c, tuple)} if changes else set()])
        marks = []
        count = [0]
        heads = {}
        lmdb.hooks.on_commit = lambda env, seq, changes: count.__setitem__(0, count[0] + 1)
        try:
            for n, d in enumerate(steps):
                a, f = count[0], v.db.fels.cntAll()
                play(v, [d])
                marks.append((a, count[0], v.db.fels.cntAll() > f))
        finally:
            lmdb.hooks.on_commit = None
        kl.audit(ctx, v.db)
        want, worder, recs = kel(v.db), order(v.db), kl.records(v.db)
        whole = all(v.head(c.pre) == c.last.said for c in ctls)
        ctx.saw("whole", whole)
        if not whole:
            v.close()
            return
        again = kl.Validator(name="again", temp=False, path=os.path.join(top, "g"))     # undisturbed, all submitted twice
        play(again, steps)
        play(again, steps)
        twice = kl.records(again.db)
        same(order(again.db), worder, "first seen logs after submitting everything twice")
        same(kel(again.db), want, "event logs after submitting everything twice")
        ctx.saw("twice")
        again.close()
        v.close()
        ctx.saw("commits", count[0])
        hot = [m for m in marks if m[2]]
        for j in range(4 if ctx.tier == "quick" else 12):
            m = rng.choice(hot if rng.random() < 0.85 else [m for m in marks if m[1] > m[0]])
            n = marks.index(m)
            if m[0] == m[1]:
                continue
            k = rng.randrange(m[0], m[1])
            name, path = f"c{j}", os.path.join(top, f"c{j}")
            v = kl.Validator(name=name, temp=False, path=path)
            seen = [0]

            def die(env, seq, changes):
                if seen[0] == k:
                    raise Crash()
                seen[0] += 1
            lmdb.hooks.on_commit = die
            try:
                play(v, steps)
                died = False
            except Crash:
                died = True
            finally:
                lmdb.hooks.on_commit = None
            must(died, "harness: run with %d commits did not repeat", k)
            ctx.saw("crashes")
            ctx.saw("crash_in_acceptance", m[2])
            ctx.saw("crash_in_escrow", steps[n] is None)
            v.db.close(clear=False)
            v = kl.Validator(name=name, temp=False, path=path)
            ctx.log("crash at commit", k, "in step", n)
            after(ctx, v.db, want, worder)
            if not v.db.states.cntAll():
                ctx.saw("incepting")
            if rng.random() < 0.5:
                ctx.saw("from_crash")
                left = steps[n:] + [None]
            else:
                ctx.saw("from_start")
                left = steps
            if rng.random() < 0.3:               # dies again while it catches up
                k, seen[0] = rng.randrange(12), 0
                lmdb.hooks.on_commit = die
                try:
                    for d in list(left):
                        play(v, [d])
                        left = left[1:]
                except Crash:
                    ctx.saw("crashed_again")
                finally:
                    lmdb.hooks.on_commit = None
                v.db.close(clear=False)
                v = kl.Validator(name=name, temp=False, path=path)
                after(ctx, v.db, want, worder)
            play(v, left)
            same(order(v.db), worder, "first seen logs after restart and resubmission")
            same(kel(v.db), want, "event logs after restart and resubmission")
            kl.audit(ctx, v.db)
            got = kl.records(v.db)
            for key in set(got) | set(twice) | set(recs):
                lo, hi = recs.get(key), twice.get(key)
                if isinstance(hi, set):          # signatures and receipts: something may count only when it is submitted again
                    ok = (lo or set()) <= (got.get(key) or set()) <= hi
                else:
                    ok = got.get(key) in (lo, hi)
                must(ok, "record %s after restart and resubmission: %s, undisturbed %s", key, got.get(key), hi)
            ctx.saw("restored")
            v.close()
    ctx.case((len(ctls), tuple(d.what.split()[0] if d else "" for d in steps)), len(hot) > 1)


CASES = [("crash", crash, 40, 700)]
