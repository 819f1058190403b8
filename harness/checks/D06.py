"""D06: see catalog.py."""
import asyncio
import json

import weblib
from weblib import Backend, Handle, GENS, step, opendb, norm
from vh import must, same, Violation

RULE = ("seeded schedules of store writes interleaved with up to three concurrent flushes whose syncs suspend, fail, or "
        "are cancelled; non-trivial: a write, failure, cancellation or second flush happened while a sync was suspended, "
        "or a flush failed")
ASSUME = ["durable content is the payload a handle held when a sync was started or when it completed, later syncs of "
          "one handle never being overtaken by earlier ones"]
REQUIRE = ["flush_ok", "flush_failed", "flush_cancelled", "writes_during_sync", "overlapping_flushes",
           "durability_comparisons"]


class Gate:
    def __await__(self):
        r = yield self
        return r


class Boom(Exception):
    pass


class GatedBackend(Backend):
    """sync() suspends until the harness resumes it; may then fail."""

    def __init__(self, late):
        super().__init__()
        self.late = late          # payload captured at completion, else at start
        self.seq = 0
        self.last = {}
        self.gated = False
        self.current = None       # flush driving the coroutine now
        self.done = []            # (flush id, ns) completed syncs
        self.fail = set()         # flush ids whose pending sync must fail

    async def syncing(self, handle):
        self.seq += 1
        mine, seq, who = dict(handle.local), self.seq, self.current
        if self.gated:
            await Gate()
        if who in self.fail:
            self.fail.discard(who)
            raise Boom("storage unavailable")
        if self.late:
            mine = dict(handle.local)
        if seq > self.last.get(handle.ns, 0):
            self.last[handle.ns] = seq
            self.durable[handle.ns] = mine
        self.done.append((who, handle.ns))


KINDS = [("plain", "p."), ("on", "o."), ("io", "i."), ("onio", "oi.")]


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.back = GatedBackend(late=rng.random() < 0.5)
        self.kinds = rng.sample(KINDS, rng.randint(1, 3))
        self.db = opendb(self.back, "w", [n for _, n in self.kinds])
        self.subs = {n: self.db.env.open_db(key=n) for _, n in self.kinds}
        self.gens = {n: GENS[k](rng) for k, n in self.kinds}
        self.models = {n: g.model() for n, g in self.gens.items()}
        self.states = {n: [self.mem(n)] for n in self.subs}   # successive memory contents
        self.flushes = {}
        self.nextid = 0
        self.durmark = {n: None for n in self.subs}

    def mem(self, n):
        return dict(norm(list(self.db.getTopItemIter(db=self.subs[n]))))

    def stored(self, n):
        raw = self.back.durable.get(f"w:{n}", {}).get("__records__")
        return {} if raw in (None, "") else {bytes.fromhex(k): bytes.fromhex(v) for k, v in json.loads(raw).items()}

    def write(self):
        n = self.rng.choice(list(self.subs))
        name, kwa = step(self.ctx, self.db, self.subs[n], self.gens[n], self.models[n], self.rng)
        now = self.mem(n)
        if now != self.states[n][-1]:
            self.states[n].append(now)
            if self.flushes:
                self.ctx.saw("writes_during_sync")
                return "write!"
        return "write"

    def start(self):
        fid = self.nextid
        self.nextid += 1
        f = self.flushes[fid] = dict(coro=self.db.flush(), mark={n: len(s) - 1 for n, s in self.states.items()})
        if len(self.flushes) > 1:
            self.ctx.saw("overlapping_flushes")
        self.ctx.log("flush starts", fid)
        return self.resume(fid, lambda c: c.send(None))

    def resume(self, fid, how):
        f = self.flushes[fid]
        self.back.current = fid
        before = {n: self.mem(n) for n in self.subs}
        try:
            try:
                how(f["coro"])
                return "suspended"
            except StopIteration as ex:
                del self.flushes[fid]
                self.finished(fid, f, ex.value)
                return "done"
            except Boom:
                del self.flushes[fid]
                self.ctx.saw("flush_failed")
                f["failed"] = True
                return "failed"
            except asyncio.CancelledError:
                del self.flushes[fid]
                self.ctx.saw("flush_cancelled")
                return "cancelled"
        finally:
            self.back.current = None
            for n in self.subs:
                if self.mem(n) != before[n]:
                    raise Violation(f"flush changed the in-memory contents of {n}")

    def finished(self, fid, f, count):
        self.ctx.saw("flush_ok")
        syncs = [ns for who, ns in self.back.done if who == fid]
        if count != len(syncs):
            raise Violation(f"flush returned {count} but synced {syncs}")
        if len(set(syncs)) != len(syncs):
            raise Violation(f"one flush synced a store twice: {syncs}")
        for n in self.subs:
            dur = self.stored(n)
            ok = self.states[n][f["mark"][n]:]
            self.ctx.saw("durability_comparisons")
            if dur not in ok:
                raise Violation(f"flush {fid} returned successfully but store {n} durable content {dur!r} lacks writes "
                                f"acknowledged before it; contents then were {ok[0]!r}"[:4000])

    def settle(self):
        """No more faults: let everything finish, flush once, compare, reopen."""
        self.back.gated = False
        self.back.fail.clear()
        for fid in list(self.flushes):
            while fid in self.flushes:
                self.resume(fid, lambda c: c.send(None))
        self.start()
        for n in self.subs:
            same(self.stored(n), self.mem(n), "store %s after final flush", n)
        db = opendb(self.back, "w", list(self.subs))
        for n in self.subs:
            sdb = db.env.open_db(key=n)
            same(dict(norm(list(db.getTopItemIter(db=sdb)))), self.mem(n), "store %s reopened", n)


def schedule(ctx, rng, i):
    w = World(ctx, rng)
    trace, hot = [], False
    w.start()
    w.back.gated = True
    for _ in range(rng.choice([8, 20, 45])):
        c = rng.random()
        if c < 0.45 or (not w.flushes and c < 0.6):
            r = w.write()
            hot = hot or r == "write!"
        elif not w.flushes or (c < 0.55 and len(w.flushes) < 3):
            hot = hot or bool(w.flushes)
            r = "start-" + w.start()
        else:
            fid = rng.choice(list(w.flushes))
            d = rng.random()
            if d < 0.7:
                r = "resume-" + w.resume(fid, lambda c: c.send(None))
            elif d < 0.9:
                w.back.fail.add(fid)
                r = "fail-" + w.resume(fid, lambda c: c.send(None))
                hot = True
            else:
                r = "cancel-" + w.resume(fid, lambda c: c.throw(asyncio.CancelledError()))
                hot = True
        ctx.log(r)
        trace.append(r)
    w.settle()
    ctx.case((i, tuple(trace)), hot)
    if i < 2:
        ctx.sample(trace)


def sequential(ctx, rng, i):
    """One flush at a time: a failed flush is retried; counts name changed stores only."""
    w = World(ctx, rng)
    w.start()
    synced = {n: len(s) - 1 for n, s in w.states.items()}
    same(w.start(), "done", "flush of a clean database")
    same([x for x in w.back.done if x[0] == w.nextid - 1], [], "flush of a clean database synced")
    trace = []
    for _ in range(rng.randint(2, 10)):
        for _ in range(rng.randint(0, 6)):
            w.write()
        kill = rng.random() < 0.4
        if kill:
            w.back.fail.add(w.nextid)
        fid = w.nextid
        r = w.start()
        w.back.fail.discard(fid)
        got = {ns.split(":", 1)[1] for who, ns in w.back.done if who == fid}
        changed = {n for n in w.subs if len(w.states[n]) - 1 > synced[n]}
        for n in got:
            synced[n] = len(w.states[n]) - 1
        if r == "done":
            must(changed <= got, f"flush did not sync changed stores {changed - got}")
        trace.append((r, len(got), len(changed)))
    w.settle()
    same(w.start(), "done", "second flush")
    ctx.case((i, tuple(trace)), True)


CASES = [("schedule", schedule, 8000, 150000), ("sequential", sequential, 2000, 30000)]
