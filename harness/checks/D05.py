"""D05: see catalog.py."""
import json

import weblib
from weblib import Backend, GENS, opendb, step, drive, norm
from vh import must, same, Violation

RULE = ("storage hands payloads back as text, bytes, memoryview or decoded; seeded multi-session histories mixing every mutating call over four kinds of store, version changes, "
        "flushes and crashes; plus, for every mutating call alone, clean state / one call / flush / reopen; plus stores of many sizes, long values and keys and many stores; "
        "non-trivial: at least one flush followed by a reopen that was compared")
ASSUME = ["a completed sync makes the handle's current payload durable (pyscript.storage contract)"]
REQUIRE = ["sizes_entries", "sizes_value", "sizes_key", "sizes_stores", "reopens_compared", "flush_after_single_change", "crashes_with_unflushed_changes"]
KINDS = [("plain", "p."), ("on", "o."), ("io", "i."), ("onio", "oi.")]


def snap(db):
    """Everything visible: contents of each store, version, flags."""
    out = {"version": db.getVer()}
    for _, n in KINDS:
        sdb = db.env.open_db(key=n)
        out[n] = norm(list(db.getTopItemIter(db=sdb)))
        out[n + "cnt"] = db.cntAll(sdb)
        out[n + "flags"] = dict(sdb.flags())
    return out


def persisted(back, ns):
    raw = back.durable.get(ns, {}).get("__records__")
    return {} if raw in (None, "") else {bytes.fromhex(k): bytes.fromhex(v) for k, v in json.loads(raw).items()}


class Session:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.back = Backend(rng.choice(Backend.FORMS))
        self.gens = {n: GENS[k](rng) for k, n in KINDS}
        self.models = {n: g.model() for n, g in self.gens.items()}
        self.flags = {n: rng.random() < 0.3 for _, n in KINDS}
        self.version = None
        self.open()
        drive(self.db.flush())
        self.kept = self.remember()

    def open(self):
        self.db = opendb(self.back, "w", [n for _, n in KINDS])
        self.subs = {n: self.db.env.open_db(key=n, dupsort=self.flags[n]) for _, n in KINDS}

    def remember(self):
        import copy
        return copy.deepcopy(self.models), self.version, snap(self.db)

    def change(self, want=None):
        """One operation (repeat until it is `want` when given)."""
        rng = self.rng
        n = rng.choice(KINDS)[1]
        if rng.random() < 0.05:
            self.version = f"{rng.randint(0, 9)}.{rng.randint(0, 9)}.{rng.randint(0, 99)}"
            if rng.random() < 0.5:
                self.db.version = self.version
            else:
                self.db.setVer(self.version)
            self.ctx.log("setVer", self.version)
            return "setVer"
        name, _ = step(self.ctx, self.db, self.subs[n], self.gens[n], self.models[n], rng)
        return name

    def flush(self):
        self.ctx.log("flush")
        drive(self.db.flush())
        self.kept = self.remember()
        for k, n in KINDS:  # raw durable payload is exactly the memory contents
            sdb = self.subs[n]
            mem = dict(norm(list(self.db.getTopItemIter(db=sdb))))
            if persisted(self.back, f"w:{n}") != mem:
                raise Violation(f"after flush the persisted payload of store {n} differs from memory: "
                                f"{persisted(self.back, f'w:{n}')!r} vs {mem!r}"[:4000])
            self.ctx.saw("payload_comparisons")

    def reopen(self):
        self.ctx.log("reopen")
        models, version, want = self.kept
        if snap(self.db) != want:
            self.ctx.saw("crashes_with_unflushed_changes")
        self.open()
        got = snap(self.db)
        if got != want:
            diff = {k: (got[k], want[k]) for k in want if got[k] != want[k]}
            raise Violation(f"reopened contents differ from those at the last flush: (got, expected) {diff!r}"[:5000])
        import copy
        self.models, self.version = copy.deepcopy(models), version
        for k, n in KINDS:
            g = self.gens[n]
            same(g.full(self.db, self.subs[n]), g.want(self.models[n]), "store %s after reopen", n)
        same(self.db.getVer(), self.version, "version after reopen")
        same(self.db.version, self.version, "version property after reopen")
        self.ctx.saw("reopens_compared")


def mixed(ctx, rng, i):
    s = Session(ctx, rng)
    trace = []
    for _ in range(rng.choice([10, 30, 80])):
        c = rng.random()
        if c < 0.6:
            trace.append(s.change())
        elif c < 0.85:
            s.flush()
            trace.append("flush")
            if rng.random() < 0.6:  # exactly one change between two flushes
                trace.append(s.change())
                s.flush()
                s.reopen()
                ctx.saw("flush_after_single_change")
        else:
            s.reopen()
            trace.append("crash")
    s.flush()
    s.reopen()
    ctx.case(tuple(trace) + (i,), True)
    if i < 2:
        ctx.sample(trace[:25])


def single(ctx, rng, i):
    """Prepared state, then one particular kind of mutating call, flush, reopen."""
    kind, n = KINDS[i % 4]
    s = Session(ctx, rng)
    for _ in range(rng.randint(0, 15)):
        s.change()
    s.flush()
    name = None
    for _ in range(40):
        name, _k = step(ctx, s.db, s.subs[n], s.gens[n], s.models[n], rng)
        if name in weblib.MUTATING:
            break
    s.flush()
    s.reopen()
    ctx.saw("flush_after_single_change")
    ctx.saw("single_" + name)
    ctx.case((kind, name, i), name in weblib.MUTATING)


def sizes(ctx, rng, i):
    """Many entries, long values, long keys or many stores; flushed, changed a little, flushed, reopened."""
    n, _ = weblib.sizing(i * 2, 700)
    shape = ("entries", "value", "key", "stores")[i % 4]
    names = ["s%d." % k for k in range(n % 70 + 1)] if shape == "stores" else ["s0."]
    back = Backend(rng.choice(Backend.FORMS))
    db = opendb(back, "w", names)
    subs = {k: db.env.open_db(key=k, dupsort=rng.random() < 0.3) for k in names}
    want = {k: {} for k in names}

    def put(name, key, val):
        same(db.setVal(subs[name], key, val), True, "overwrite")
        want[name][key] = val

    def check(when):
        drive(db.flush())
        again = opendb(back, "w", names)
        for k in names:
            sdb = again.env.open_db(key=k, dupsort=rng.random() < 0.5)
            same(sdb.flags(), subs[k].flags(), "flags of %s", k)
            got = dict(norm(list(again.getTopItemIter(sdb))))
            if got != want[k]:
                off = [(x, got.get(x), want[k].get(x)) for x in sorted(set(got) | set(want[k])) if got.get(x) != want[k].get(x)][:2]
                raise Violation(f"{when} with {n} ({shape}) {k} reopens with {len(got)} entries, expected {len(want[k])}: {off!r}"[:3000])
            same([x for x, _ in norm(list(again.getTopItemIter(sdb)))], sorted(want[k]), "order after reopening")

    if shape == "entries":
        for j in range(n):
            put("s0.", b"k.%x" % (j * 2654435761 % 2 ** 32), b"v%d" % j)
    elif shape == "value":
        for size in {n, n * 97, 2 ** (i // 4 % 22) + rng.choice([-1, 0, 1])}:
            put("s0.", b"k%d" % size, rng.randbytes(size))
    elif shape == "key":
        for size in (n % 600 + 1, n * 3 + 1):
            put("s0.", bytes([rng.choice([0, 46, 107, 255])]) * size, b"v")
    else:
        for k in names:
            put(k, b"name", k.encode())
    check("first flush")
    k = rng.choice(names)
    for key in rng.sample(sorted(want[k]), min(len(want[k]), 2)):
        same(db.remVal(subs[k], key), True, "removal")
        del want[k][key]
    put(names[-1], b"more", b"v")
    check("second flush")
    ctx.saw("sizes_" + shape)
    ctx.case((shape, n))


CASES = [("mixed", mixed, 3000, 60000), ("single", single, 6000, 100000), ("sizes", sizes, 740, 3000)]
