"""D07: see catalog.py."""
import weblib
from weblib import Backend, opendb, drive, norm, outcome
from vh import must, same, Violation

RULE = ("storage hands payloads back as text, bytes, memoryview or decoded; seeded multi-session histories over several database names sharing one storage, with prefix-related store "
        "names, duplicate flags, versions, clear-on-open and undeclared names; every store of every open database is "
        "compared with its model after every operation; non-trivial: at least two stores hold data")
ASSUME = ["storage opener gives one independent persistent namespace per name (pyscript.storage)",
          "database names contain no ':' so that name and store name cannot be confused"]
REQUIRE = ["stores_compared", "flag_persisted_checks", "undeclared_refused", "clears", "versions_compared", "sessions"]
NAMES = ["w", "wa", "wallet", "w.", "x", "W", "Wallet", " w", "w ", "w/x", "w_", "\u00e9", "e\u0301", "w" * 300, "w" * 300 + "x"]
STORES = ["a.", "a", "aa.", "a.b.", "b.", "B.", "ab", "__x__", "A.", "a. ", "a:b.", "a/", "\u00e9.", "e\u0301.", "s" * 300 + ".", "s" * 300 + "t."]
ODD = ["", " ", " 1.0 ", "1.0\n", "v\u00e91", "0", "None", "2" * 70, "2.0.0-dev6+build.7"]
KEYS = [b"k", b"k.0", b"a", b"b.", b"__version__", b"\x00"]


class Db:
    """Model of one named database."""

    def __init__(self):
        self.mem = {}      # store -> dict (in memory, while open)
        self.dur = {}      # store -> dict (flushed)
        self.flag = {}     # store -> flag persisted
        self.dirtyflag = {}
        self.ver = None
        self.dver = None
        self.direct = False


def session(ctx, rng, i):
    back = Backend(rng.choice(Backend.FORMS))
    names = rng.sample(NAMES, rng.randint(1, 4))
    models = {n: Db() for n in names}
    live = {}
    trace = []
    busiest = 0

    def openone(n):
        m = models[n]
        decl = rng.sample(STORES, rng.randint(1, 5))
        clear = rng.random() < 0.12
        before = len(back.opened)
        # every existing non-empty store has its metadata, so opening never fails
        arg = [s.encode() if rng.random() < 0.3 else s for s in decl]
        db = opendb(back, n, arg, clear=clear)
        ctx.saw("sessions")
        if len(set(back.opened[before:])) != len(back.opened[before:]):
            raise Violation(f"one storage namespace opened twice: {back.opened[before:]}")
        must(set(decl) <= set(db.stores), "declared stores %s not exposed in %s", decl, db.stores)
        if clear:
            ctx.saw("clears")
            for s in decl:
                m.dur.pop(s, None)
                m.flag.pop(s, None)
            m.dver = None
        m.mem = {s: dict(m.dur.get(s, {})) for s in decl}
        m.ver = m.dver
        m.direct = False
        m.pendflag = dict(m.flag)
        live[n] = (db, decl, {})
        trace.append(("open", n, tuple(decl), clear))
        und = [s for s in STORES if s not in decl] + ["zz", "a.b", ""]
        for s in rng.sample(und, 2):
            r = outcome(db.env.open_db, key=s.encode() if rng.random() < 0.5 else s)
            if r[0] != "exc" or r[1] != "KeyError":
                raise Violation(f"undeclared store {s!r} was not refused: {r!r}")
            ctx.saw("undeclared_refused")
        if rng.random() < 0.8:
            for s in decl:
                sub(n, s)

    def sub(n, s):
        db, decl, subs = live[n]
        m = models[n]
        want = rng.random() < 0.5
        key = s.encode() if rng.random() < 0.5 else s
        h = db.env.open_db(key=key, dupsort=want)
        if s not in m.pendflag:
            m.pendflag[s] = want
            m.touched = True
        if h.flags() != {"dupsort": m.pendflag[s]}:
            raise Violation(f"{n}:{s} opened with dupsort={want} has flags {h.flags()}, expected {m.pendflag[s]}")
        ctx.saw("flag_persisted_checks")
        if s in subs:
            must(subs[s] is h, "store %s has two handles", s)
        subs[s] = h
        return h

    def compare():
        for n, (db, decl, subs) in live.items():
            m = models[n]
            for s in decl:
                h = subs.get(s) or sub(n, s)
                got = norm(list(db.getTopItemIter(h)))
                if got != sorted(m.mem[s].items()):
                    raise Violation(f"{n}:{s} holds {got!r}, expected {sorted(m.mem[s].items())!r}")
                ctx.saw("stores_compared")
            same(db.getVer(), m.ver, "version of %s", n)
            if not m.direct:
                same(db.version, m.ver, "version property of %s", n)
            ctx.saw("versions_compared")

    for n in names:
        openone(n)
    for _ in range(rng.choice([15, 40, 80])):
        n = rng.choice(names)
        m = models[n]
        db, decl, subs = live[n]
        c = rng.random()
        s = rng.choice(decl)
        if c < 0.55:
            h = subs.get(s) or sub(n, s)
            k, v = rng.choice(KEYS), rng.randbytes(rng.choice([0, 3, 3]))
            d = rng.random()
            ctx.log(n, s, "write", k)
            if d < 0.4:
                same(db.setVal(h, k, v), True, "setVal")
                m.mem[s][k] = v
            elif d < 0.7:
                same(db.putVal(h, k, v), k not in m.mem[s], "putVal")
                m.mem[s].setdefault(k, v)
            elif d < 0.9:
                same(db.remVal(h, k), m.mem[s].pop(k, None) is not None, "remVal")
            else:
                same(db.remTop(h, b""), bool(m.mem[s]), "remTop")
                m.mem[s].clear()
            trace.append(("w", n, s))
        elif c < 0.62:
            m.ver = f"{rng.randint(0, 3)}.{rng.randint(0, 9)}.0" if rng.random() < 0.7 else rng.choice(ODD)
            v = m.ver if rng.random() < 0.7 else m.ver.encode()
            ctx.log(n, "version", v)
            if rng.random() < 0.5:
                db.version = v
                m.direct = False
            else:
                db.setVer(v)
                m.direct = True  # the version attribute may still be cached
            trace.append(("v", n, m.ver))
        elif c < 0.8:
            ctx.log(n, "flush")
            for s2 in decl:
                subs.get(s2) or sub(n, s2)
            drive(db.flush())
            for s2 in decl:
                m.dur[s2] = dict(m.mem[s2])
                if s2 in m.pendflag:
                    m.flag[s2] = m.pendflag[s2]
            m.dver = m.ver
            trace.append(("f", n))
        elif c < 0.9:
            ctx.log(n, "reopen")
            if rng.random() < 0.3:
                db.close(clear=False)
            openone(n)
        else:
            sub(n, s)
        compare()
        busiest = max(busiest, sum(1 for mm in models.values() for st in mm.mem.values() if st))
    ctx.case((i, tuple(trace)), busiest >= 2)
    if i < 2:
        ctx.sample([repr(t) for t in trace[:20]])


CASES = [("session", session, 6000, 100000)]
