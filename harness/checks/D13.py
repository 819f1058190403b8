"""D13: databases of older layouts are upgraded, undisturbed and dying at storage commits."""
import contextlib
import io
import json
import os
import tempfile
from dataclasses import asdict
import vboot
import lmdb
import kellib as kl
import msggen as mg
from vh import must, same

RULE = ("each case fills a database with accepted logs, registries and local identifiers, rewrites it in the layout of an older version (with stale escrows), upgrades it with the real "
        "migrations, in some cases with the process dying at a storage commit, once or several times, and upgrading again, and compares every identifier, name, key state, key index, registry "
        "and log with what was there; non-trivial if there was something to convert")
REQUIRE = ["upgrades", "crashes", "in_the_middle", "converted", "namespaced", "dotted", "groups", "registries", "current", "again", "escrows_cleared", "layout 0.6.7", "layout 0.6.8", "layout 1.0.0",
           "layout now", "unrecorded", "only_namespaced", "opened"]
ASSUME = ["a transaction is atomic and durable once committed, as lmdb promises"]


class Crash(BaseException):
    pass


@contextlib.contextmanager
def heads(path):
    """Every database of the case lies under path."""
    from keri.db.basing import Baser
    from keri.vdr.eventing import Reger
    for c in (Baser, Reger):
        c.HeadDirPath = path
    try:
        yield
    finally:
        for c in (Baser, Reger):
            del c.HeadDirPath


def opened(name):
    """As the migrate command opens it: (database, whether it refused for being old)."""
    from keri.db.basing import Baser
    from keri.kering import DatabaseError
    db = Baser(name=name, reopen=False)
    try:
        db.reopen()
        return db, False
    except DatabaseError:
        return db, True


def raw(db, sub):
    """Every entry of a table as stored."""
    d = db.env.open_db(sub.encode())
    with db.env.begin(db=d) as t:
        return [(bytes(k), bytes(v)) for k, v in t.cursor()]


def put(db, sub, key, val):
    d = db.env.open_db(sub.encode())
    with db.env.begin(db=d, write=True) as t:
        t.put(key, val)


def dumps(x):
    return json.dumps(x, separators=(",", ":"), ensure_ascii=False).encode()


def version(v):
    return tuple(int(x) for x in v.split("-")[0].split("."))


def upgrade(db):
    with contextlib.redirect_stdout(io.StringIO()) as o:
        db.migrate()
    return o.getvalue()


WORDS = ["a", "b", "main", "my.name", "a.b.c", "x-1", "über", "A", "ab", "two words", "a.", "name^x", "__signatory__"]


def case(ctx, rng, i):
    from keri.core import coring
    from keri.vdr.eventing import Reger
    import keri
    layout = rng.choice(["0.6.7", "0.6.8", "1.0.0", "now"] + ["0.6.7", "0.6.8", "1.0.0"])
    ctx.saw("layout " + layout)
    with tempfile.TemporaryDirectory() as top, heads(top):
        name = "old"
        # accepted logs
        ctls = [kl.Ctl(rng, nkeys=rng.choice([1, 1, 2, 3]), wits=[kl.Key(rng, False) for _ in range(rng.choice([0, 0, 2]))], transferable=rng.random() < 0.9) for _ in range(rng.randint(1, 4))]
        v = kl.Validator(name=name, temp=False)
        s = kl.Story(ctx, rng, ctls, v)
        for c in ctls:
            for _ in range(rng.randint(0, 3)):
                if c.lastest.next:
                    rng.choice([c.ixn, c.rot])()
            for ev in c.branch:
                s.deliver(s.event(ev, ev.signatures(rng), list(range(len(ev.wits)))))
        v.settle()
        db = v.db
        for c in ctls:
            must(v.head(c.pre) == c.last.said, "harness: log of %s was not accepted", c.pre)
        # local identifiers
        want, names = {}, {}
        nss = [None, None, None, "agents", "x"] if layout != "0.6.7" else [None]
        pres = [c.pre for c in ctls] + [mg.digest(rng) for _ in range(rng.choice([0, 0, 1]))]
        if rng.random() < 0.1:
            pres = []
        if layout != "0.6.7" and rng.random() < 0.15:
            nss = ["agents"]
            ctx.saw("only_namespaced", bool(pres))
        for pre in pres:
            group = pre not in {c.pre for c in ctls} or rng.random() < 0.3
            ns = rng.choice(nss)
            for _ in range(99):
                w = rng.choice(WORDS)
                if (ns or "", w) not in names:
                    break
            smids = [c.pre for c in ctls] if group else None
            rmids = (smids if layout == "0.6.7" else smids[:1]) if group else None
            names[(ns or "", w)] = pre
            want[pre] = dict(hid=pre, name=w, domain=ns, mid=ctls[0].pre if group else None, smids=smids, rmids=rmids, sid=None, watchers=[mg.digest(rng)] if rng.random() < 0.3 else [])
            ctx.saw("groups", group)
            ctx.saw("namespaced", ns is not None)
            ctx.saw("dotted", "." in w)
        # registries
        rgy = Reger(name=name, db=db, temp=False)
        regs, creds = {}, {}
        for _ in range(rng.choice([0, 0, 1, 3])):
            ri = mg.digest(rng)
            regs[ri] = dict(i=ri, s=f"{rng.randrange(40):x}", d=mg.digest(rng), ii=rng.choice(ctls).pre, dt="2021-06-01T00:00:00.000000+00:00", et=rng.choice(["vcp", "vrt"]), bt="0", b=[], c=["NB"])
        for ri, r in regs.items():
            put(rgy, "stts.", ri.encode(), dumps(r if layout in ("0.6.7", "0.6.8") else dict(r, vn=[1, 0])))
            ctx.saw("registries")
        for _ in range(rng.choice([0, 1, 2])):
            c, d = mg.digest(rng), mg.digest(rng)
            creds[c] = d
            rgy.saved.pin(keys=c, val=coring.Saider(qb64=c))
            rgy.tels.put(keys=c, on=0, val=d)
            if layout in ("0.6.7", "0.6.8"):
                rgy.cancs.pin(keys=c, val=[coring.Prefixer(qb64=ctls[0].pre), coring.Number(sn=3), coring.Diger(qb64=mg.digest(rng))])
            else:
                rgy.cancs.pin(keys=c, val=[coring.Prefixer(qb64=c), coring.Number(sn=0), coring.Diger(qb64=d)])
        rgy.close()
        # what must not change, and what the upgrade derives
        fixed = {t: raw(db, t) for t in ("evts.", "kels.", "fels.", "sigs.", "wigs.", "dtss.", "aess.", "fons.")}
        states = {k: asdict(r) for k, r in db.states.getTopItemIter()}
        # the older layout
        if layout == "now":
            for pre, r in want.items():
                put(db, "habs.", pre.encode(), dumps(r))
                put(db, "names.", f"{r['domain'] or ''}^{r['name']}".encode(), pre.encode())
        else:
            for pre, r in want.items():
                if layout == "0.6.7":
                    put(db, "habs.", r["name"].encode(), dumps(dict(prefix=pre, pid=r["mid"], aids=r["smids"], watchers=r["watchers"])))
                else:
                    o = {k: r[k] for k in ("hid", "mid", "smids", "rmids", "sid", "watchers")}
                    if r["domain"] is None:
                        put(db, "habs.", r["name"].encode(), dumps(o))
                    else:
                        put(db, "nmsp.", f"{r['domain']}.{r['name']}".encode(), dumps(o))
        old = layout in ("0.6.7", "0.6.8")
        if old:
            for (pre,), r in list(states.items()):
                sad = {k: x for k, x in r.items() if k != "vn"}
                put(db, "stts.", pre.encode(), dumps(sad))
        stale = rng.random() < 0.5
        if stale and layout != "now":
            put(db, "qnfs.", f"{ctls[0].pre}.{ctls[0].last.said}".encode(), b"z")       # before insertion ordinals
            db.misfits.add(keys=(ctls[0].pre, "00"), val=ctls[0].last.said)
            db.gpse.trim()
        recorded = rng.random() < 0.7
        done = {"0.6.7": [], "0.6.8": ["hab_data_rename"], "1.0.0": ["hab_data_rename", "add_key_and_reg_state_schemas"],
                "now": ["hab_data_rename", "add_key_and_reg_state_schemas", "rekey_habs"]}[layout]
        if recorded:
            for m in done:
                db.migs.pin(keys=(m,), val=coring.Dater())
        ctx.saw("unrecorded", not recorded)
        ver = {"0.6.7": [None, "0.6.7"], "0.6.8": [None, "0.6.8", "0.9.1"], "1.0.0": ["1.0.0", "1.1.7", "1.2.0-dev4"][:2], "now": ["1.2.0", "1.2.4", "2.0.0-dev3", keri.__version__]}[layout]
        ver = rng.choice(ver)
        if ver is None:
            with db.env.begin(write=True) as t:
                t.delete(b"__version__")
        else:
            db.version = ver
        db.close()
        due = {m for m, at in (("hab_data_rename", (0, 6, 8)), ("add_key_and_reg_state_schemas", (1, 0, 0)), ("rekey_habs", (1, 2, 0))) if ver is None or version(ver) < at}
        convert = bool(want) and layout != "now" or old
        ctx.log("layout", layout, "version", ver, "recorded", recorded, "names", sorted(names))

        # upgrade, dying now and then
        crashes = 0
        for attempt in range(6):
            db, refused = opened(name)
            if attempt == 0 and layout != "now":
                must(refused, "a database of layout %s, version %s opened without upgrade", layout, ver)
            if refused and rng.random() < 0.55 and attempt < 5:
                seen, k = [0], rng.choice([rng.randrange(60), rng.randrange(12), rng.randrange(30)])

                def die(env, seq, changes):
                    if seen[0] == k:
                        raise Crash()
                    seen[0] += 1
                lmdb.hooks.on_commit = die
                try:
                    upgrade(db)
                    died = False
                except Crash:
                    died = True
                    crashes += 1
                finally:
                    lmdb.hooks.on_commit = None
                ctx.saw("crashes", died)
                if died:
                    ctx.log("died at commit", k)
                    db.close()
                    continue
            else:
                ctx.log("upgrade", "told:", upgrade(db)[-200:])
            break
        ctx.saw("upgrades")
        ctx.saw("in_the_middle", bool(crashes and convert))

        def meaning(r):
            return {x: y or "" if x == "di" else y for x, y in r.items() if x != "vn" or not old}

        def judge(db, when):
            got = {k[0] if len(k) == 1 else ".".join(k): asdict(r) for k, r in db.habs.getTopItemIter()}
            same(got, want, "local identifiers %s", when)
            same({(k[0], "^".join(k[1:])): p for k, p in db.names.getTopItemIter()}, names, "names %s", when)
            for n, t in fixed.items():
                same(raw(db, n), t, "%s %s", n, when)
            now = {k: asdict(r) for k, r in db.states.getTopItemIter()}
            for r in now.values():
                must(tuple(r["vn"]) in ((1, 0), (2, 0)), "version of key state is %s", r["vn"])
            same({k: meaning(r) for k, r in now.items()}, {k: meaning(r) for k, r in states.items()}, "key states %s", when)
            must(db.current, "database is not current %s", when)
            same(db.version, keri.__version__, "version %s", when)
            migs = {m for (m,), _ in db.migs.getTopItemIter()}
            must(migs >= due, "recorded migrations %s: %s", when, migs)
            r = Reger(name=name, db=db, temp=False)
            same({k[0]: {x: y for x, y in asdict(q).items() if x != "vn"} for k, q in r.states.getTopItemIter()}, regs, "registries %s", when)
            for c, d in creds.items():
                same([x.qb64 if not hasattr(x, "sn") else x.sn for x in r.cancs.get(keys=c)], [c, 0, d], "anchor of credential %s", when)
            r.close()
        judge(db, "after the upgrade")
        ctx.saw("current")
        if stale and layout != "now":
            for e in ("qnfs.", "mfes.", "gpse."):
                same(raw(db, e), [], "escrow %s after the upgrade", e)
            ctx.saw("escrows_cleared")
        ctx.saw("converted", convert)
        db.close()
        db, refused = opened(name)
        must(not refused, "upgraded database refused to open")
        single = {p for p, r in want.items() if r["mid"] is None}
        same(set(db.prefixes), set(want), "own identifiers after opening")
        same(set(db.groups), set(want) - single, "own groups after opening")
        for c in ctls:
            same(db.kevers[c.pre].serder.said, c.last.said, "key state in force of %s", c.pre)
        ctx.saw("opened")
        if rng.random() < 0.4:
            upgrade(db)
            judge(db, "after upgrading again")
            ctx.saw("again")
        same({m for m, _ in db.complete()} >= {"rekey_habs"}, True, "complete lists every migration")
        for m, when in db.complete():
            if when is not None:
                same([(x, d.dts) for x, d in db.complete(name=m)], [(m, when.dts)], "completion of %s", m)
        db.close()
        ctx.case((layout, ver, tuple(sorted(names)), crashes, len(ctls), ctls[0].pre), convert)


CASES = [("upgrade", case, 800, 12000)]
