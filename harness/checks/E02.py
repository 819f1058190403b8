"""E02: see catalog.py."""
import datetime
import io
import json
import re
import shutil
import tempfile

import vboot
import kellib as kl
from vh import must, same

RULE = ("each case drives one real store (mailbox, event stream over a mailbox, notices, contacts with images, signals) through a random history of operations, restarts and alterations of stored records and "
        "compares every answer with a model of ordered logs and dictionaries; non-trivial if several topics, notices, contacts or signals lived side by side")
REQUIRE = ["stored", "read", "from_position", "same_message_again", "appended", "removed", "several_topics", "similar_topics", "restarts", "binary_message", "stream_messages", "stream_resumed", "stream_new", "stream_after_removal",
           "notices", "notices_removed", "marked", "marked_again", "windows", "unknown_notice", "altered_notice", "foreign_signature", "other_outside_window", "given_times", "same_time", "updated_foreign",
           "contact_updated", "contact_replaced", "field_set", "field_unset", "contact_removed", "contact_altered", "contact_found", "exact_found", "values_listed", "dotted_field", "images", "image_replaced",
           "signals", "collapsed", "taken", "expired", "pushed_during_expiry"]
ASSUME = ["messages and texts are not empty; field names are not 'id'", "contacts are kept under identifiers, which are prefix-free"]


def word(rng, n=8):
    return "".join(rng.choice("abcdefghijkLMNOPQ0123456789") for _ in range(rng.randint(1, n)))


def msg(rng):
    body = json.dumps(dict(v="KERI10JSON000000_", t=word(rng), a=[word(rng) for _ in range(rng.randint(0, 4))], u=rng.choice(["é", "", "日本", "x"]))).encode()
    return body + rng.choice([b"", b"-AAB" + word(rng, 40).encode()])


def topics(rng):
    a = kl.Key(rng).qb64
    b = kl.Key(rng).qb64
    out = [a + "/receipt", a + "/replay", b + "/receipt", a + "/receipts", a + "/receipt/x", a + "/receipt-2", word(rng)]
    return rng.sample(out, rng.randint(1, len(out)))


class Dir:
    def __enter__(self):
        self.top = tempfile.mkdtemp(prefix="verif-e02-")
        return self.top

    def __exit__(self, *_):
        shutil.rmtree(self.top, ignore_errors=True)


def mailbox(ctx, rng, i):
    from keri.app.storing import Mailboxer
    with Dir() as top:
        mbx = Mailboxer(name="m", headDirPath=top, reopen=True)
        tps = topics(rng)
        logs = {t: {} for t in tps}
        nxt = {t: 0 for t in tps}
        ctx.saw("several_topics", len(tps) > 1)
        ctx.saw("similar_topics", any(a != b and a.startswith(b) for a in tps for b in tps))
        old = []
        binary = rng.random() < 0.2
        for _ in range(rng.randint(3, 25)):
            t = rng.choice(tps)
            k = rng.random()
            if k < 0.55:
                if old and rng.random() < 0.2:
                    m = rng.choice(old)
                    ctx.saw("same_message_again")
                elif binary and rng.random() < 0.3:
                    m = b"\xa4" + rng.randbytes(rng.randint(1, 50)) + b"\xff"
                    ctx.saw("binary_message")
                else:
                    m = msg(rng)
                old.append(m)
                try:
                    g = m.decode() if rng.random() < 0.3 else bytearray(m) if rng.random() < 0.3 else m
                except UnicodeDecodeError:
                    g = m
                mbx.storeMsg(t if rng.random() < 0.5 else t.encode(), bytes(g) if isinstance(g, bytearray) else g)
                logs[t][nxt[t]] = m
                nxt[t] += 1
                ctx.saw("stored")
            elif k < 0.6 and old:
                m = rng.choice(old)
                must(mbx.appendToTopic(t, kl.digest(m)) == nxt[t], "adding a stored message to a topic gives another position")
                logs[t][nxt[t]] = m
                nxt[t] += 1
                ctx.saw("appended")
            elif k < 0.68 and logs[t]:
                n = rng.choice(list(logs[t]))
                # the position after the last one stays taken only while something follows: remove no last ones
                if n != max(logs[t]):
                    must(mbx.delTopic(t, on=n), "removing a stored message fails")
                    del logs[t][n]
                    ctx.saw("removed")
            elif k < 0.7:
                mbx.close()
                mbx = Mailboxer(name="m", headDirPath=top, reopen=True)
                ctx.saw("restarts")
            else:
                f = rng.choice([0, 0, rng.randint(0, nxt[t] + 2)])
                ctx.saw("from_position", f > 0)
                want = [(n, m) for n, m in sorted(logs[t].items()) if n >= f]
                same([bytes(m) for m in mbx.getTopicMsgs(t if rng.random() < 0.5 else t.encode(), fn=f)], [m for _, m in want], "messages of a topic")
                same([(n, bytes(m)) for n, _, m in mbx.cloneTopicIter(t, f)], want, "messages of a topic with positions")
                ctx.saw("read")
        for t in tps:
            same([bytes(m) for m in mbx.getTopicMsgs(t)], [m for _, m in sorted(logs[t].items())], "messages of a topic at the end")
        same(list(mbx.getTopicMsgs("nosuchtopic")), [], "messages of an unknown topic")
        mbx.close(clear=True)
        ctx.case((tuple(tps), tuple(nxt.values())), len(tps) > 1)


def dotted(ctx, rng, i):
    """A topic named after the records of another one."""
    from keri.app.storing import Mailboxer
    with Dir() as top:
        mbx = Mailboxer(name="m", headDirPath=top, reopen=True)
        a = kl.Key(rng).qb64 + "/receipt"
        b = a + "." + f"{rng.randrange(4):032x}"
        want = {a: [], b: []}
        for t in [b] + [rng.choice([a, b]) for _ in range(6)] + [a, a]:
            m = msg(rng)
            try:
                mbx.storeMsg(t, m)
            except ValueError:
                ctx.known("dotted-topic", "message for topic a is refused once topic a.%s has one" % b[-32:])
            else:
                want[t].append(m)
            for t in want:
                if mbx.getTopicMsgs(t) != want[t]:
                    ctx.known("dotted-topic", "messages of topic a past position %s are not found once topic a.%s has one" % (len(mbx.getTopicMsgs(t)), b[-32:]))
        mbx.close(clear=True)
        ctx.case((a, b), True)


def stream(ctx, rng, i):
    """What one reader of the event stream sees: every message once, in order, also those stored while reading."""
    from keri.app.indirecting import MailboxIterable
    from keri.app.storing import Mailboxer
    with Dir() as top:
        mbx = Mailboxer(name="m", headDirPath=top, reopen=True)
        pre = kl.Key(rng).qb64
        tps = rng.sample(["/receipt", "/replay", "/challenge", "/receipts", "/r"], rng.randint(1, 4))
        logs = {t: [] for t in tps}
        gone = {t: set() for t in tps}

        def put(n):
            for _ in range(n):
                t = rng.choice(tps)
                m = msg(rng)
                mbx.storeMsg(pre + t, m)
                mbx.storeMsg(kl.Key(rng).qb64 + t, msg(rng))
                logs[t].append(m)
        put(rng.randint(0, 8))
        ask = {t: rng.choice([0, 0, rng.randint(0, len(logs[t]))]) for t in tps}
        ctx.saw("stream_resumed", any(ask.values()))
        it = iter(MailboxIterable(mbx=mbx, pre=pre, topics=dict(ask), retry=77))
        got = {t: [] for t in tps}
        for r in range(rng.randint(2, 6)):
            data = bytes(next(it))
            if not r:
                same(data, b"retry: 77\n\n", "start of the stream")
            else:
                for blk in data.decode().split("\n\n"):
                    if blk:
                        m = re.fullmatch(r"id: (\d+)\nevent: (\S+)\nretry: 77\ndata: (.*)", blk, re.S)
                        must(m, "improper block %r in the stream", blk[:80])
                        got[m[2]].append((int(m[1]), m[3].encode()))
                        ctx.saw("stream_messages")
                for t in tps:
                    same(got[t], [(n, m) for n, m in enumerate(logs[t]) if n >= ask[t] and (n not in gone[t] or (n, m) in got[t])], "messages streamed so far")
            n = rng.randint(0, 3)
            put(n)
            ctx.saw("stream_new", r and n)
            if rng.random() < 0.2:
                t = rng.choice(tps)
                if len(logs[t]) > 1:
                    n = rng.randrange(len(logs[t]) - 1)
                    if n not in gone[t]:
                        mbx.delTopic(pre + t, on=n)
                        gone[t].add(n)
                        ctx.saw("stream_after_removal")
        mbx.close(clear=True)
        ctx.case((pre, len(tps)), len(tps) > 1)


class Home:
    """Just what notices and contacts use of a habery: a database and a signator."""

    def __init__(self, top, rng):
        from keri import core
        from keri.app import habbing, configing, keeping
        from keri.db import basing
        self.top, self.temp, self.name = top, True, "h"
        self.ks = keeping.Keeper(name="h", headDirPath=top, reopen=True)
        self.db = basing.Baser(name="h", headDirPath=top, reopen=True)
        self.hby = habbing.Habery(name="h", ks=self.ks, db=self.db, cf=configing.Configer(name="h", temp=True, reopen=True), temp=True, salt=core.Salter(raw=rng.randbytes(16)).qb64)

    def shut(self):
        self.hby.cf.close(clear=True)
        self.ks.close()
        self.db.close()


def notices(ctx, rng, i):
    from keri.app.notifying import Noter, Notice, Notifier, notice
    from keri.core import Cigar
    from keri.kering import ValidationError
    with Dir() as top:
        home = Home(top, rng)
        noter = Noter(name="n", headDirPath=top, reopen=True)
        notifier = Notifier(hby=home.hby, noter=noter)
        model = {}            # rid -> [attrs, read, dt]
        broken = set()

        def order():
            return sorted(model, key=lambda r: (model[r][2], r))

        def see(note, rid):
            same((note.rid, note.attrs, note.read, note.datetime), (rid, *model[rid]), "notice read")
        for _ in range(rng.randint(3, 20)):
            k = rng.random()
            if k < 0.4:
                attrs = dict(r=word(rng), n=rng.randrange(99), t=rng.choice(["é\n\"", "", word(rng)]))
                have = {n.rid for n, _ in noter.getNotes(0, -1)}
                if rng.random() < 0.6:
                    must(notifier.add(attrs), "adding a notice fails")
                else:
                    dt = f"20{rng.randint(10, 99)}-01-0{rng.randint(1, 9)}T00:00:00.00000{rng.randrange(10)}+00:00"
                    if model and rng.random() < 0.3:
                        dt = rng.choice(list(model.values()))[2]
                        ctx.saw("same_time")
                    nt = notice(attrs, dt=dt if rng.random() < 0.7 else datetime.datetime.fromisoformat(dt))
                    if "." not in nt.datetime:
                        nt = notice(attrs, dt=dt)
                    must(noter.add(nt, home.hby.signator.sign(ser=nt.raw)), "adding a notice fails")
                    must(not noter.add(nt, home.hby.signator.sign(ser=nt.raw)), "adding a notice again succeeds")
                    ctx.saw("given_times")
                new = [n for n, _ in noter.getNotes(0, -1) if n.rid not in have]
                same(len(new), 1, "new notices after adding one")
                model[new[0].rid] = [attrs, False, new[0].datetime]
                see(new[0], new[0].rid)
                ctx.saw("notices")
            elif k < 0.5 and model:
                r = rng.choice(list(model))
                must(notifier.rem(r), "removing a notice fails")
                del model[r]
                broken.discard(r)
                ctx.saw("notices_removed")
                must(noter.get(r) is None, "removed notice is still there")
                must(not notifier.rem(r), "removing a notice again succeeds")
            elif k < 0.65 and model:
                r = rng.choice(list(model))
                ok = r not in broken and not model[r][1]
                same(bool(notifier.mar(r)), ok, "marking a notice as read")
                if ok:
                    model[r][1] = True
                    ctx.saw("marked")
                    must(not notifier.mar(r), "marking a notice again succeeds")
                    ctx.saw("marked_again")
            elif k < 0.7:
                must(not notifier.mar("0AXX") and not notifier.rem("0AXX") and noter.get("0AXX") is None, "unknown notice is found")
                nt = notice(dict(r="x"))
                must(not noter.update(nt, home.hby.signator.sign(ser=nt.raw)), "updating an unknown notice succeeds")
                ctx.saw("unknown_notice")
            elif k < 0.76 and model:
                r = rng.choice(list(model))
                if r not in broken:
                    nt, cg = noter.get(r)
                    w = rng.random()
                    if w < 0.5:
                        pad = json.loads(nt.raw)
                        pad["a"] = {**pad["a"], "n": 100} if rng.random() < 0.5 else dict(x="y")
                        if rng.random() < 0.3:
                            pad["a"], pad["r"] = json.loads(nt.raw)["a"], not pad["r"]
                        noter.notes.pin(keys=(nt.datetime, r), val=Notice(raw=json.dumps(pad).encode()))
                        model[r][0], model[r][1] = pad["a"], pad["r"]
                        ctx.saw("altered_notice")
                    elif w < 0.75 and len(model) > 1:
                        o = rng.choice([x for x in model if x != r])
                        must(noter.update(nt, noter.get(o)[1] if o not in broken else Cigar(raw=rng.randbytes(64), code="0B")), "update fails")
                        ctx.saw("updated_foreign")
                    else:
                        key = kl.Key(rng)
                        noter.ncigs.pin(keys=(r,), val=Cigar(raw=key.sign(nt.raw), code="0B"))
                        ctx.saw("foreign_signature")
                    broken.add(r)
            elif k < 0.82:
                noter.close()
                noter = Noter(name="n", headDirPath=top, reopen=True)
                notifier = Notifier(hby=home.hby, noter=noter)
                ctx.saw("restarts")
            else:
                s = rng.choice([0, 0, rng.randint(0, len(model) + 1)])
                e = rng.choice([-1, rng.randint(s, len(model) + 2), s])
                want = order()[s:] if e == -1 else order()[s:e + 1]
                try:
                    got = notifier.getNotes(s, e)
                except ValidationError:
                    must(set(want) & broken, "listing proper notices fails")
                else:
                    must(not set(want) & broken, "altered notice is listed")
                    same([n.rid for n in got], want, "notices listed")
                    for n in got:
                        see(n, n.rid)
                    ctx.saw("other_outside_window", bool(broken))
                same([n.rid for n, _ in noter.getNotes(s, e)], want, "stored notices listed")
                same(notifier.getNoteCnt(), len(model), "number of notices")
                ctx.saw("windows")
        n = len(model)
        noter.close(clear=True)
        home.shut()
        ctx.case((tuple(order()),), n > 1)


def contacts(ctx, rng, i):
    from keri.app.organizing import IdentifierOrganizer, Organizer
    from keri.core import Cigar
    from keri.kering import ValidationError
    with Dir() as top:
        home = Home(top, rng)
        orgs = [Organizer(hby=home.hby), IdentifierOrganizer(hby=home.hby)]
        models = [{}, {}]
        imgs = [{}, {}]
        broken = [set(), set()]
        pres = [kl.Key(rng).qb64 for _ in range(rng.randint(1, 4))]
        fields = ["alias", "first", "last", "company"] + (["a.b", "a", "x.y.z"] if rng.random() < 0.4 else [])
        vals = ["Ann", "ann", "Bob", "Bobby", "Ann Bob", "é", "x.y"]

        def data(n=3):
            return {f: rng.choice(vals) for f in rng.sample(fields, rng.randint(1, n))}
        for _ in range(rng.randint(5, 25)):
            w = rng.randrange(2)
            org, model, img, bad = orgs[w], models[w], imgs[w], broken[w]
            p = rng.choice(pres)
            k = rng.random()
            if p in bad and k < 0.6 and rng.random() < 0.7:
                org.rem(p)
                bad.discard(p)
                model.pop(p, None)
            elif p in bad:
                for f in (lambda: org.get(p), lambda: org.update(p, data()), lambda: org.set(p, "alias", "x")):
                    try:
                        f()
                    except Exception as ex:
                        must(isinstance(ex, ValidationError), "altered contact is refused with %r", ex)
                    else:
                        must(False, "altered contact is used")
            elif k < 0.25:
                d = data()
                org.update(p, dict(d))
                model.setdefault(p, {}).update(d)
                ctx.saw("contact_updated")
                ctx.saw("dotted_field", any("." in f for f in d))
            elif k < 0.35:
                d = data()
                org.replace(p, dict(d))
                model[p] = dict(d)
                ctx.saw("contact_replaced")
            elif k < 0.45:
                f, v = rng.choice(fields), rng.choice(vals)
                org.set(p, f, v)
                model.setdefault(p, {})[f] = v
                ctx.saw("field_set")
            elif k < 0.5 and len(model.get(p, ())) > 1:
                f = rng.choice(list(model[p]))
                org.unset(p, f)
                del model[p][f]
                ctx.saw("field_unset")
            elif k < 0.57:
                org.rem(p)
                model.pop(p, None)
                ctx.saw("contact_removed")
            elif k < 0.62 and p in model:
                raw = org.datadb.get(keys=(p,))
                d = json.loads(raw)
                f = next(iter(model[p]))
                if rng.random() < 0.6:
                    org.datadb.pin(keys=(p,), val=json.dumps({**d, f: "Mallory"}))
                else:
                    org.cigsdb.pin(keys=(p,), val=Cigar(raw=kl.Key(rng).sign(raw.encode()), code="0B"))
                bad.add(p)
                ctx.saw("contact_altered")
            elif k < 0.72:
                typ, body = rng.choice(["image/png", "image/jpeg"]), rng.randbytes(rng.choice([1, 10, 4095, 4096, 4097, 9000]))
                ctx.saw("image_replaced", p in img)
                org.setImg(p, typ, io.BytesIO(body))
                img[p] = (typ, body)
                ctx.saw("images")
            else:
                f, v = rng.choice(fields), rng.choice(["ann", "Bob", "ann bob", "zzz", "A"])
                hit = [q for q in sorted(model) if f in model[q] and v.lower() in model[q][f].lower()]
                if not set(hit) & bad:
                    same(sorted(c["id"] for c in org.find(f, v)), hit, "contacts found")
                    for c in org.find(f, v):
                        same(c, {**model[c["id"]], "id": c["id"]}, "contact found")
                    ctx.saw("contact_found", bool(hit))
                hit = [q for q in sorted(model) if model[q].get(f) == v]
                if not set(hit) & bad:
                    same(sorted(c["id"] for c in org.findExact(f, v)), hit, "contacts found exactly")
                    ctx.saw("exact_found", bool(hit))
                same(sorted(org.values(f)), sorted({m[f] for m in model.values() if f in m}), "values of a field")
                same(sorted(org.values(f, v)), sorted({m[f] for m in model.values() if f in m and v.lower() in m[f].lower()}), "values of a field that match")
                ctx.saw("values_listed")
            for org, model, img, bad in zip(orgs, models, imgs, broken):
                for q in pres:
                    if q in bad:
                        continue
                    got = org.get(q)
                    same(got, {**model[q], "id": q} if q in model else None, "contact")
                    if q in model:
                        f = rng.choice(fields)
                        same(org.get(q, f), model[q].get(f), "field of a contact")
                if not bad:
                    same({c["id"]: c for c in org.list()}, {q: {**m, "id": q} for q, m in model.items()}, "contacts listed")
                for q in pres:
                    same(org.getImgData(q), dict(type=img[q][0], length=len(img[q][1])) if q in img else None, "description of an image")
                    same(b"".join(org.getImg(q)), img[q][1] if q in img else b"", "image")
        home.shut()
        ctx.case((tuple(pres), str(models)), len(pres) > 1)


def signals(ctx, rng, i):
    """Signals stay until taken, replaced by a later one with their collapse key or expired, also while expiry goes on."""
    from keri.app.signaling import Signaler
    from keri.help import helping
    sg = Signaler()
    gen = sg.expireDo(tymth=lambda: 0.0, tock=0.0)
    next(gen)
    model = []               # [topic, attrs, ckey, old]
    for _ in range(rng.randint(5, 40)):
        k = rng.random()
        if k < 0.5:
            old = rng.random() < 0.3
            dt = helping.nowUTC() - datetime.timedelta(minutes=rng.randint(11, 50) if old else rng.randint(0, 8))
            rec = ["/" + word(rng), dict(a=word(rng), n=rng.randrange(9)), rng.choice([None, None, "k1", "k2"]), old]
            sg.push(attrs=dict(rec[1]), topic=rec[0], ckey=rec[2], dt=dt if rng.random() < 0.5 else dt.isoformat())
            hit = [j for j, m in enumerate(model) if rec[2] is not None and m[2] == rec[2]]
            if hit:
                model[hit[0]] = rec
                ctx.saw("collapsed")
            else:
                model.append(rec)
            ctx.saw("signals")
            ctx.saw("pushed_during_expiry")
        elif k < 0.65 and sg.signals:
            s = sg.signals.popleft()
            model = settle(ctx, model, s)
            ctx.saw("taken")
        else:
            for _ in range(rng.randint(1, 4)):
                next(gen)
        # what is there is the model, less expired ones that may already be gone
        have = [(s.topic, s.attrs, s.ckey) for s in sg.signals]
        it = iter(have)
        cur = next(it, None)
        kept = []
        for m in model:
            if cur == (m[0], m[1], m[2]):
                kept.append(m)
                cur = next(it, None)
            else:
                must(m[3], "signal is lost")
                ctx.saw("expired")
        must(cur is None, "signal appears from nowhere or out of order")
        model = kept
    for _ in range(3 * len(model) + 10):
        next(gen)
    same([(s.topic, s.attrs, s.ckey) for s in sg.signals], [(m[0], m[1], m[2]) for m in model if not m[3]], "signals after expiry")
    ctx.case((str(model),), len(model) > 1)


def settle(ctx, model, s):
    """Model after the first signal was taken."""
    for j, m in enumerate(model):
        if (s.topic, s.attrs, s.ckey) == (m[0], m[1], m[2]):
            return model[j + 1:]
        must(m[3], "signal is lost")
    must(False, "signal taken is unknown")


CASES = [("mailbox", mailbox, 200, 4000), ("stream", stream, 200, 4000), ("dotted", dotted, 20, 200), ("notices", notices, 200, 4000), ("contacts", contacts, 250, 4000), ("signals", signals, 300, 6000)]
