"""V01: see catalog.py."""
import contextlib
import io
import json
import shutil
import tempfile

import vboot
import cesrlib as cl
import kellib as kl
import msggen as mg
from vh import Violation, must, same

RULE = ("each case builds issuers, registries with and without backers and their issuance and revocation histories from scratch, delivers events, anchors and hostile variants in random orders, with restarts, to a real "
        "validator, audits the stored registry logs after every delivery and compares the final state with the model; non-trivial if a credential was revoked or a registry had backers")
REQUIRE = ["registries", "backed", "backerless", "issued", "revoked", "rotated", "rotated_baks", "anchored_by_rot", "escrowed_anchor", "escrowed_order", "restarts", "audited", "final", "hostile", "clones", "cloned", "states",
           "second_revocation", "foreign_revocation", "unanchored", "mis_sealed", "wrong_couple", "altered", "few_backers", "twice_same_backer", "false_backers", "bad_rotation", "wrong_sort", "unaccepted_backers",
           "bad_inception", "bad_number", "registry_as_credential", "protected", "queries", "several_registries", "conflicts", "other_digests", "no_couple", "several_seals", "not_current_position", "repeated"]
ASSUME = ["an anchoring event carries one seal only, as the library demands", "source couples are unsigned: deliveries with a false couple may delay an event until it is delivered again",
          "endorsements come with the event; partial ones are not accumulated", "key events that seal registry events are not superseded", "registry events are JSON"]


class T:
    """One registry or credential event with what it needs."""

    def __init__(self, reg, sad, raw, baks=(), toad=0):
        self.reg, self.sad, self.raw, self.baks, self.toad = reg, sad, raw, list(baks), toad
        self.said, self.pre, self.sn, self.ilk = sad["d"], sad["i"], int(sad["s"], 16), sad["t"]
        self.anchor = None

    def seal(self, **over):
        return dict(i=self.pre, s=self.sad["s"], d=self.said, **over)

    def wigs(self, rng, which=None):
        n = len(self.baks)
        if which is None:
            which = rng.sample(range(n), rng.randint(self.toad, n)) if n else []
        return [kl.isig(rng.choice("AB"), j, None, self.baks[j].sign(self.raw)) for j in which]

    def message(self, rng, wigs=None, source=None):
        return kl.message(rng, self.raw, major=1, wigs=self.wigs(rng) if wigs is None else wigs, source=source or (self.anchor.sn, self.anchor.said))


def dt(rng):
    return f"20{rng.randint(10, 40)}-01-0{rng.randint(1, 9)}T00:00:00.{rng.randrange(10 ** 6):06d}+00:00"


class Reg:
    kind = "JSON"

    def __init__(self, rng, issuer, backed, kind="JSON", **over):
        self.kind = kind
        self.rng, self.issuer, self.backed = rng, issuer, backed
        self.code = "E"
        self.baks = [kl.Key(rng, False) for _ in range(rng.randint(1, 4) if backed else 0)]
        self.toad = rng.randint(1, len(self.baks)) if self.baks else 0
        sad = dict(v=mg.vstring("KERI", 1, "JSON", 0), t="vcp", d="", i="", ii=issuer.pre, s="0", c=[] if backed else ["NB"], bt=f"{self.toad:x}", b=[b.qb64 for b in self.baks], n=mg.digest(rng))
        sad.update(over)
        code = rng.choice("EEEFGHI")
        self.code = code
        sad["v"] = mg.vstring("KERI", 1, kind, 0)
        sad, raw = mg.finish(sad, kind, {"d": code, "i": code})
        self.key = sad["i"]
        self.evs = [T(self, sad, raw, self.baks, self.toad)]
        self.states = [(self.baks, self.toad)]
        self.creds = {}

    def make(self, sad, baks=(), toad=0):
        sad["v"] = mg.vstring("KERI", 1, self.kind, 0)
        sad, raw = mg.finish(sad, self.kind, {"d": self.rng.choice("EEEFGHI")})
        return T(self, sad, raw, baks, toad)

    def vrt(self, push=True, **over):
        rng = self.rng
        cuts = rng.sample(self.baks, rng.randint(0, len(self.baks)))
        adds = [kl.Key(rng, False) for _ in range(rng.randint(0 if len(cuts) < len(self.baks) else 1, 2))]
        baks = [b for b in self.baks if b not in cuts] + adds
        toad = rng.randint(1, len(baks))
        sad = dict(v=mg.vstring("KERI", 1, "JSON", 0), t="vrt", d="", i=self.key, p=self.evs[-1].said, s=f"{len(self.evs):x}", bt=f"{toad:x}", br=[b.qb64 for b in cuts], ba=[b.qb64 for b in adds])
        sad.update(over)
        e = self.make(sad, baks, toad)
        if push:
            self.evs.append(e)
            self.baks, self.toad = baks, toad
            self.states.append((baks, toad))
        return e

    def ra(self, at=None):
        e = self.evs[-1 if at is None else at]
        return dict(i=self.key, s=e.sad["s"], d=e.said)

    def iss(self, vci=None, push=True, **over):
        vci = vci or mg.digest(self.rng)
        if self.backed:
            sad = dict(v=mg.vstring("KERI", 1, "JSON", 0), t="bis", d="", i=vci, ii=self.key, s="0", ra=self.ra(), dt=dt(self.rng))
        else:
            sad = dict(v=mg.vstring("KERI", 1, "JSON", 0), t="iss", d="", i=vci, s="0", ri=self.key, dt=dt(self.rng))
        sad.update(over)
        e = self.make(sad, self.baks, self.toad)
        if push:
            self.creds[vci] = [e]
        return e

    def rev(self, vci, push=True, **over):
        p = self.creds[vci][-1].said if vci in self.creds else mg.digest(self.rng)
        if self.backed:
            sad = dict(v=mg.vstring("KERI", 1, "JSON", 0), t="brv", d="", i=vci, s="1", p=p, ra=self.ra(), dt=dt(self.rng))
        else:
            sad = dict(v=mg.vstring("KERI", 1, "JSON", 0), t="rev", d="", i=vci, s="1", ri=self.key, p=p, dt=dt(self.rng))
        sad.update(over)
        e = self.make(sad, self.baks, self.toad)
        if push:
            self.creds[vci].append(e)
        return e


class Val:
    """A validator of key events and registry events."""

    def __init__(self, top):
        self.top = top
        self.open()

    def open(self):
        from keri.core.eventing import Kevery
        from keri.db.basing import Baser
        from keri.vdr.eventing import Reger, Tevery
        self.db = Baser(name="v", headDirPath=self.top, reopen=True)
        self.db.reload()
        self.reger = Reger(name="v", headDirPath=self.top, reopen=True, db=self.db)
        self.kvy = Kevery(db=self.db, lax=False, local=False)
        self.tvy = Tevery(reger=self.reger, db=self.db, local=False, lax=False)

    def restart(self):
        self.close()
        self.open()

    def close(self):
        self.reger.close()
        self.db.close()

    def feed(self, data, gm=1):
        from keri.core.parsing import Parser
        from keri.kering import Vrsn_1_0, Vrsn_2_0
        with contextlib.redirect_stdout(io.StringIO()):       # the library prints backers
            Parser(version=Vrsn_1_0 if gm == 1 else Vrsn_2_0).parse(ims=bytearray(data), kvy=self.kvy, tvy=self.tvy, local=False)

    def settle(self):
        last = None
        for _ in range(10):
            self.kvy.processEscrows()
            with contextlib.redirect_stdout(io.StringIO()):
                self.tvy.processEscrows()
            now = tuple(sorted((p, k.sn) for p, k in self.db.kevers.items())), self.reger.tels.cntAll() if hasattr(self.reger.tels, "cntAll") else 0, self.reger.taes.cntAll(), self.reger.oots.cntAll()
            if now == last:
                return
            last = now

    def logs(self):
        out = {}
        for keys, sn, said in self.reger.tels.getAllItemIter():
            out.setdefault(keys[0], []).append((sn, said))
        return out


def audit(ctx, val, issuers):
    """Everything stored as accepted is sealed, chained and endorsed; issuance once, revocation once and after."""
    logs = val.logs()
    evs = {}
    for pre, log in logs.items():
        same([sn for sn, _ in log], list(range(len(log))), "positions in the log of %s" % pre)
        for sn, said in log:
            raw = val.reger.tvts.get(keys=(pre, said))
            must(raw is not None, "event in log is not stored")
            raw = raw.encode() if hasattr(raw, "encode") else bytes(raw)
            sad = json.loads(raw)
            own = dict(sad)
            labels = {"d": said[0], "i": said[0]} if sad["t"] == "vcp" else {"d": said[0]}
            same(mg.finish(own, "JSON", labels)[0], sad, "content and identifier of an event in the log")
            same((sad["i"], int(sad["s"], 16), sad["d"]), (pre, sn, said), "place of an event in the log")
            evs[said] = (sad, raw)
    for pre, log in logs.items():
        sads = [evs[d][0] for _, d in log]
        ilks = [s["t"] for s in sads]
        if ilks[0] == "vcp":
            must(all(t == "vrt" for t in ilks[1:]), "registry log holds %s", ilks)
        else:
            must(ilks in (["iss"], ["bis"], ["iss", "rev"], ["bis", "brv"]), "credential log holds %s", ilks)
        baks = None
        for j, s in enumerate(sads):
            if j:
                same(s["p"], sads[j - 1]["d"], "prior event")
            t = s["t"]
            rk = pre if t in ("vcp", "vrt") else s["ri"] if t in ("iss", "rev") else s["ra"]["i"]
            if j and t in ("rev", "brv"):
                same(rk, sads[0]["ri"] if "ri" in sads[0] else sads[0]["ra"]["i"], "registry of a revocation and of its issuance")
            must(rk in logs, "event of a registry that is not accepted")
            inc = evs[logs[rk][0][1]][0]
            same(inc["t"], "vcp", "registry inception")
            nb = "NB" in inc["c"]
            must(t in (("vcp", "iss", "rev") if nb else ("vcp", "vrt", "bis", "brv")), "event %s in a registry with%s backers", t, "out" if nb else "")
            # backers that apply
            if t in ("vcp", "vrt"):
                if t == "vcp":
                    baks = list(s["b"])
                else:
                    must(len(set(s["br"])) == len(s["br"]) and set(s["br"]) <= set(baks) and len(set(s["ba"])) == len(s["ba"]) and not set(s["ba"]) & set(baks), "improper rotation of backers")
                    baks = [b for b in baks if b not in s["br"]] + s["ba"]
                toad, use = int(s["bt"], 16), baks
                must(len(set(use)) == len(use) and (1 <= toad <= len(use) if use else toad == 0), "improper threshold %s of %s backers", toad, len(use))
            elif t in ("bis", "brv"):
                at = [k for k, (_, d) in enumerate(logs[rk]) if d == s["ra"]["d"]]
                must(at, "backers taken from a registry event that is not accepted")
                use = list(inc["b"])
                for k in range(1, at[0] + 1):
                    r = evs[logs[rk][k][1]][0]
                    use = [b for b in use if b not in r["br"]] + r["ba"]
                toad = int(evs[s["ra"]["d"]][0]["bt"], 16)
            else:
                toad, use = 0, []
            raw = evs[s["d"]][1]
            good = set()
            for sg in val.reger.tibs.get(keys=(pre, s["d"])):
                sig = sg.raw
                for k, b in enumerate(use):
                    if sg.index == k and kl.verifies(b, sig, raw):
                        good.add(b)
            must(len(good) >= toad, "accepted with %d of %d endorsements", len(good), toad)
            # seal
            couple = val.reger.ancs.get(keys=(pre, s["d"]))
            must(couple is not None, "no anchor stored")
            asn, asaid = couple[0].sn if hasattr(couple[0], "sn") else couple[0].num, couple[1].qb64
            kd = [bytes(d).decode() if not isinstance(d, str) else d for d in val.db.kels.get(keys=inc["ii"], on=asn)]
            must(asaid in kd, "stored anchor %s is no accepted event of the issuer", asaid)
            a = issuers[asaid]
            must(a.pre == inc["ii"] and a.sn == asn, "anchor of another controller")
            must(any((x.get("i"), x.get("s"), x.get("d")) == (s["i"], s["s"], s["d"]) for x in a.sad["a"]), "stored anchor does not seal the event")
            ctx.saw("audited")


class Scene:
    """Issuers, their registries and histories."""

    def __init__(self, ctx, rng, quiet=False):
        self.ctx, self.rng = ctx, rng
        self.issuers = [kl.Ctl(rng, wits=[], kind=rng.choice(["JSON", "JSON", "CBOR"]), nkeys=1) for _ in range(rng.choice([1, 2]))]
        for c in self.issuers:
            c.evs = []
        self.regs = []
        self.todo = []                                    # genuine registry events in order of making
        for c in self.issuers:
            for _ in range(rng.choice([1, 1, 2])):
                r = Reg(rng, c, rng.random() < 0.5)
                self.regs.append(r)
                self.tell(r.evs[0])
                ctx.saw("registries")
                ctx.saw("backed" if r.backed else "backerless")
        ctx.saw("several_registries", len(self.regs) > 1)
        for _ in range(rng.randint(1, 7)):
            r = rng.choice(self.regs)
            k = rng.random()
            live = [v for v, es in r.creds.items() if len(es) == 1]
            if r.backed and k < 0.3:
                before = r.baks
                self.tell(r.vrt())
                ctx.saw("rotated")
                ctx.saw("rotated_baks", before != r.baks)
            elif live and k < 0.65:
                self.tell(r.rev(rng.choice(live)))
                ctx.saw("revoked")
            else:
                self.tell(r.iss())
                ctx.saw("issued")
            if rng.random() < 0.2:
                r.issuer.ixn()

    def anchor(self, e, ctl=None, seal=None):
        ctl = ctl or e.reg.issuer
        a = [seal or e.seal()]
        if self.rng.random() < 0.2:
            e.anchor = ctl.rot(a=a, rotwits=0)
            self.ctx.saw("anchored_by_rot")
        else:
            e.anchor = ctl.ixn(a=a)
        return e

    def tell(self, e):
        self.anchor(e)
        self.ctx.saw("other_digests", e.said[0] != "E")
        self.todo.append(e)

    def truth(self):
        out = {}
        for e in self.todo:
            out.setdefault(e.pre, []).append(e.said)
        return out

    def events(self):
        return {e.said: e for c in self.issuers for e in c.events}


def kmsg(rng, e):
    return kl.message(rng, e.raw, major=e.major, sigs=e.signatures(rng))


def hostile(ctx, rng, sc, couples=True):
    """Hostile deliveries: (message, key events that must be known first or [])."""
    out = []
    issued = [(r, v) for r in sc.regs for v in r.creds]
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(["second", "foreign", "unanchored", "seal", "couple", "altered", "few", "sort", "rotation", "unaccepted", "inception", "number", "asreg", "nocouple", "several", "replace"])
        r = rng.choice(sc.regs)
        e, m = None, None
        if k == "second":
            done = [(q, v) for q, v in issued if len(q.creds[v]) == 2]
            if done:
                r, v = rng.choice(done)
                e = sc.anchor(r.rev(v, push=False, s="2", p=r.creds[v][-1].said))
                ctx.saw("second_revocation")
        elif k == "foreign" and issued and len(sc.regs) > 1:
            q, v = rng.choice(issued)
            others = [x for x in sc.regs if x is not q]
            r = rng.choice(others)
            if rng.random() < 0.7:
                same_sort = [x for x in others if x.backed == q.backed]
                r = rng.choice(same_sort or others)
            e = sc.anchor(r.rev(v, push=False, p=q.creds[v][0].said))
            ctx.saw("foreign_revocation")
        elif k == "unanchored":
            live = [v for q, v in issued if q is r]
            e = rng.choice([lambda: r.iss(push=False), lambda: r.rev(rng.choice(live), push=False) if live else r.iss(push=False), lambda: r.vrt(push=False) if r.backed else r.iss(push=False),
                            lambda: Reg(rng, r.issuer, r.backed).evs[0]])()
            e.anchor = rng.choice(rng.choice(sc.issuers).branch)
            ctx.saw("unanchored")
        elif k == "seal":
            e = rng.choice([lambda: r.iss(push=False), lambda: r.vrt(push=False) if r.backed else r.iss(push=False), lambda: Reg(rng, r.issuer, r.backed).evs[0]])()
            s = e.seal()
            s.update(rng.choice([dict(i=mg.digest(rng)), dict(s=f"{e.sn + 1:x}"), dict(d=mg.digest(rng))]))
            ctl = r.issuer
            if rng.random() < 0.3 and len(sc.issuers) > 1:
                ctl, s = [c for c in sc.issuers if c is not r.issuer][0], e.seal()
            sc.anchor(e, ctl=ctl, seal=s)
            ctx.saw("mis_sealed")
        elif k == "couple" and couples:
            e = rng.choice(sc.todo)
            ctl = rng.choice(sc.issuers)
            a = rng.choice(ctl.branch)
            if a is not e.anchor:
                m = e.message(rng, source=rng.choice([(a.sn, a.said), (e.anchor.sn, a.said), (a.sn, e.anchor.said), (e.anchor.sn + 40, e.anchor.said)]))
                if a.sn == e.anchor.sn and a.pre == e.anchor.pre:
                    m = None
                ctx.saw("wrong_couple")
            e = None
        elif k == "altered":
            e = rng.choice(sc.todo)
            sad = dict(e.sad)
            f = rng.choice([x for x in sad if x not in ("v", "t", "d") and isinstance(sad[x], str)])
            sad[f] = {"s": f"{e.sn + 1:x}"}.get(f, mg.digest(rng) if f in ("i", "ii", "ri", "p", "n") else "1" if f == "bt" else dt(rng))
            raw = mg.SER["JSON"](sad)
            if raw != e.raw and len(raw) == len(e.raw):
                m = kl.message(rng, raw, major=1, wigs=e.wigs(rng), source=(e.anchor.sn, e.anchor.said))
                ctx.saw("altered")
            e = None
        elif k == "few" and r.backed:
            live = [v for q, v in issued if q is r and len(r.creds[v]) == 1]
            e = rng.choice([lambda: r.iss(push=False), lambda: Reg(rng, r.issuer, True).evs[0]])()
            sc.anchor(e)
            n, t = len(e.baks), e.toad
            w = rng.random()
            if w < 0.3:
                wigs = e.wigs(rng, rng.sample(range(n), t - 1))
                ctx.saw("few_backers")
            elif w < (0.8 if t > 1 else 0.3):
                which = rng.sample(range(n), t - 1)
                wigs = e.wigs(rng, which)
                for j in which:
                    wigs += [kl.isig(c, j, o, e.baks[j].sign(e.raw)) for c, o in (("A", None), ("B", None), ("2A", j), ("2A", j + 1), ("2B", None))]
                    ctx.saw("twice_same_backer")
            else:
                wigs = e.wigs(rng, rng.sample(range(n), t - 1))
                bad = kl.Key(rng, False)
                j = rng.randrange(n)
                wigs.append(kl.isig("A", j, None, bad.sign(e.raw)))
                wigs.append(kl.isig("A", n + 1, None, bad.sign(e.raw)))
                wigs.append(kl.isig("A", j, None, e.baks[j].sign(e.raw + b" ")))
                ctx.saw("false_backers")
            m = e.message(rng, wigs=wigs)
            e = None
        elif k == "sort":
            o = Reg(rng, r.issuer, not r.backed)
            o.key, o.evs = r.key, r.evs
            e = sc.anchor(o.iss(push=False) if rng.random() < 0.7 or r.backed else r_vrt(r))
            ctx.saw("wrong_sort")
        elif k == "rotation" and r.backed:
            b = [x.qb64 for x in r.baks]
            n = kl.Key(rng, False).qb64
            over = rng.choice([dict(p=mg.digest(rng)), dict(br=[n]), dict(br=[], ba=[b[0]]), dict(br=[b[0]], ba=[b[0]]), dict(br=[b[0], b[0]]), dict(br=[], ba=[n, n], bt="1"), dict(br=[], ba=[n], bt=f"{len(b) + 2:x}"),
                               dict(br=[], ba=[n], bt="0"), dict(br=b, ba=[], bt="1")])
            e = r.vrt(push=False, **over)
            keep = [x for x in r.baks if x.qb64 not in e.sad["br"]]
            e.baks, e.toad = keep, 0
            sc.anchor(e)
            m = e.message(rng, wigs=e.wigs(rng, range(len(keep))))
            e = None
            ctx.saw("bad_rotation")
        elif k == "unaccepted" and r.backed:
            x = r.vrt(push=False, s=f"{len(r.evs) + rng.choice([0, 0, 3]):x}", bt="1")
            if rng.random() < 0.3:
                x = r.evs[-1]
                i = r.iss(push=False, ra=dict(i=r.key, s="0", d=mg.digest(rng)))
            else:
                i = r.iss(push=False, ra=dict(i=r.key, s=x.sad["s"], d=x.said))
                x.anchor = r.issuer.branch[0]
                out.append(x.message(rng, wigs=[]))
            sc.anchor(i)
            i.baks, i.toad = x.baks, 0
            m = i.message(rng, wigs=[] if rng.random() < 0.6 else i.wigs(rng, range(len(x.baks))))
            ctx.saw("unaccepted_backers")
        elif k == "inception":
            b = [kl.Key(rng, False).qb64 for _ in range(2)]
            over = rng.choice([dict(b=b, bt="0", c=[]), dict(b=b, bt="3", c=[]), dict(b=[b[0], b[0]], bt="1", c=[]), dict(b=[], bt="1", c=[]), dict(s="1")])
            o = Reg(rng, r.issuer, False, **over)
            e = o.evs[0]
            if rng.random() < 0.3:
                sad = dict(e.sad, s="0", b=[], bt="0", c=["NB"], i=rng.choice([mg.digest(rng), kl.Key(rng).qb64, r.key]))
                sad, raw = mg.finish(sad, "JSON", {"d": "E"})
                e = T(o, sad, raw)
            sc.anchor(e)
            ctx.saw("bad_inception")
        elif k == "number":
            e = sc.anchor(r.iss(push=False, s="1")) if rng.random() < 0.5 or not issued else None
            if not e:
                r, v = rng.choice(issued)
                e = sc.anchor(r.rev(v, push=False, s=rng.choice(["0", "3"])))
            ctx.saw("bad_number")
        elif k == "asreg":
            o = rng.choice(sc.regs)
            e = sc.anchor(o.rev(r.key, push=False, s=f"{len(r.evs):x}", p=r.evs[-1].said))
            ctx.saw("registry_as_credential")
        elif k == "nocouple":
            e = rng.choice([lambda: r.iss(push=False), lambda: r.vrt(push=False) if r.backed else r.iss(push=False)])()
            m = kl.message(rng, e.raw, major=1, wigs=e.wigs(rng))
            e = None
            ctx.saw("no_couple")
        elif k == "several":
            ctl = r.issuer
            e = r.iss(push=False)
            a = ctl.ixn(a=[dict(i=mg.digest(rng), s="0", d=mg.digest(rng))] * 2)
            e.anchor = a
            ctx.saw("several_seals")
        elif k == "replace" and issued:
            # issuance with other content at a position already taken, not anchored
            q, v = rng.choice(issued)
            e = q.iss(vci=v, push=False)
            e.anchor = q.creds[v][0].anchor
            ctx.saw("not_current_position")
        if m is None and e is not None:
            m = e.message(rng)
        if m:
            out.append(m)
    for _ in out:
        ctx.saw("hostile")
    return out


def r_vrt(r):
    o = r.baks, r.toad
    r.baks = [kl.Key(r.rng, False)]
    e = r.vrt(push=False, br=[])
    r.baks, r.toad = o
    return e


def deliver(ctx, rng, val, sc, msgs, restarts=0.05, settles=0.3):
    evs = sc.events()
    for m in msgs:
        data, gm = m
        n = val.reger.taes.cntAll(), val.reger.oots.cntAll()
        try:
            val.feed(data, gm)
        except Exception as ex:
            raise Violation("delivery ends in %r" % ex)
        ctx.saw("escrowed_anchor", val.reger.taes.cntAll() > n[0])
        ctx.saw("escrowed_order", val.reger.oots.cntAll() > n[1])
        if rng.random() < settles:
            val.settle()
        if rng.random() < restarts:
            val.restart()
            ctx.saw("restarts")
        audit(ctx, val, evs)


def compare(ctx, val, sc, what):
    want = {p: list(enumerate(l)) for p, l in sc.truth().items()}
    got = val.logs()
    for p in set(want) | set(got):
        same(got.get(p), want.get(p), what + " (log of %s)" % p)
    for r in sc.regs:
        must(r.key in val.reger.tevers, "registry has no state")
        t = val.reger.tevers[r.key]
        same((t.sn, t.serder.said, list(t.baks), t.toad, t.noBackers, t.pre), (len(r.evs) - 1, r.evs[-1].said, [b.qb64 for b in r.baks], r.toad, not r.backed, r.issuer.pre), "state of a registry")
        st = t.state()
        same((st.i, st.s, st.d, st.ii, st.et, st.bt, list(st.b)), (r.key, f"{len(r.evs) - 1:x}", r.evs[-1].said, r.issuer.pre, r.evs[-1].ilk, f"{r.toad:x}", [b.qb64 for b in r.baks]), "state notice of a registry")
        for v, es in r.creds.items():
            s = t.vcState(v)
            e = es[-1]
            same((s.i, s.s, s.d, s.ri, s.et, s.dt, s.a, s.ra), (v, f"{len(es) - 1:x}", e.said, r.key, e.ilk, e.sad["dt"], dict(s=e.anchor.sn, d=e.anchor.said), e.sad.get("ra", {})), "state of a credential")
            same(t.vcSn(v), len(es) - 1, "position of a credential")
            ctx.saw("states")
        must(t.vcState(mg.digest(sc.rng)) is None, "unknown credential has a state")
    ctx.saw("final")


def play(ctx, rng, i, poison=False):
    top = tempfile.mkdtemp(prefix="verif-v01-")
    try:
        sc = Scene(ctx, rng)
        bad = hostile(ctx, rng, sc, couples=poison) if poison or rng.random() < 0.6 else []
        val = Val(top)
        good = [kmsg(rng, e) for c in sc.issuers for e in c.branch] + [e.message(rng) for e in sc.todo]
        if rng.random() < 0.3:
            good += [e.message(rng) for e in rng.sample(sc.todo, len(sc.todo) // 2)]
            ctx.saw("repeated")
        msgs = good + bad
        k = rng.random()
        if k < 0.7:
            rng.shuffle(msgs)
        elif k < 0.8:
            msgs.reverse()
        deliver(ctx, rng, val, sc, msgs)
        val.settle()
        audit(ctx, val, sc.events())
        if poison:
            deliver(ctx, rng, val, sc, [e.message(rng) for e in sc.todo])
            val.settle()
        compare(ctx, val, sc, "accepted events after all deliveries")
        # what one validator passes on, another accepts alike
        if rng.random() < 0.4:
            ctx.saw("clones")
            v2 = Val(top + "/2")
            try:
                for c in sc.issuers:
                    for e in c.branch:
                        v2.feed(*kmsg(rng, e))
                pres = sorted(sc.truth(), key=lambda p: (p not in [r.key for r in sc.regs], p))
                gv = rng.choice([1, 2])
                from keri.kering import Vrsn_1_0, Vrsn_2_0
                for p in pres:
                    for m in val.reger.clonePreIter(p, gvrsn=Vrsn_1_0 if gv == 1 else Vrsn_2_0):
                        v2.feed(bytes(m), gv)
                        ctx.saw("cloned")
                v2.settle()
                compare(ctx, v2, sc, "accepted events after passing on")
            finally:
                v2.close()
        if rng.random() < 0.3:
            val.restart()
            compare(ctx, val, sc, "accepted events after restart")
        queries(ctx, rng, val, sc)
        # events of registries of one's own are not taken from elsewhere
        r = rng.choice(sc.regs)
        val.reger.registries.add(r.key)
        e = sc.anchor(r.iss(push=False))
        val.feed(*kmsg(rng, e.anchor)) if e.anchor is r.issuer.last else None
        for x in r.issuer.branch:
            val.feed(*kmsg(rng, x))
        val.feed(*e.message(rng))
        val.settle()
        must(e.pre not in val.logs(), "event of a local registry accepted from elsewhere")
        ctx.saw("protected")
        val.close()
        ctx.case((tuple(sc.truth()),), any(r.backed for r in sc.regs) or any(len(es) > 1 for r in sc.regs for es in r.creds.values()))
    finally:
        shutil.rmtree(top, ignore_errors=True)


def queries(ctx, rng, val, sc):
    """Answers to queries for logs and states."""
    from keri.core.serdering import SerderKERI
    r = rng.choice(sc.regs)
    v = rng.choice(list(r.creds) + [""])
    src = kl.Key(rng).qb64

    def ask(route):
        sad, raw = mg.finish(dict(v=mg.vstring("KERI", 1, "JSON", 0), t="qry", d="", dt=dt(rng), r=route, rr="", q=dict(i=v, ri=r.key, src=src)), "JSON", {"d": "E"})
        val.tvy.cues.clear()
        from keri.core.coring import Prefixer
        val.tvy.processQuery(SerderKERI(raw=raw), source=Prefixer(qb64=src))
        return list(val.tvy.cues)
    cues = ask("tels")
    same([c["kin"] for c in cues], ["replay"], "answer to a query for logs")
    want = [e.raw for e in r.evs] + [e.raw for e in r.creds.get(v, [])]
    same([bytes(m)[:len(w)] for m, w in zip(cues[0]["msgs"], want)], want, "events in an answer")
    same((len(cues[0]["msgs"]), cues[0]["src"], cues[0]["dest"]), (len(want), src, src), "answer to a query for logs")
    cues = ask("tsn")
    same([c["route"] for c in cues], ["/tsn/registry"] + (["/tsn/credential"] if v else []), "answers to a query for states")
    same(cues[0]["data"]["d"], r.evs[-1].said, "answered state of a registry")
    if v:
        same(cues[1]["data"]["d"], r.creds[v][-1].said, "answered state of a credential")
    ctx.saw("queries")


def orders(ctx, rng, i):
    play(ctx, rng, i)


def poisoned(ctx, rng, i):
    play(ctx, rng, i, poison=True)


def conflicts(ctx, rng, i):
    """An issuer that anchors competing events: only the audit judges."""
    top = tempfile.mkdtemp(prefix="verif-v01-")
    try:
        sc = Scene(ctx, rng)
        more = []
        for _ in range(rng.randint(1, 4)):
            r = rng.choice(sc.regs)
            k = rng.random()
            if r.creds and k < 0.4:
                more.append(sc.anchor(r.iss(vci=rng.choice(list(r.creds)), push=False)))
            elif r.creds and k < 0.7:
                more.append(sc.anchor(r.rev(rng.choice(list(r.creds)), push=False, p=r.creds[rng.choice(list(r.creds))][0].said)))
            elif r.backed:
                more.append(sc.anchor(r.vrt(push=False)))
        if more:
            ctx.saw("conflicts")
        msgs = [kmsg(rng, e) for c in sc.issuers for e in c.branch] + [e.message(rng) for e in sc.todo + more] + hostile(ctx, rng, sc)
        rng.shuffle(msgs)
        val = Val(top)
        deliver(ctx, rng, val, sc, msgs)
        val.settle()
        audit(ctx, val, sc.events())
        val.close()
        ctx.case((tuple(sc.truth()), len(more)), bool(more))
    finally:
        shutil.rmtree(top, ignore_errors=True)


def kinds(ctx, rng, i):
    """A registry whose events are not JSON."""
    top = tempfile.mkdtemp(prefix="verif-v01-")
    try:
        c = kl.Ctl(rng, wits=[], nkeys=1)
        r = Reg(rng, c, False, kind=rng.choice(["CBOR", "MGPK"]))
        sc = Scene.__new__(Scene)
        sc.ctx, sc.rng, sc.issuers, sc.regs, sc.todo = ctx, rng, [c], [r], []
        sc.tell(r.evs[0])
        e = r.iss()
        sc.tell(e)
        sc.tell(r.rev(e.pre))
        val = Val(top)
        try:
            for m in [kmsg(rng, x) for x in c.branch] + [x.message(rng) for x in sc.todo]:
                val.feed(*m)
            val.settle()
            compare(ctx, val, sc, "accepted events")
        except (UnicodeDecodeError, Violation) as ex:
            ctx.known("not-json", "registry events in %s: %r" % (r.kind, ex))
        val.close()
        ctx.case((r.key,), True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def squat(ctx, rng, i):
    """Another issuer issues a credential of the same identifier in its own registry first."""
    top = tempfile.mkdtemp(prefix="verif-v01-")
    try:
        a, b = kl.Ctl(rng, wits=[], nkeys=1), kl.Ctl(rng, wits=[], nkeys=1)
        ra, rb = Reg(rng, a, False), Reg(rng, b, False)
        sc = Scene.__new__(Scene)
        sc.ctx, sc.rng, sc.issuers, sc.regs, sc.todo = ctx, rng, [a, b], [ra, rb], []
        e = ra.iss()
        for x in (ra.evs[0], rb.evs[0], e, ra.rev(e.pre)):
            sc.tell(x)
        o = sc.anchor(rb.iss(vci=e.pre, push=False))
        val = Val(top)
        for m in [kmsg(rng, x) for c in (a, b) for x in c.branch] + [x.message(rng) for x in [ra.evs[0], rb.evs[0], o] + sc.todo[2:]]:
            val.feed(*m)
        val.settle()
        audit(ctx, val, sc.events())
        got = [d for _, d in val.logs().get(e.pre, [])]
        if got != [x.said for x in ra.creds[e.pre]]:
            ctx.known("taken-identifier", "issuance and revocation are refused once another issuer's registry issued the same identifier: log is %s" % got)
        val.close()
        ctx.case((e.pre,), True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


CASES = [("orders", orders, 300, 2500), ("poisoned", poisoned, 150, 1200), ("conflicts", conflicts, 120, 1000), ("kinds", kinds, 6, 60), ("squat", squat, 6, 60)]
