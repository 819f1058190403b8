"""V03: see catalog.py."""
import contextlib
import io
import json
import tempfile
from types import SimpleNamespace

import vboot
import cesrlib as cl
import kellib as kl
import msggen as mg
from checks.V01 import Reg, T, Val, dt, kmsg
from vh import must, same

RULE = ("each scene makes issuers, registries, schemas and a graph of credentials with every edge operator, single and several edges, edge schemas, both versions, and hostile ones, then delivers key events, registry "
        "events, schemas and credentials in random order with escrow processing, repetitions, revocations and restarts; non-trivial if at least one credential waited")
REQUIRE = ["creds", "chained", "verified", "waited", "escrow_verified", "op_I2I", "op_NI2I", "op_E1E", "op_none", "op_NOT", "op_DI2I", "op_list", "edge_list", "edge_schema", "edge_schema_fails", "bad_schema", "late_schema",
           "foreign_registry", "issued_elsewhere", "not_issued", "no_anchor", "revoked_far", "revoked_near", "altered", "ops_violated", "missing_far", "no_holder", "final", "restarts", "repeated", "indexes", "clones",
           "v1", "v2", "backed", "exact", "several_edges", "deep", "through_parser"]
ASSUME = ["revoked credentials are recorded too, with their state, as the library intends", "the source triple sent with a credential is unverified and not judged", "escrow time limits are not reached",
          "edge sections are flat: no nested groups, nonces or compact edges"]


class Node(Val):
    def open(self):
        from keri.vdr.verifying import Verifier
        super().open()
        self.hby = SimpleNamespace(db=self.db, kvy=self.kvy, version=None, inited=False, name="v", temp=True)
        self.vry = Verifier(hby=self.hby, reger=self.reger)
        from keri.core.scheming import CacheResolver
        self.vry.resolver = CacheResolver(db=self.db)
        self.vry.tvy = self.tvy
        self.vry.inited = True

    def deliver(self, ctx, rng, c, raw=None):
        """One credential, straight or through a parser; exceptions the library declares are refusals."""
        from keri.core.coring import Number, Prefixer, Saider
        from keri.core.parsing import Parser
        from keri.core.serdering import SerderACDC
        from keri.kering import KeriError, Vrsn_1_0, Vrsn_2_0
        iss = c.iss
        raw = raw or c.raw
        with contextlib.redirect_stdout(io.StringIO()):
            if rng.random() < 0.5:
                ctx.saw("through_parser")
                triple = c.said + "0A" + cl.intb64(iss.sn if iss else 0, 22) + (iss.said if iss else c.said)
                m = bytes(raw) + (b"-IAB" if c.major == 1 else b"-TAX") + triple.encode()
                if c.major == 2:
                    m = bytes(raw) + b"-T" + cl.intb64(len(triple) // 4, 2).encode() + triple.encode()
                Parser(version=Vrsn_1_0 if c.major == 1 else Vrsn_2_0).parse(ims=bytearray(m), kvy=self.kvy, tvy=self.tvy, vry=self.vry, local=False)
            else:
                try:
                    self.vry.processACDC(serder=SerderACDC(raw=bytes(raw)), prefixer=Prefixer(qb64=c.said), seqner=Number(num=0), saider=Saider(qb64=iss.said if iss else c.said))
                except KeriError as ex:
                    ctx.log(type(ex).__name__, str(ex)[:60])

    def settle(self):
        super().settle()
        with contextlib.redirect_stdout(io.StringIO()):
            for _ in range(8):
                self.vry.processEscrows()

    def saved(self):
        return {s.qb64 for _, s in self.reger.saved.getTopItemIter()}


class Cred:
    def __init__(self, sad, raw, major, reg, edges, valid):
        self.sad, self.raw, self.major, self.reg, self.edges, self.valid = sad, raw, major, reg, edges, valid
        self.said = sad["d"]
        self.iss = self.rev = None
        self.holder = sad["a"].get("i") if isinstance(sad["a"], dict) else None
        self.issuer = sad["i"]
        self.regk = sad["ri"] if major == 1 else sad["rd"]


class Schema:
    """Demands the fields of the attributes and bounds of the score."""

    def __init__(self, rng):
        self.low = rng.randint(0, 50)
        self.words = rng.sample(["name", "city", "role", "unit"], rng.randint(0, 2))
        props = {"score": {"type": "integer", "minimum": self.low}}
        props.update({w: {"type": "string"} for w in self.words})
        sed = {"$id": "", "$schema": "http://json-schema.org/draft-07/schema#", "title": "x", "type": "object", "required": ["d", "i", "a"],
               "properties": {"a": {"type": "object", "required": ["score"] + self.words, "properties": props}}}
        blank = dict(sed, **{"$id": "#" * 44})
        sed["$id"] = cl.matter("E", "", mg.DIGS["E"](json.dumps(blank, separators=(",", ":"), ensure_ascii=False).encode()))[0].decode()
        self.raw = json.dumps(sed, separators=(",", ":"), ensure_ascii=False).encode()
        self.said = sed["$id"]

    def ok(self, sad):
        a = sad["a"]
        return isinstance(a.get("score"), int) and a["score"] >= self.low and all(isinstance(a.get(w), str) for w in self.words)

    def attributes(self, rng, ok=True):
        a = {"score": self.low + rng.randint(0, 9)}
        a.update({w: w.upper() for w in self.words if w != "x"})
        a.update({w: "y" for w in ["name", "city"] if rng.random() < 0.3})
        if not ok:
            if self.words and rng.random() < 0.5:
                w = rng.choice(self.words)
                if rng.random() < 0.5:
                    a.pop(w)
                else:
                    a[w] = 7
            else:
                a["score"] = rng.choice([self.low - 1, "9", None, self.low + 0.5])
        return a


class Scene:
    def __init__(self, ctx, rng, bad=True):
        self.ctx, self.rng = ctx, rng
        self.ctls = [kl.Ctl(rng, wits=[], nkeys=1) for _ in range(rng.choice([2, 3, 3]))]
        self.todo = []                        # registry events in the order made
        self.regs = []
        for c in self.ctls[:rng.choice([2, 2, len(self.ctls)])]:
            for _ in range(rng.choice([1, 1, 2])):
                r = Reg(rng, c, rng.random() < 0.25)
                ctx.saw("backed", r.backed)
                self.regs.append(r)
                self.anchor(r.evs[0])
                self.todo.append(r.evs[0])
        self.schemas = {s.said: s for s in (Schema(rng) for _ in range(rng.choice([1, 2, 3])))}
        self.creds = []
        for _ in range(rng.randint(2, 7)):
            self.cred(bad)

    def anchor(self, e, ctl=None):
        e.anchor = (ctl or e.reg.issuer).ixn(a=[e.seal()])
        return e

    def cred(self, bad):
        rng, ctx = self.rng, self.ctx
        reg = rng.choice(self.regs)
        sch = rng.choice(list(self.schemas.values()))
        valid = not bad or rng.random() < 0.88
        major = rng.choice([1, 1, 2])
        ctx.saw(f"v{major}")
        holder = rng.choice([c.pre for c in self.ctls] + [None])
        issuer = reg.issuer.pre
        a = dict(d="", i=holder, dt=dt(rng)) if holder else dict(d="", dt=dt(rng))
        if major == 2 and rng.random() < 0.5 or holder is None:
            ctx.saw("no_holder", holder is None)
        edges = []
        if self.creds and rng.random() < 0.65:
            for far in rng.sample(self.creds, min(len(self.creds), rng.choice([1, 1, 1, 2, 3]))):
                edges.append(self.edge(far))
            # pick issuer and holder so that edges often hold
            want = [f.holder for f, op, s in edges if f and self.kind(op, f)[0] == "I2I"]
            mine = [r for r in self.regs if want and r.issuer.pre == want[0]]
            if mine and rng.random() < 0.85:
                reg = rng.choice(mine)
                issuer = reg.issuer.pre
            one = [f.holder for f, op, s in edges if f and self.kind(op, f)[1]]
            if one and one[0] and rng.random() < 0.8:
                a["i"] = one[0]
            ctx.saw("chained")
            ctx.saw("several_edges", len(edges) > 1)
            ctx.saw("deep", any(f and f.edges for f, _, _ in edges))
        if bad and rng.random() < 0.08:
            edges.append((None, None, None))
            ctx.saw("missing_far")
        a.update(sch.attributes(rng, valid))
        ctx.saw("bad_schema", not valid)
        foreign = None
        if bad:
            k = rng.random()
            others = [c for c in self.ctls if c is not reg.issuer]
            if k < 0.08:
                issuer, foreign = rng.choice(others).pre, "registry"
                ctx.saw("foreign_registry")
            elif k < 0.16 and len(self.regs) > 1:
                foreign = "elsewhere"
                ctx.saw("issued_elsewhere")
            elif k < 0.22:
                foreign = "never"
                ctx.saw("not_issued")
            elif k < 0.27:
                foreign = "unanchored"
                ctx.saw("no_anchor")
        a["d"] = "#" * 44
        a["d"] = cl.matter("E", "", mg.DIGS["E"](mg.SER["JSON"](a)))[0].decode()
        sad = dict(v=mg.vstring("ACDC", major, "JSON", 0), d="", i=issuer)
        sad["ri" if major == 1 else "rd"] = reg.key
        sad.update(s=sch.said, a=a)
        if edges:
            es = {}
            for j, (far, op, s) in enumerate(edges):
                n = dict(n=far.said if far else mg.digest(rng))
                if s:
                    n["s"] = s
                if op is not None:
                    n["o"] = op
                es[f"e{j}"] = n
            if major == 1 and len(es) > 1 and rng.random() < 0.4:
                x = list(es.items())
                sad["e"] = [dict(d=mg.digest(rng), **dict(x[:1])), dict(d=mg.digest(rng), **dict(x[1:]))]
                ctx.saw("edge_list", major == 1)
            else:
                sad["e"] = dict(d="", **es)
                sad["e"]["d"] = "#" * 44
                sad["e"]["d"] = cl.matter("E", "", mg.DIGS["E"](mg.SER["JSON"](sad["e"])))[0].decode()
        code = rng.choice("EEEFGHI")
        if major == 2:                      # identifier of the most compact form
            small, _ = mg.finish({k: x["d"] if isinstance(x, dict) else x for k, x in sad.items()}, "JSON", {"d": code})
            sad["d"] = small["d"]
            sad, raw = mg.finish(sad, "JSON", {})
        else:
            sad, raw = mg.finish(sad, "JSON", {"d": code})
        c = Cred(sad, raw, major, reg, edges, valid)
        ctx.saw("creds")
        if foreign == "elsewhere":
            o = rng.choice([r for r in self.regs if r is not reg])
            c.iss = self.anchor(o.iss(vci=c.said))
            self.todo.append(c.iss)
            c.true = False
        elif foreign == "never":
            c.true = False
        else:
            c.iss = reg.iss(vci=c.said)
            if foreign == "unanchored":
                c.iss.anchor = rng.choice(reg.issuer.branch)
                reg.creds.pop(c.said)
            else:
                self.anchor(c.iss)
            self.todo.append(c.iss)
            c.true = foreign is None
        self.creds.append(c)
        if foreign is None and bad and rng.random() < 0.12:
            c.rev = self.anchor(reg.rev(c.said))
            self.todo.append(c.rev)
        return c

    def edge(self, far):
        rng, ctx = self.rng, self.ctx
        op = rng.choice([None, None, "I2I", "I2I", "NI2I", "NI2I", "E1E", ["I2I", "E1E"], ["NI2I", "E1E"], ["E1E"], ["I2I"], "NOT", "DI2I", "AND", ["I2I", "NI2I"], ["NI2I", "I2I"], []] if rng.random() < 0.5
                        else [None, "I2I", "NI2I"])
        ctx.saw("op_list" if isinstance(op, list) else f"op_{'none' if op is None else op}")
        s = None
        if rng.random() < 0.3:
            s = rng.choice([far.sad["s"], rng.choice(list(self.schemas))])
            ctx.saw("edge_schema")
            ctx.saw("edge_schema_fails", not self.schemas[s].ok(far.sad))
        return far, op, s

    @staticmethod
    def kind(op, far):
        """(relation, same holder) an edge demands."""
        ops = [o for o in (op if isinstance(op, list) else [op]) if o in ("I2I", "NI2I", "DI2I", "E1E", "NOT")]
        if not ops:
            return ("I2I" if far.holder else "NI2I"), False
        rel = [o for o in ops if o in ("I2I", "NI2I", "DI2I")]
        if "NOT" in ops or "DI2I" in rel[-1:]:
            return "unsupported", False
        return (rel[-1] if rel else None), "E1E" in ops

    def acceptable(self, node, c, saved, schemas, strict):
        """Does the rule allow c, given what the node holds."""
        logs = node.logs()
        if c.regk not in logs or c.iss is None or not c.true:
            return False
        if [c.iss.said] != [d for _, d in logs.get(c.said, [])][:1]:
            return False
        if c.sad["s"] not in schemas or not self.schemas[c.sad["s"]].ok(c.sad):
            return False
        for far, op, s in c.edges:
            if far is None or far.said not in saved or far is c:
                return False
            rel, one = self.kind(op, far)
            if rel == "unsupported":
                return False
            if one and (far.holder is None or far.holder != c.holder):
                return False
            if rel == "I2I" and (far.holder is None or far.holder != c.issuer):
                return False
            if strict and len(logs.get(far.said, [])) > 1:
                return False
            if s and s != far.sad["s"] and (s not in schemas or not self.schemas[s].ok(far.sad)):
                return False
        return True


def scenes(ctx, rng, i):
    run(ctx, rng, True)


def honest(ctx, rng, i):
    run(ctx, rng, False)


def run(ctx, rng, bad):
    sc = Scene(ctx, rng, bad)
    creds = {c.said: c for c in sc.creds}
    steps = []

    def at(e=None):
        return rng.random()
    ordered = rng.random()
    for c in sc.ctls:
        for x, ev in zip(sorted(rng.random() for _ in c.branch), c.branch):
            steps.append((0 if ordered < 0.5 else x, "K", ev))
    for j, e in enumerate(sc.todo):
        steps.append((0.2 * j / len(sc.todo) if ordered < 0.3 and e.ilk not in ("rev", "brv") else rng.random(), "T", e))
    for s in sc.schemas.values():
        x = rng.choice([0, rng.random()])
        ctx.saw("late_schema", x > 0.3)
        steps.append((x, "S", s))
    for c in sc.creds:
        for _ in range(rng.choice([1, 1, 2])):
            steps.append((rng.random(), "C", c))
        if rng.random() < 0.2:
            steps.append((rng.random(), "A", c))
    for _ in range(rng.randint(1, 5)):
        steps.append((rng.random() * 1.2, "P", None))
    for _ in range(rng.choice([0, 0, 1])):
        steps.append((rng.random() * 1.2, "R", None))
    steps.sort(key=lambda s: s[0])
    with tempfile.TemporaryDirectory() as top:
        n = Node(top)
        seen = set()
        schemas = set()
        given = set()
        gone = set()                       # refused outright at some time

        def audit():
            now = n.saved()
            must(seen <= now, "verified credential vanished")
            for d in now - seen:
                must(d in creds and d in given, "verified credential was never delivered")
                must(sc.acceptable(n, creds[d], now, schemas, strict=True), "credential verified though it must not be")
                ctx.saw("verified")
            for d in now - seen:
                same(bytes(n.reger.creds.get(keys=d).raw), creds[d].raw, "stored credential")
            seen.update(now)

        def step(op, x):
            ctx.log(op, getattr(x, "said", None))
            before = set(seen)
            if op == "K":
                n.feed(*kmsg(rng, x))
                n.kvy.processEscrows()
            elif op == "T":
                m, g = x.message(rng)
                n.feed(m, g)
            elif op == "S":
                from keri.core.scheming import Schemer
                n.db.schema.pin(x.said, Schemer(raw=x.raw))
                schemas.add(x.said)
            elif op == "C":
                given.add(x.said)
                n.deliver(ctx, rng, x)
                ctx.saw("waited" if x.said not in n.saved() else "exact")
            elif op == "A":
                raw = bytearray(x.raw)
                k = rng.choice([b'"score":', b'"dt":"'])
                p = bytes(raw).find(k) + len(k)
                if p < len(k):
                    return
                raw[p] = ord("2") if raw[p] != ord("2") else ord("3")
                try:
                    n.deliver(ctx, rng, x, raw=bytes(raw))
                except Exception as ex:
                    from keri.kering import KeriError
                    if not isinstance(ex, (KeriError, ValueError)):
                        raise
                same(n.saved(), before, "verified credentials after an altered one")
                ctx.saw("altered")
                return
            elif op == "P":
                n.settle()
                ctx.saw("escrow_verified", len(n.saved()) - len(before))
                now = n.saved()
                late = [d for d in given - now if sc.acceptable(n, creds[d], now, schemas, strict=True)]
                must(not late, "waiting credential not verified though everything is there: %s", late)
            else:
                n.restart()
                ctx.saw("restarts")
            audit()

        for _, op, x in steps:
            step(op, x)
        # all again: whatever the rule allows now must be verified
        for e in [e for c in sc.ctls for e in c.branch]:
            step("K", e)
        for e in sc.todo:
            step("T", e)
        step("P", None)
        for c in rng.sample(sc.creds, len(sc.creds)) if bad else []:
            step("C", c)
            ctx.saw("repeated")
        step("P", None)
        saved = n.saved()
        while True:                      # those refused for good stay out, what rests on them as well
            more = {d for d, c in creds.items() if d not in saved and sc.acceptable(n, c, saved, schemas, strict=True)}
            must(not more, "credential not verified though everything is there: %s", [(d, creds[d].major, creds[d].issuer, creds[d].holder, [(f.said, f.holder, op, s) for f, op, s in creds[d].edges]) for d in more])
            break
        logs = n.logs()
        for c in sc.creds:
            ctx.saw("ops_violated", any(f and sc.kind(op, f)[0] == "I2I" and f.holder != c.issuer for f, op, _ in c.edges))
            if c.rev and len(logs.get(c.said, [])) > 1:
                ctx.saw("revoked_near", c.said in saved)
                ctx.saw("revoked_far", any(f is c for o in sc.creds for f, _, _ in o.edges))
        # indexes
        for db, of in ((n.reger.issus, lambda c: c.issuer), (n.reger.schms, lambda c: c.sad["s"]), (n.reger.subjs, lambda c: c.holder)):
            got = {}
            for keys, s in db.getTopItemIter():
                got.setdefault(keys[0], set()).add(s.qb64)
            want = {}
            for d in saved:
                if of(creds[d]):
                    want.setdefault(of(creds[d]), set()).add(d)
            same(got, want, "index of verified credentials")
            ctx.saw("indexes")
        from keri.core.coring import Saider
        for d in sorted(saved)[:3]:
            c = creds[d]
            if c.major != 1 or isinstance(c.sad.get("e"), list) or any(f.major != 1 or isinstance(f.sad.get("e"), list) for f, _, _ in c.edges):
                continue
            x = n.reger.cloneCreds([Saider(qb64=d)], n.db)[0]
            same((x["sad"], x["iss"]["d"], x["pre"]), (c.sad, c.iss.said, c.issuer), "clone of a credential")
            same(sorted(y["sad"]["d"] for y in x["chains"]), sorted(f.said for f, _, _ in c.edges), "chains of a clone")
            same(x["status"]["et"] in ("rev", "brv"), len(logs[d]) > 1, "status of a clone")
            ctx.saw("clones")
        ctx.saw("final")
        n.close()
    ctx.case((len(creds), len(saved), len(steps)))


CASES = [("scenes", scenes, 200, 3000), ("honest", honest, 100, 1500)]
