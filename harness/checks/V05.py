"""V05: see catalog.py."""
import copy
import json
import re

import vboot
import blake3
import cesrlib as cl
from vh import must, same

RULE = ("schemas are generated from nested types, limits, enumerations, combinations, conditions and references to own definitions and to other cached schemas; identifiers are recomputed by an independent "
        "digest over the compact form; instances are judged by an independent evaluator of the same keywords; single alterations of the serialized schema are tried; non-trivial if both a valid and an invalid "
        "instance were judged")
REQUIRE = ["made", "read", "spaced", "altered_refused", "altered_harmless", "valid", "invalid", "refs", "outer_refs", "missing_refs", "cached", "wrong_key", "combos", "conditions", "notjson", "badschema",
           "noid", "unicode", "by_validator"]
ASSUME = ["schemas are written in JSON; the keywords generated mean the same in all drafts"]


# ----------------------------------------------------------- independent judge
def typed(t, x):
    return {"object": isinstance(x, dict), "array": isinstance(x, list), "string": isinstance(x, str), "null": x is None, "boolean": isinstance(x, bool),
            "number": isinstance(x, (int, float)) and not isinstance(x, bool),
            "integer": not isinstance(x, bool) and (isinstance(x, int) or isinstance(x, float) and x == int(x))}[t]


def equal(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    return a == b


class Missing(Exception):
    pass


def judge(s, x, root, others):
    """Does x satisfy s?"""
    if s is True or s is False:
        return s
    if "$ref" in s:
        r = s["$ref"]
        if r.startswith("#/definitions/"):
            return judge(root["definitions"][r[14:]], x, root, others)
        key = r.split(":")[-1]
        if key not in others:
            raise Missing()
        return judge(others[key], x, others[key], others)
    ok = []
    if "type" in s:
        ok.append(any(typed(t, x) for t in ([s["type"]] if isinstance(s["type"], str) else s["type"])))
    if "enum" in s:
        ok.append(any(equal(v, x) for v in s["enum"]))
    if "const" in s:
        ok.append(equal(s["const"], x))
    if typed("number", x):
        ok += [x >= s["minimum"]] if "minimum" in s else []
        ok += [x <= s["maximum"]] if "maximum" in s else []
        ok += [x % s["multipleOf"] == 0] if "multipleOf" in s else []
    if isinstance(x, str):
        ok += [len(x) >= s["minLength"]] if "minLength" in s else []
        ok += [len(x) <= s["maxLength"]] if "maxLength" in s else []
        ok += [re.search(s["pattern"], x) is not None] if "pattern" in s else []
    if isinstance(x, list):
        if "items" in s:
            ok += [judge(s["items"], y, root, others) for y in x]
        ok += [len(x) >= s["minItems"]] if "minItems" in s else []
        ok += [len(x) <= s["maxItems"]] if "maxItems" in s else []
        if s.get("uniqueItems"):
            ok.append(not any(equal(x[i], x[j]) for i in range(len(x)) for j in range(i)))
    if isinstance(x, dict):
        props = s.get("properties", {})
        ok += [judge(props[k], v, root, others) for k, v in x.items() if k in props]
        ok += [k in x for k in s.get("required", [])]
        if "additionalProperties" in s:
            ok += [judge(s["additionalProperties"], v, root, others) for k, v in x.items() if k not in props]
    if "allOf" in s:
        ok += [judge(t, x, root, others) for t in s["allOf"]]
    if "anyOf" in s:
        ok.append(any([judge(t, x, root, others) for t in s["anyOf"]]))
    if "oneOf" in s:
        ok.append(sum([judge(t, x, root, others) for t in s["oneOf"]]) == 1)
    if "not" in s:
        ok.append(not judge(s["not"], x, root, others))
    if "if" in s:
        c = judge(s["if"], x, root, others)
        if c and "then" in s:
            ok.append(judge(s["then"], x, root, others))
        if not c and "else" in s:
            ok.append(judge(s["else"], x, root, others))
    return all(ok)


# --------------------------------------------------------------- generation
NAMES = ["a", "b", "d", "i", "u", "name", "dt", "LEI", "é", "\u4e2d", "x y", "$x", 'q"q']


class Gen:
    def __init__(self, rng, ctx, others):
        self.rng, self.ctx, self.others, self.defs = rng, ctx, others, {}

    def value(self, depth=2):
        r = self.rng
        w = r.random()
        if w < 0.25:
            return "".join(r.choice("ab0-é\u4e2d\"\\ ") for _ in range(r.randrange(6)))
        if w < 0.45:
            return r.choice([0, 1, -1, 2, 7, 10, 1.0, 2.5, -0.5, 10 ** 12])
        if w < 0.6:
            return r.choice([True, False, None])
        if depth and w < 0.8:
            return [self.value(depth - 1) for _ in range(r.randrange(4))]
        if depth:
            return {r.choice(NAMES): self.value(depth - 1) for _ in range(r.randrange(4))}
        return ""

    def schema(self, depth=3):
        r = self.rng
        w = r.random()
        if depth and w < 0.35:
            names = r.sample(NAMES, r.randint(1, 4))
            s = dict(type="object", properties={n: self.schema(depth - 1) for n in names})
            if r.random() < 0.6:
                s["required"] = r.sample(names, r.randint(1, len(names)))
            if r.random() < 0.5:
                s["additionalProperties"] = r.choice([False, True, False, self.schema(0)])
            return s
        if depth and w < 0.45:
            s = dict(type="array", items=self.schema(depth - 1))
            if r.random() < 0.3:
                s["minItems"] = r.randint(0, 2)
            if r.random() < 0.3:
                s["maxItems"] = r.randint(1, 3)
            if r.random() < 0.2:
                s["uniqueItems"] = True
            return s
        if depth and w < 0.58:
            self.ctx.saw("combos")
            k = r.choice(["allOf", "anyOf", "oneOf", "not"])
            return {k: self.schema(depth - 1)} if k == "not" else {k: [self.schema(depth - 1) for _ in range(r.randint(1, 3))]}
        if depth and w < 0.63:
            self.ctx.saw("conditions")
            s = {"if": self.schema(depth - 1), "then": self.schema(depth - 1)}
            if r.random() < 0.5:
                s["else"] = self.schema(depth - 1)
            return s
        if w < 0.7 and self.defs is not None:
            if r.random() < 0.5 or not self.others:
                n = f"def{len(self.defs)}"
                keep, self.defs = self.defs, None
                keep[n] = self.schema(min(depth, 1))
                self.defs = keep
                self.ctx.saw("refs")
                return {"$ref": f"#/definitions/{n}"}
            self.ctx.saw("outer_refs")
            return {"$ref": r.choice(["", "did:keri:", "sad:"]) + r.choice(sorted(self.others))} if r.random() < 0.95 else {"$ref": "E" + "A" * 43}
        if w < 0.8:
            return {r.choice(["enum"]): [self.value(1) for _ in range(r.randint(1, 3))]} if r.random() < 0.5 else {"const": self.value(1)}
        s = {}
        t = r.choice(["string", "number", "integer", "boolean", "null", ["string", "null"], ["integer", "object"]])
        if r.random() < 0.9:
            s["type"] = t
        if "string" in t and r.random() < 0.5:
            s[r.choice(["minLength", "maxLength"])] = r.randint(0, 4)
            if r.random() < 0.3:
                s["pattern"] = r.choice(["^a", "b$", "[0-9]", "^[a-z]*$"])
        if t in ("number", "integer") and r.random() < 0.5:
            s[r.choice(["minimum", "maximum"])] = r.choice([0, 1, 2.5, -1])
            if r.random() < 0.2:
                s["multipleOf"] = r.choice([1, 2])
        return s

    def like(self, s, root, depth=6):
        """An instance guided by the schema, often valid."""
        r = self.rng
        if r.random() < 0.06 or depth == 0 or isinstance(s, bool):
            return self.value()
        if "$ref" in s:
            x = s["$ref"]
            if x.startswith("#"):
                return self.like(root["definitions"][x[14:]], root, depth - 1)
            o = self.others.get(x.split(":")[-1])
            return self.like(o, o, depth - 1) if o else self.value()
        for k in ("allOf", "anyOf", "oneOf"):
            if k in s:
                return self.like(r.choice(s[k]), root, depth - 1)
        if "if" in s:
            return self.like(s[r.choice(["if", "then"])], root, depth - 1)
        if "const" in s:
            return copy.deepcopy(s["const"])
        if "enum" in s:
            return copy.deepcopy(r.choice(s["enum"]))
        t = s.get("type", "string")
        t = r.choice(t) if isinstance(t, list) else t
        if t == "object":
            x = {k: self.like(v, root, depth - 1) for k, v in s.get("properties", {}).items() if r.random() < 0.9 or k in s.get("required", []) and r.random() < 0.95}
            if r.random() < 0.15:
                x[r.choice(NAMES)] = self.value(1)
            return x
        if t == "array":
            return [self.like(s.get("items", {}), root, depth - 1) for _ in range(r.randrange(4))]
        if t == "string":
            return "".join(r.choice("ab0é") for _ in range(r.randrange(5)))
        if t in ("number", "integer"):
            return r.choice([0, 1, 2, 3, -1, 4.0, 2.5])
        return r.choice([True, False]) if t == "boolean" else None


def compact(sed):
    return json.dumps(sed, separators=(",", ":"), ensure_ascii=False).encode()


def said(sed):
    return cl.matter("E", "", blake3.blake3(compact({**sed, "$id": "#" * 44})).digest())[0].decode()


def build(rng, ctx, others):
    g = Gen(rng, ctx, others)
    body = g.schema(3 if rng.random() < 0.8 else 1)
    sed = {"$schema": "http://json-schema.org/draft-07/schema#"} if rng.random() < 0.85 else {}
    sed["$id"] = ""
    if rng.random() < 0.5:
        sed["title"] = rng.choice(["Title", "T\u00e4st", "\u4e2d\u6587"])
        ctx.saw("unicode", sed["title"] != "Title")
    if "$ref" in body:              # beside a reference other keywords are ignored in some drafts
        body = dict(allOf=[body])
    sed.update(body)
    if g.defs:
        sed["definitions"] = g.defs
    if rng.random() < 0.3:          # identifier not at its usual place
        items = list(sed.items())
        rng.shuffle(items)
        sed = dict(items)
    return g, sed


def schemas(ctx, rng, i):
    from keri import kering
    from keri.core import scheming
    from keri.db import basing
    db = basing.Baser(name="v05", temp=True, reopen=True)
    try:
        cache = scheming.CacheResolver(db=db)
        others, raws = {}, {}
        verdicts = set()
        for n in range(rng.randint(1, 4)):
            g, sed = build(rng, ctx, others)
            want = said(sed)
            s = scheming.Schemer(sed=copy.deepcopy(sed))
            same(s.said, want, "identifier of a made schema")
            same(s.raw, compact({**sed, "$id": want}), "serialization of a made schema")
            ctx.saw("made")
            full = {**sed, "$id": want}
            raw = compact(full)
            if rng.random() < 0.4:
                raw = json.dumps(full, indent=rng.choice([None, 1, 2]), ensure_ascii=rng.random() < 0.5).encode()
                ctx.saw("spaced")
            s = scheming.Schemer(raw=raw)
            same((s.said, s.sed, s.raw), (want, full, raw), "schema read back")
            ctx.saw("read")
            tamper(ctx, rng, full, raw)
            # cache
            if rng.random() < 0.3:
                wrong = rng.choice(["E" + "B" * 43, want[:-1] + ("A" if want[-1] != "A" else "B"), "", *others])
                cache.add(wrong, raw) if wrong else None
                if wrong and wrong not in others:
                    must(cache.resolve(wrong) is None and db.schema.get(wrong) is None, "schema is cached under another identifier")
                elif wrong:
                    same(cache.resolve(wrong), raws[wrong], "cached schema after adding another under its identifier")
                ctx.saw("wrong_key")
            cache.add(want, raw)
            others[want], raws[want] = full, raw
            for k in others:
                same(bytes(cache.resolve(k)), raws[k], "cached schema")
                same(cache.handler(rng.choice(["", "did:keri:", "sad:x:"]) + k), others[k], "cached schema by its address")
            ctx.saw("cached")
            # instances
            for _ in range(8 if not ctx.thorough else 20):
                x = g.like(full, full) if rng.random() < 0.8 else g.value()
                xraw = json.dumps(x, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1])).encode()
                try:
                    want_ok = judge(full, x, full, others)
                except Missing:
                    ctx.saw("missing_refs")
                    want_ok = None
                typ = scheming.JSONSchema(resolver=cache)
                got = verdict(lambda: typ.verify_json(schema=s.sed, raw=xraw))
                if want_ok is None:
                    # refused unless what is reachable without the missing part already decides, never accepted by it
                    pass
                else:
                    must(got == want_ok, "instance %s is %s against schema %s", xraw.decode()[:300], "accepted" if got else "refused", raw.decode()[:1500])
                    ctx.saw("valid" if got else "invalid")
                    verdicts.add(got)
                if b"$ref" not in raw or b"#/definitions" in raw and not any(k.encode() in raw for k in others if k != want) and b"EAAAA" not in raw:
                    got2 = verdict(lambda: s.verify(raw=xraw))
                    if want_ok is not None:
                        same(got2, want_ok, "verdict of a schema about %s", xraw.decode()[:200])
                    ctx.saw("by_validator")
                same(s.sed, full, "schema after judging an instance")
            bad = rng.choice([b"", b"{", b"{'a':1}", b"\xff\xfe", b'{"a":1'])
            must(not verdict(lambda: s.verify(raw=bad)), "text which is not JSON is judged valid")
            ctx.saw("notjson")
        ctx.case(tuple(others), len(verdicts) == 2)
        ctx.sample(dict(schemas=len(others)))
    finally:
        db.close(clear=True)


def verdict(f):
    from keri import kering
    try:
        r = f()
    except kering.ValidationError:
        return False
    must(r is True, "verdict %r", r)
    return True


def paths(x, at=()):
    yield at, x
    if isinstance(x, dict):
        for k, v in x.items():
            yield from paths(v, at + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from paths(v, at + (k,))


def tamper(ctx, rng, full, raw):
    """Any change of content under the same identifier is refused."""
    from keri import kering
    from keri.core import scheming
    for _ in range(4):
        x = copy.deepcopy(full)
        ps = [p for p, _ in paths(x) if p]
        p = rng.choice(ps)
        o = x
        for k in p[:-1]:
            o = o[k]
        k = p[-1]
        w = rng.random()
        if w < 0.3 and isinstance(o, dict):
            o[k + "x"] = o.pop(k)
        elif w < 0.5:
            if isinstance(o, dict):
                del o[k]
            else:
                o.pop(k)
        elif w < 0.8:
            v = o[k]
            o[k] = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, (int, float)) else v + "a" if isinstance(v, str) else [v] if isinstance(v, list) else {**v, "zz": 1} if isinstance(v, dict) else 0
        else:
            d = rng.choice([o for _, o in paths(x) if isinstance(o, dict)])
            d["comment" + str(rng.randrange(99))] = "x"
        if compact(x) == compact(full):
            continue
        if "$id" in x and x["$id"] != full["$id"] and said({**x, "$id": ""}) == x["$id"]:
            continue
        try:
            scheming.Schemer(raw=compact(x))
        except (kering.KeriError, ValueError, KeyError, TypeError):
            ctx.saw("altered_refused")
        else:
            must(False, "altered schema %s is accepted under its old identifier", compact(x).decode()[:600])
        ctx.saw("noid", "$id" not in x)
    # the order of members is content too
    items = list(full.items())
    rng.shuffle(items)
    if compact(dict(items)) != compact(full):
        try:
            scheming.Schemer(raw=compact(dict(items)))
        except (kering.KeriError, ValueError):
            ctx.saw("altered_refused")
        else:
            must(False, "schema with reordered members is accepted under its old identifier")
    # spaces are not
    b = raw.replace(b"{", b"{ ", 1)
    s = scheming.Schemer(raw=b)
    same(s.sed, full, "schema with a space more")
    ctx.saw("altered_harmless")
    bad = {"$schema": "http://json-schema.org/draft-07/schema#", "$id": "", "type": rng.choice(["objekt", 7, ["string", "string"]])} if rng.random() < 0.5 else \
        {"$schema": "http://json-schema.org/draft-07/schema#", "$id": "", "properties": {"a": {rng.choice(["minLength", "maxItems"]): rng.choice([-1, "x", 1.5])}}}
    bad["$id"] = said(bad)
    for f in (lambda: scheming.Schemer(raw=compact(bad)), lambda: scheming.Schemer(sed=dict(bad))):
        try:
            f()
        except kering.KeriError:
            ctx.saw("badschema")
        else:
            must(False, "improper schema %s is accepted", bad)


CASES = [("schemas", schemas, 400, 12000)]
