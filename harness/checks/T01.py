"""T01: see catalog.py."""
import os
import re
import subprocess
import sys

import toollib as tl
import vh
from vh import Violation, same

RULE = ("seeded manifest and specification text that agree by construction (several formats), then the same with one seeded "
        "drift; exit status and report compared with the known verdict; non-trivial: every case")
ASSUME = ["true and 1 count as equal values, as the documented value equality of the tool does"]
REQUIRE = ["clean_texts", "drift_value", "drift_missing", "drift_extra", "drift_duplicate", "drift_unparsable", "drift_marker", "drift_detached", "drift_language", "bare_examples",
           "reports_name_block", "processes_run", "several_drifts"]
mod = tl.load("check_spec_examples")


def build(rng, blocks, order):
    """Text chunks: list of (name or None, lines)."""
    out = []
    for name in order:
        out.append((None, tl.prose(rng)))
        if rng.random() < 0.2:
            out.append((None, tl.fence(rng, blocks[name])))  # untagged copy is not governed
            out.append((None, ["text"]))
        if rng.random() < 0.2:
            out.append((None, tl.other(rng)))
            out.append((None, ["text"]))
        out.append((name, [tl.marker(rng, name)] + [""] * rng.choice([0, 0, 1, 2]) + tl.fence(rng, blocks[name])))
    out.append((None, tl.prose(rng)))
    return out


def text(rng, chunks):
    eol = "\r\n" if rng.random() < 0.15 else "\n"
    return eol.join(l for _, ls in chunks for l in ls) + eol


def verdict(ctx, manifest, txt, via):
    with tl.files(manifest, txt) as (m, s):
        if via == "process":
            ctx.saw("processes_run")
            r = subprocess.run([sys.executable, "-B", os.path.join(vh.REPO, "tools", "check_spec_examples.py"), "--manifest", m,
                                "--spec", s], capture_output=True, text=True, env=dict(os.environ, PYTHONIOENCODING="utf-8"))
            return r.returncode, r.stdout
        c, o, _ = tl.call(mod, "--manifest", m, "--spec", s)
        return c, o


def case(ctx, rng, i):
    names = rng.sample(tl.NAMES, rng.randint(1, 6))
    if rng.random() < 0.05:
        names += ["ex%d" % k for k in range(rng.choice([20, 60]))]
    blocks = {n: tl.block(rng, n) for n in names}
    if rng.random() < 0.2:
        blocks[names[0]] = [blocks[names[0]], tl.value(rng, 3)]  # a list is a block as well
    if rng.random() < 0.12:  # examples with little or nothing in them
        blocks[names[-1]] = rng.choice(tl.EMPTY)
        ctx.saw("bare_examples")
    order = names[:]
    rng.shuffle(order)
    chunks = build(rng, blocks, order)
    t = text(rng, chunks)
    via = "process" if i % 25 == 0 else "call"
    code, out = verdict(ctx, blocks, t, via)
    if code != 0 or not out.startswith("OK") or str(len(blocks)) not in out:
        raise Violation(f"text in agreement refused with exit {code}: {out}\nmanifest {blocks!r}\ntext:\n{t}")
    ctx.saw("clean_texts")
    # one or several drifts
    man = dict(blocks)
    hits = []
    for name in rng.sample(names, min(len(names), rng.choice([1, 1, 2, 3, 99]))):
        kind = rng.choice(["value", "value", "value", "missing", "extra", "duplicate", "unparsable", "marker", "manifest", "detached", "language"])
        if kind in ("extra", "manifest") and any(k in ("extra", "manifest") for k, _, _ in hits):
            continue
        at = [k for k, (n, _) in enumerate(chunks) if n == name][0]
        what = kind
        who = name
        if kind == "value":
            new, what = tl.drift(rng, blocks[name])
            head = chunks[at][1][0]
            if rng.random() < 0.5:
                chunks[at] = (name, [head] + tl.fence(rng, new))
            else:
                man[name] = new
        elif kind == "missing":
            chunks[at] = (None, chunks[at][1][1:])
        elif kind == "detached":  # the marker stands above something else
            ls = chunks[at][1]
            chunks[at] = (None, ls[:1] + ["", rng.choice(["text", "<!-- text -->", "> ", "<!-- example: -->", "."]), ""] + ls[1:])
        elif kind == "language":
            ls = chunks[at][1]
            k = [k for k, x in enumerate(ls) if x.strip().startswith("```")][0]
            chunks[at] = (None, ls[:k] + [rng.choice(["```", "```yaml", "```json5", "```js", "```python3", "``json", "~~~json"])] + ls[k + 1:])
        elif kind == "marker":  # names something else
            who = name + "x"
            chunks[at] = (None, [tl.marker(rng, who)] + chunks[at][1][1:])
        elif kind == "extra":
            who = "surplus"
            chunks.insert(rng.randint(0, len(chunks)), (None, ["", tl.marker(rng, who)] + tl.fence(rng, {"x": 2}) + [""]))
        elif kind == "duplicate":
            chunks.insert(rng.randint(0, len(chunks)),
                          (None, ["", tl.marker(rng, name)] + tl.fence(rng, blocks[name] if rng.random() < .7 else {"x": 2}) + [""]))
        elif kind == "unparsable":
            bad = rng.choice([["```json", "{'a': 1}", "```"], ["```json", '{"a": 1,}', "```"], ["```python", "{[]: 1}", "```"],
                              ["```python", "{'a': open}", "```"], ["```json", "", "```"], ["```python", "{'a': 1", "```"],
                              ["```json", "{\"a\": 2}{\"a\": 2}", "```"], ["```python", "f()", "```"],
                              ["```python", "{'a': 2, 1: 2, None: 3, 'uid': 0}", "```"]])
            if rng.random() < 0.5:
                chunks[at] = (None, [chunks[at][1][0]] + bad)
            else:  # in addition to the good one
                chunks.insert(rng.randint(0, len(chunks)), (None, ["", tl.marker(rng, name)] + bad + [""]))
        else:
            man["surplus"] = {"x": 2}
            who = "surplus"
        hits.append((kind, what, who))
    ctx.saw("several_drifts", len(hits) > 1)
    t = text(rng, chunks)
    ctx.log(hits)
    code, out = verdict(ctx, man, t, via)
    if code == 0 or code is None or out.startswith("OK"):
        raise Violation(f"drifts {hits} not reported (exit {code}): {out}\nmanifest {man!r}\ntext:\n{t}")
    for kind, what, who in hits:
        if not re.search(rf"(?<![\w-]){re.escape(who)}(?![\w-])", out):
            raise Violation(f"report does not name {who!r} for drift {what}: {out}\nmanifest {man!r}\ntext:\n{t}")
        ctx.saw("drift_" + kind)
        ctx.saw("reports_name_block")
    ctx.case((kind, t, repr(man)))
    if i < 2:
        ctx.sample(dict(drift=str(what), report=out[:400]))


def bad(ctx, rng, i):
    """Unreadable inputs never count as success."""
    good = {"a": {"x": 2}}
    t = "<!-- example: a -->\n```json\n{\"x\": 2}\n```\n"
    raw = ["", "[]", "{", '"a"', "null", "[1]"][i % 6]
    with tl.files(good, t, raw=raw) as (m, s):
        c, o, _ = tl.call(mod, "--manifest", m, "--spec", s)
        if not c:
            raise Violation(f"manifest {raw!r} accepted: {o}")
        c, o, _ = tl.call(mod, "--manifest", m + "x", "--spec", s)
        if not c:
            raise Violation("absent manifest accepted")
    with tl.files(good, t) as (m, s):
        c, o, _ = tl.call(mod, "--manifest", m, "--spec", s + "x")
        if not c:
            raise Violation("absent spec accepted")
        c, o, _ = tl.call(mod, "--manifest", m, "--spec", s)
        same(c, 0, "exit status")
    ctx.saw("unreadable_inputs", 3)
    ctx.case(("bad", raw))


def none(ctx, rng, i):
    """No examples at all."""
    t = "\n".join(tl.prose(rng) + tl.fence(rng, {"x": 2})) + "\n"
    c, o = verdict(ctx, {}, t, "call")
    same(c, 0, "exit status without examples: %s", o)
    c, o = verdict(ctx, {}, t + "\n<!-- example: a -->\n```json\n" + rng.choice(["{}", "[]", "null", '""']) + "\n```\n", "call")
    if not c:
        raise Violation(f"surplus example accepted by an empty manifest: {o}")
    c, o = verdict(ctx, {"a": rng.choice(tl.EMPTY)}, t, "call")
    if not c:
        raise Violation(f"missing bare example accepted: {o}")
    ctx.saw("bare_examples")
    ctx.case(("none", t))


CASES = [("none", none, 60, 300), ("drift", case, 3000, 40000), ("bad", bad, 6, 6)]
