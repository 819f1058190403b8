"""Generated manifests and specification texts for the spec example tools."""
import contextlib
import importlib.util
import io
import json
import math
import os
import tempfile
import unicodedata

import vh

NAMES = ["accreditationCompact", "accreditationSchema", "a", "A", "b1", "report_private", "x.y", "bulk-issue", "Näme",
         "two words", "two  words", "tab\tname", "x-", "a--b", "a2", "ab", "zzz", "É", "e" * 90]
STRS = ["", "a", "A", "é", "\u2028", "日本", "it's", 'q"q', "back\\slash", "line\nbreak", "tab\t", "```", "  ```json", "<!-- example: a -->",
        "EAAA", "0", "1", "true", "null", "None", "{", "#x", "x" * 80]
KEYS = ["v", "d", "i", "s", "a", "A", "dt", "é", "it's", "", "x y", "1", "$id", "type", "0"]


def load(name):
    path = os.path.join(vh.REPO, "tools", name + ".py")
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def value(rng, depth):
    c = rng.random()
    if depth <= 0 or c < 0.5:
        if c < 0.04:
            return "".join(rng.choice("abAB01 -_.é\n") for _ in range(rng.choice([44, 88, 300, 3000])))
        return rng.choice([rng.choice(STRS), rng.choice(STRS), rng.randint(2, 99), -7, 2 ** 53, 2 ** 70, 3.25, 1e-9, 0.1 + 0.2, 1e22, True, False, None])
    if c < 0.53 and depth > 1:  # long
        n = rng.choice([17, 40, 70, 150, 300])
        return [rng.choice([k, str(k), {"k": k + 2}]) for k in range(2, n)] if rng.random() < 0.6 else {"k%d" % k: k for k in range(2, n)}
    if c < 0.75:
        return {rng.choice(KEYS): value(rng, depth - 1) for _ in range(rng.randint(0, 4))}
    return [value(rng, depth - 1) for _ in range(rng.randint(0, 4))]


def block(rng, tag):
    d = {k: value(rng, rng.choice([1, 2, 3, 6])) for k in rng.sample(KEYS, rng.randint(1, 6))}
    d["uid"] = tag
    if rng.random() < 0.1:  # deep
        x = d
        for _ in range(rng.randint(10, 40)):
            x["deep"] = x = {"k": rng.randint(2, 9), "l": [{}]} if rng.random() < 0.8 else {"k": "z"}
    return d


EMPTY = [{}, {}, [], None, "", "x", 7, 0.5, [[]], {"x": {}}, {"": []}]


def sites(x, path=()):
    yield path
    if isinstance(x, dict):
        for k in x:
            yield from sites(x[k], path + (k,))
    elif isinstance(x, list):
        for i in range(len(x)):
            yield from sites(x[i], path + (i,))


def drift(rng, val):
    """Deep copy with exactly one difference; returns (new value, description)."""
    new = json.loads(json.dumps(val))
    ps = list(sites(new))
    if len(ps) == 1:  # nothing inside
        return rng.choice([x for x in [{}, [], None, "", "x", 7, [{}], {"x": {}}, {"": None}, [None]] if x != new or type(x) is not type(new)]), ("whole", ())
    c = rng.random()
    path = rng.choice(ps[1:]) if c < 0.6 else ps[-1] if c < 0.75 else max(ps, key=len)
    parent = new
    for p in path[:-1]:
        parent = parent[p]
    old = parent[path[-1]]
    k = rng.randrange(6)
    if k == 0 and isinstance(parent, dict):
        del parent[path[-1]]
        return new, ("removed key", path)
    if k == 1 and isinstance(parent, dict):
        parent["extra key"] = old
        return new, ("added key", path)
    if k == 2 and isinstance(parent, list):
        parent.append(parent[-1]) if rng.random() < .5 else parent.pop()
        return new, ("length", path)
    if k == 3 and isinstance(parent, list) and len(parent) > 1 and parent != parent[::-1]:
        parent.reverse()
        return new, ("order", path)
    if isinstance(old, str):
        c = [old + "x", old + " ", None, old.swapcase(), [old], {old: old}, 5, " " + old, old.strip(), unicodedata.normalize("NFD", old), old[:-1], old.replace("\n", " ")]
        if old:
            at = rng.randrange(len(old))
            c += [old[:at] + chr(ord(old[at]) ^ 1) + old[at + 1:]] * 4
    elif isinstance(old, bool):
        c = [not old, str(old), None, "true"]
    elif isinstance(old, (int, float)):
        c = [old * 2 + 3, str(old), None, [old], -old, old + 1]
        if isinstance(old, float):
            c += [math.nextafter(old, math.inf)] * 4 + [int(old)]
        else:
            c += [old + 1, old - 1] * 2
    elif old is None:
        c = ["null", {}, [], 2, False]
    elif isinstance(old, dict):
        c = [None, [old], dict(old, zz=None), list(old) + [0.5]]
    else:
        c = [None, old + [None], {"0": old}, "x"]
    c = [x for x in c if x != old]
    parent[path[-1]] = rng.choice(c)
    return new, ("value", path)


def shuffled(rng, x):
    if isinstance(x, dict):
        ks = list(x)
        rng.shuffle(ks)
        return {k: shuffled(rng, x[k]) for k in ks}
    return [shuffled(rng, y) for y in x] if isinstance(x, list) else x


def fence(rng, val, lang=None):
    """Lines of a fenced block whose parsed value is val."""
    lang = lang or rng.choice(["json", "json", "python"])
    ind = rng.choice(["", "", "", "  ", "\t"])
    v = shuffled(rng, val)
    if lang == "json":
        body = json.dumps(v, indent=rng.choice([None, 1, 2, 4, "\t"]), ensure_ascii=rng.random() < .5)
        if rng.random() < 0.2:
            body = "\n" + body + "\n"
    else:
        if rng.random() < 0.5:
            body = repr(v)
        else:
            import pprint
            body = pprint.pformat(v, width=60, sort_dicts=False)
        if rng.random() < 0.15:
            body = "\n" + " " * rng.randint(0, 3) + body + "\n"
    body = [ind + x for x in body.split("\n")]
    tag = lang if rng.random() < 0.8 else lang.upper()
    return [ind + "```" + rng.choice(["", "", " "]) + tag + rng.choice(["", "", "  "])] + body + [ind + "```" + rng.choice(["", " "])]


def marker(rng, name):
    return rng.choice(["<!-- example: %s -->"] * 4 + ["<!--example:%s-->", "  <!--  example:  %s  -->", "<!-- EXAMPLE: %s -->"]) % name


def prose(rng):
    return [rng.choice(["Some text.", "", "", "## Heading", "- item", "`code` and {braces}", "<!-- comment -->", "| a | b |",
                        "text with ``` ticks", "<!-- examples follow -->"]) for _ in range(rng.randint(0, 3))]


def other(rng):
    return rng.choice([["```cesr", "-FAB", "```"], ["```", "{'a': 1}", "```"], ["``` bash", "ls", "```"], ["```jsonc", "{}", "```"]])


@contextlib.contextmanager
def files(manifest, text, raw=None):
    with tempfile.TemporaryDirectory(prefix="spec-") as d:
        m, s = os.path.join(d, "m.json"), os.path.join(d, "spec.md")
        with open(m, "w", encoding="utf-8") as f:
            f.write(raw if raw is not None else json.dumps(manifest))
        with open(s, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        yield m, s


def call(mod, *argv):
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            code = mod.main(list(argv))
        except SystemExit as ex:
            code = ex.code
    return code, out.getvalue(), err.getvalue()
