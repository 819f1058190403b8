"""T02: see catalog.py."""
import os
import re
import subprocess
import sys

import toollib as tl
import vh
from vh import Violation, same

RULE = ("seeded manifests and texts made of segments whose right treatment is known by construction; the tagger's output is "
        "compared with the expected text, run again, dry-run, and given to the checker; non-trivial: text has a block")
ASSUME = ["true and 1 count as equal values"]
REQUIRE = ["markers_in_capitals", "bare_examples", "marked_by_another_example", "inserted", "already_marked", "ambiguous", "unparsable", "second_fence_same_value", "reruns", "dry_runs",
           "checker_confirms", "processes_run", "skips_reported", "line_ends: crlf", "line_ends: mixed"]
mod = tl.load("tag_spec_examples")
chk = tl.load("check_spec_examples")
BAD = [["```json", "{'a': 1}", "```"], ["```python", "{[]: 1}", "```"], ["```python", "{'a': open}", "```"], ["```json", "", "```"],
       ["```python", "{{}}", "```"], ["```python", "{'a': 1", "```"], ["```python", "\x00", "```"], ["```json", "```"],
       ["```python", "{'a': -'b'}", "```"], ["```python", "{**{}}", "```"]]


def case(ctx, rng, i):
    names = rng.sample(tl.NAMES, rng.randint(1, 6))
    man = {n: tl.block(rng, n) for n in names}
    if rng.random() < 0.12:  # an example with nothing in it
        man[names[-1]] = rng.choice([{}, {"x": {}}, {"": []}])
        ctx.saw("bare_examples")
    amb = set()
    if rng.random() < 0.35:  # two names, one value
        a = rng.choice(names)
        man["twin"] = tl.shuffled(rng, man[a])
        amb = {a, "twin"}
    if rng.random() < 0.3:
        man["list"] = [tl.block(rng, "l")]
    segs = []  # (lines, name to be inserted above the fence at offset or None, offset)
    used = set()
    plan = []
    for _ in range(rng.randint(1, 9)):
        plan.append(rng.choice(["plain", "plain", "plain", "marked", "marked", "wrongmark", "near", "bad", "other", "list", "prose",
                                "splitmark", "outer"]))
    full = rng.random() < 0.3
    if full:  # every example exactly once
        plan = ["one:" + n for n in names] + rng.sample(["bad", "other", "near", "prose"], 2)
        rng.shuffle(plan)
        man = {n: man[n] for n in names}
        amb = set()
    items, marks = [], {}
    for p in plan:
        n = p[4:] if p.startswith("one:") else rng.choice(list(man))
        if p.startswith("one:"):
            p = "marked" if rng.random() < 0.3 else "plain"
        items.append((p, n))
    isdict = {n for n in man if isinstance(man[n], dict)}
    for p, n in items:  # names which mark a fence anywhere
        if p in ("marked",):
            used.add(n)
        if p == "wrongmark":
            marks[len(marks)] = rng.choice(["elsewhere", "elsewhere"] + names)
            used.add(marks[len(marks) - 1])
    marks = list(marks.values())
    lines, want = [], []
    tagged, skips = [], []
    for p, n in items:
        pre = tl.prose(rng)
        if pre and pre[-1].strip() == "" and rng.random() < 0.3:
            pre = pre[:-1]
        lines += pre
        want += pre
        if p == "prose":
            continue
        if p == "bad":
            f = rng.choice(BAD)
            ctx.saw("unparsable")
        elif p == "other":
            f = tl.other(rng)
        elif p == "near":
            while True:
                v, _ = tl.drift(rng, man[n])
                if not any(v == x for x in man.values()):
                    break
            f = tl.fence(rng, v)
        else:
            while True:  # a Python literal after a blank line does not parse for the tagger
                f = tl.fence(rng, man[n])
                if f[1].strip() or "json" in f[0].lower():
                    break
        if p == "marked":
            mk = [tl.marker(rng, n)] if rng.random() < 0.9 else ["<!-- example: " + n + " -->"]
            if "EXAMPLE" in mk[0]:
                ctx.saw("markers_in_capitals")
            mk += [""] * rng.choice([0, 0, 1, 3])
            lines += mk + f
            want += mk + f
            ctx.saw("already_marked")
        elif p == "wrongmark":  # a marker of another name is left alone
            mk = ["<!-- example: %s -->" % marks.pop(0)]
            if "elsewhere" not in mk[0]:
                ctx.saw("marked_by_another_example")
            lines += mk + f
            want += mk + f
        else:
            if p == "splitmark":  # a marker which does not stand directly above
                mk = ["<!-- example: %s -->" % n, "not blank"]
                lines += mk
                want += mk
            elif lines and "example:" in ([x for x in lines if x.strip()] or [""])[-1]:
                lines.append("text")
                want.append("text")
            if p in ("plain", "splitmark", "outer", "list") and n in isdict:
                if n in amb:
                    ctx.saw("ambiguous")
                    skips.append((len(lines) + 1, sorted(amb)))
                elif n in used:
                    ctx.saw("second_fence_same_value")
                    skips.append((len(lines) + 1, [n]))
                else:
                    want.append("<!-- example: %s -->" % n)
                    used.add(n)
                    tagged.append(n)
                    ctx.saw("inserted")
            lines += f
            want += f
        if rng.random() < 0.5:
            lines.append("")
            want.append("")
    if rng.random() < 0.15 and not full:  # a fence never closed is no block
        f = ["text"] + tl.fence(rng, rng.choice([x for x in man.values()]))[:-1]
        lines += f
        want += f
    ends = rng.choice(["\n"] * 4 + ["\r\n", "mixed"])
    eols = [rng.choice(["\n", "\r\n"]) if ends == "mixed" else ends for _ in lines]
    txt = "".join(x + y for x, y in zip(lines, eols))[:-len(eols[-1])] if lines else ""
    exp, j = "", 0
    for x in want:  # a marker inserted ends as the fence below it
        if x == lines[j]:
            j += 1
            exp += x + eols[j - 1]
        else:
            exp += x + eols[j]
    exp = exp[:-len(eols[-1])] if lines else ""
    if ends != "\n":
        ctx.saw("line_ends: " + ends.replace("\r\n", "crlf"))
    if rng.random() < 0.7:
        txt += "\n"
        exp += "\n"
    via = "process" if i % 25 == 0 else "call"

    def go(m, s, *extra):
        if via == "process":
            ctx.saw("processes_run")
            r = subprocess.run([sys.executable, "-B", os.path.join(vh.REPO, "tools", "tag_spec_examples.py"), "--manifest", m,
                                "--spec", s, *extra], capture_output=True, text=True, env=dict(os.environ, PYTHONIOENCODING="utf-8"))
            report(r.stderr)
            return r.returncode, r.stdout
        c, o, e = tl.call(mod, "--manifest", m, "--spec", s, *extra)
        report(e)
        return c, o

    def report(err):
        """Each block skipped for ambiguity or because its example is taken is told of, at its line before the run."""
        if not first:
            return
        for line, ns in skips:
            if not any(re.search(rf"line {line}\b", x) and all(n in x or repr(n)[1:-1] in x for n in ns) for x in err.splitlines()):
                raise Violation(f"block at line {line} was skipped without a report naming {ns}: {err}")
            ctx.saw("skips_reported")

    first = True

    def read(s):
        with open(s, encoding="utf-8", newline="") as f:
            return f.read()

    with tl.files(man, txt) as (m, s):
        c, o = go(m, s, "--dry-run")
        if read(s) != txt or c != 0:
            raise Violation(f"dry run exit {c} changed the text to\n{read(s)}")
        ctx.saw("dry_runs")
        for n in tagged:
            if n not in o:
                raise Violation(f"dry run does not list {n!r}: {o}")
        c, o = go(m, s)
        first = False
        got = read(s)
        if got != exp or c != 0:
            raise Violation(f"tagging (exit {c}) gave\n{got}\nexpected\n{exp}\nmanifest {man!r}"[:7000])
        for n in tagged:
            if n not in o:
                raise Violation(f"report does not list {n!r}: {o}")
        for _ in range(2):
            c, o = go(m, s)
            if read(s) != exp or c != 0:
                raise Violation(f"a further run (exit {c}) changed the text to\n{read(s)}\nfrom\n{exp}"[:7000])
            ctx.saw("reruns")
        if full and not re.search(r"<!--\s*example:(?![^\r\n>]*-->)", exp):      # no marker that a value leaves open
            c, o, _ = tl.call(chk, "--manifest", m, "--spec", s)
            same(c, 0, "checker on fully tagged text: %s\n%s", o, got)
            ctx.saw("checker_confirms")
    ctx.case((txt, repr(man)), any("```" in x for x in lines))
    if i < 2:
        ctx.sample(dict(plan=[list(x) for x in items], tagged=tagged))


CASES = [("tag", case, 3000, 40000)]
