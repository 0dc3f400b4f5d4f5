"""C13: updating markdown replaces what is between the markers, and nothing else.

Trees of generated documents (snippets of every kind, look-alikes of markers, CRLF, missing final newline, other files) go
through the history dry run, update, dry run, update. A model of the documents says what each holds afterwards; the snippet
template echoes all it is given, so that each section is also compared to the registry it is made from."""
import json
import os

from lib import reg, v1, v2, yamlout
from lib.common import Check, diff_json, stable_hash
from props.c12 import VALUES, PNAMES, make, norm, tree

SIG = {"attributes": "attribute", "attribute_groups": "attribute_group", "spans": "span", "metrics": "metric",
       "events": "event", "entities": "entity"}
NAME = {"attributes": "key", "attribute_groups": "id", "spans": "type", "metrics": "name", "events": "name",
        "entities": "type"}
P = ", ".join(f'"{n}": params["{n}"]' for n in PNAMES)
BODY = ('{{ {"group": group, "snippet_type": snippet_type, "tag_filter": tag_filter, '
        '"url": attribute_registry_base_url, "q": q, "params": {' + P + '}}|tojson }}\n'
        '| a | b |\n|---|---|\n{% if group is defined and group.attributes %}{% for a in group.attributes %}| {{ a.name or a.key }} |\n{% endfor %}{% endif %}'
        '{{ tail }}\n\nend of section')
OTHER = '{{ {"q": q, "params": {' + P + '}}|tojson }}\nother template'
PLAIN = ["# Heading", "", "Some text, with `code` and *emphasis*.", "- a list", "  - nested", "\tindented", "ünïcödé ✓ 日本",
         "trailing spaces   ", "| a | b |", "|---|---|", "```yaml", "key: <!-- semconv a.b -->", "```", "<!-- toc -->",
         "<!-- a comment", "over lines -->", "<!-- endsemconv -->", "<!-- endweaver -->", " <!-- semconv x.y -->",
         "text <!-- semconv x.y -->", "<!-- semconv x.y --> text", "<!-- semconv -->", "<!-- semconv 1x -->",
         "<!-- Semconv x.y -->", "< !-- semconv x.y -->", "<!-- semconv x.y", "<!-- prettier-ignore-start -->", "{{ jinja }}",
         "{% raw %}", "$1 \\1 \\\\", "&lt;br&gt;", "\u00a0nbsp", "---", "<!---->", "<!-- -->"]
OLD = PLAIN + ["old generated text", "| stale | row |", "<!-- semconv some.other -->", "<!-- semconv a(full) -->"]


class Snippet:
    """A marker and what belongs under it: `want` is what its template receives, None when it must fail."""

    def __init__(self, head, tail, want, template="main"):
        self.head, self.tail, self.want, self.template = head, tail, want, template


def spaced(rng, s):
    """the same marker with other white space"""
    return "<!--" + rng.choice([" ", " ", " ", "", "  ", "\t"]) + s + rng.choice([" ", " ", " ", "", "   "]) + "-->" + \
        rng.choice(["", "", "", " ", "\t"])


def snippet(rng, form, doc, url):
    args, tag, table = [], [], False
    for a in rng.sample(["full", "metric_table", "omit_requirement_level", "tag"], rng.choice([0, 0, 1, 1, 2, 3])):
        if a == "tag":
            t = rng.choice(["tech", "tech-specific", "_x", "a1_b-c"])
            tag = [t]
            a = "tag=" + t
        table = table or a == "metric_table"
        args.append(a)
    arg = "(" + ",".join(args) + ")" if args or rng.random() < 0.05 else ""
    base = {"tag_filter": tag}
    if url is not None:
        base["url"] = url
    r = rng.random()
    end = spaced(rng, "endsemconv")
    if form == "v1":
        if r < 0.06:
            return Snippet(spaced(rng, "semconv no.such.group" + arg), end, None)
        if r < 0.1:
            return Snippet(spaced(rng, "weaver " + rng.choice([".", "{q: .groups}"])), spaced(rng, "endweaver"), None)
        g = rng.choice(doc["groups"])
        return Snippet(spaced(rng, f"semconv {g['id']}{arg}"), end,
                       {**base, "group": g, "snippet_type": "metric_table" if table else "attribute_table"})
    if r < 0.06:
        return Snippet(spaced(rng, "semconv " + rng.choice(["registry.metrics.no.such", "metric.x.y", "no", "registry.x.y",
                                                            "refinements.attributes.a.b", "refinements.spans.no_such"]) + arg),
                       end, None)
    if r < 0.35:
        s = rng.choice(list(SIG))
        q, v = rng.choice([
            (f"{{q: .registry.{s}}}", lambda: doc["registry"].get(s)),
            (f"{{q: [.registry.{s}[] | .{NAME[s]}]}}", lambda: [x[NAME[s]] for x in doc["registry"].get(s, [])]),
            (f"{{q: (.registry.{s} | length)}}", lambda: len(doc["registry"].get(s, []))),
            ("{q: [$alpha, 1]}", lambda: PARAM),
            (".registry as $r | {q: ($r.metrics | map(.unit))}", lambda: [x["unit"] for x in doc["registry"]["metrics"]]),
        ])
        t, pre = "main", ""
        k = rng.random()
        if k < 0.25:
            t, pre = "other", "template:other.md.j2 "
        elif k < 0.35:
            pre = "template:snippet.md.j2 "
        elif k < 0.4:
            return Snippet(spaced(rng, f"weaver template:none.j2 {q}"), spaced(rng, "endweaver"), None)
        elif k < 0.47:
            return Snippet(spaced(rng, "weaver " + rng.choice(["{q: (", "no_such_function", "error(\"x\")"])),
                           spaced(rng, "endweaver"), None)
        return Snippet(spaced(rng, f"weaver {pre}{q}"), spaced(rng, "endweaver"), {"q": v()}, t)
    if r < 0.7:
        s = rng.choice([x for x in SIG if doc["registry"].get(x)])
        x = rng.choice(doc["registry"][s])
        return Snippet(spaced(rng, f"semconv registry.{s}.{x[NAME[s]]}{arg}"), end,
                       {**base, "group": dict(x, signal_type=SIG[s])})
    choices = [s for s in SIG if (doc.get("refinements") or {}).get(s)]
    if not choices:
        return Snippet(spaced(rng, "semconv refinements.spans.nothing"), end, None)
    s = rng.choice(choices)
    x = rng.choice(doc["refinements"][s])
    g = dict(x, signal_type=SIG[s])
    del g["id"]
    return Snippet(spaced(rng, f"semconv refinements.{s}.{x['id']}{arg}"), end, {**base, "group": g})


PARAM = object()


def document(rng, form, doc, url, bad_ok):
    """-> (parts, fails): parts are lines of text and snippets with what they hold now"""
    parts = []
    fails = False
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 6])):
        parts += [rng.choice(PLAIN) for _ in range(rng.randint(0, 6))]
        for _ in range(20):
            s = snippet(rng, form, doc, url)
            if s.want is not None or bad_ok:
                break
        else:
            continue
        own = "endweaver" if "endweaver" in s.tail else "endsemconv"
        old = [x for x in (rng.choice(OLD) for _ in range(rng.choice([0, 0, 1, 4, 12]))) if own not in x]
        parts.append((s, old))
        fails = fails or s.want is None
    parts += [rng.choice(PLAIN) for _ in range(rng.randint(0, 8))]
    if bad_ok and rng.random() < 0.08:
        s = snippet(rng, form, doc, url)
        parts.append((Snippet(s.head, None, s.want, s.template), ["hand-written text", "that has no end marker above it"]))
        fails = True
    return parts, fails


def lines_of(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            s, old = p
            out += [s.head, *old] + ([s.tail] if s.tail is not None else [])
    return out


def judge(parts, text, params):
    """-> problem or None: does the text hold the parts, with each section rendered from what it is to hold?"""
    if text and not text.endswith("\n"):
        return "no final newline"
    got = text.split("\n")[:-1]
    i = 0

    def at(want, what):
        nonlocal i
        if i >= len(got):
            return f"the file ends where {what} {want!r} belongs (line {i + 1})"
        if got[i] != want:
            return f"line {i + 1} is {got[i]!r}, {what} {want!r} belongs there"
        i += 1
    for p in parts:
        if isinstance(p, str):
            e = at(p, "the text")
            if e:
                return e
            continue
        s, _ = p
        e = at(s.head, "the marker")
        if e:
            return e
        if i >= len(got):
            return f"nothing below {s.head}"
        try:
            seen = json.loads(got[i])
        except ValueError:
            return f"line {i + 1}, below {s.head}, is not the rendered section: {got[i][:200]!r}"
        i += 1
        want = dict(s.want)
        if want.get("q") is PARAM:
            want["q"] = [params["alpha"], 1]
        want["params"] = params
        seen_g = v2.strip_prov(norm(seen))
        d = diff_json(v2.strip_prov(norm(want)), seen_g)
        if d:
            return f"the section of {s.head} is not rendered from its item:\n" + "\n".join(d)
        if s.template == "other":
            rest = ["other template"]
        else:
            g = want.get("group") or {}
            rest = ["| a | b |", "|---|---|"] + [f"| {a.get('name') or a.get('key')} |" for a in g.get("attributes") or []] + \
                ["", "", "end of section"]
        for x in rest + [s.tail]:
            e = at(x, f"(section of {s.head})")
            if e:
                return e
    if i != len(got):
        return f"{len(got) - i} lines too many: {got[i:i + 3]}"
    return None


def case(c, i):
    rng = c.rng("case", i)
    base = c.dir(f"m{i}")
    key = f"case {i}"
    form = rng.choice(["v1", "v1", "v2", "v2", "v1as2"])
    root = os.path.join(base, "reg")
    make(rng, "v2" if form == "v2" else "v1", root)
    view = [] if form == "v1" else ["--v2"]
    form = "v1" if form == "v1" else "v2"
    res = c.run(["registry", "resolve", "-r", root, "-f", "json", "--skip-policies", *view])
    if res.rc != 0:
        raise RuntimeError("resolve failed: " + res.brief())
    doc = json.loads(res.out)
    if form == "v1" and not doc["groups"]:
        return
    # ---- templates
    target = rng.choice(["markdown", "md/v1"])
    tdir = os.path.join(base, "t", *(["registry"] if rng.random() < 0.5 else []), target)
    os.makedirs(tdir)
    for n, b in (("snippet.md.j2", BODY), ("other.md.j2", OTHER)):
        with open(os.path.join(tdir, n), "w") as f:
            f.write(b)
    vals = [v for v in VALUES if v is not None]
    params = {"alpha": rng.choice(vals)}
    conf = {"params": {"alpha": params["alpha"]}, "whitespace_control": {"trim_blocks": rng.random() < 0.5}}
    for n in rng.sample(PNAMES, rng.randint(0, 3)):
        conf["params"][n] = params[n] = rng.choice(vals)
    yamlout.write(os.path.join(tdir, "weaver.yaml"), conf)
    url = rng.choice([None, None, "/registry/attributes", "https://example.test/a?b=c&d"])
    md = os.path.join(base, "docs")
    args = ["registry", "update-markdown", "-r", root, "-t", os.path.join(base, "t"), "--target", target, *view]
    if url is not None:
        args += ["--attribute-registry-base-url", url]
    if rng.random() < 0.4:
        pf = {n: rng.choice(vals) for n in rng.sample(PNAMES, rng.randint(1, 3))}
        yamlout.write(os.path.join(base, "params.yaml"), {"params": pf})
        args += ["--params", os.path.join(base, "params.yaml")]
        params.update(pf)
    if rng.random() < 0.4:
        for n in rng.sample(PNAMES, rng.randint(1, 3)):
            params[n] = rng.choice(vals)
            args += ["-D", f"{n}={json.dumps(params[n])}"]
    # ---- documents
    bad_ok = rng.random() < 0.4
    docs = {}
    for k in range(rng.randint(1, 7)):
        name = rng.choice(["", "sub/", "sub/deep/", "with space/"]) + rng.choice([f"d{k}.md", f"D {k}.md", f"d.{k}.x.md", f"é{k}.md"])
        parts, fails = document(rng, form, doc, url, bad_ok)
        crlf = rng.choice([None, None, None, "all", "some"])
        raw = ""
        for ln in lines_of(parts):
            raw += ln + ("\r\n" if crlf == "all" or (crlf == "some" and rng.random() < 0.3) else "\n")
        if raw and rng.random() < 0.15:
            raw = raw.rstrip("\r\n") if not raw.endswith("\n\n") and not raw.endswith("\n\r\n") else raw
        docs[name] = (parts, fails, raw.encode())
        if bad_ok and rng.random() < 0.05:
            docs[f"bin{k}.md"] = (None, True, b"\xff\xfe not utf-8 \x80\n<!-- semconv a -->\n")
    other = {}
    sample = b"# T\n<!-- semconv a.b -->\nkept\n<!-- endsemconv -->\n"
    for n in rng.sample(["notes.txt", "sub/x.markdown", "y.md.bak", "README", "sub/z.MD.txt"], rng.randint(0, 3)):
        other[n] = sample
    for n, b in [(n, d[2]) for n, d in docs.items()] + list(other.items()):
        p = os.path.join(md, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)
    before = tree(md)
    any_fails = any(d[1] for d in docs.values())
    desc = f"weaver {' '.join(args)} {md}\nparams {params}"

    def run(dry):
        r = c.run([*args, *(["--dry-run"] if dry else []), md], env={"RAYON_NUM_THREADS": str(rng.choice([1, 4]))})
        if r.timed_out:
            raise RuntimeError("timeout")
        if r.panicked or r.rc not in (0, 1):
            c.violation(f"{key}/crash", f"exit status {r.rc}\n{r.brief()}\n{desc}", base)
            return None
        return r
    r1 = run(True)
    if r1 is None:
        return
    if tree(md) != before:
        bad = [n for n in set(before) | set(tree(md)) if before.get(n) != tree(md).get(n)]
        c.violation(f"{key}/dry-writes", f"the dry run changed {bad}\n{desc}", base)
        return
    r2 = run(False)
    if r2 is None:
        return
    after = tree(md)
    if (r2.rc == 0) != (not any_fails):
        c.violation(f"{key}/exit", f"the update exits with {r2.rc}, the documents that cannot be updated: "
                    f"{[n for n, d in docs.items() if d[1]]}\n{r2.brief()}\n{desc}", base)
    if set(after) != set(before):
        c.violation(f"{key}/files", f"files {sorted(set(after) ^ set(before))} come or go\n{desc}", base)
        return
    for n in other:
        if after[n] != before[n]:
            c.violation(f"{key}/other", f"{n} is not a markdown file and is changed\n{desc}", base)
    changed = False
    for n, (parts, fails, raw) in docs.items():
        if fails:
            if after[n] != raw:
                c.violation(f"{key}/failed:{n}", f"{n} cannot be updated and is changed all the same: now\n"
                            f"{after[n][:600].decode('utf-8', 'replace')}\n{desc}", base)
            c.saw(stable_hash(["fails", n, raw.decode("utf-8", "replace")]))
            c.count("documents_failing")
            continue
        text = after[n].decode("utf-8", "replace")
        e = judge(parts, text, params)
        if e:
            c.violation(f"{key}/doc:{n}", f"{n}: {e}\n{desc}", base)
            return
        lf = raw.replace(b"\r\n", b"\n")
        if lf != after[n]:
            changed = True
        c.count("sections", sum(1 for p in parts if not isinstance(p, str)))
        c.count("documents")
        c.saw(stable_hash([n, text]), sample={"file": n, "sections": [p[0].head for p in parts if not isinstance(p, str)]}
              if len(parts) > 3 else None)
    if (r1.rc != 0) != (changed or any_fails):
        c.violation(f"{key}/dry-exit", f"the first dry run exits with {r1.rc}; a document is out of date: {changed}, "
                    f"a document cannot be updated: {any_fails}\n{r1.brief()}\n{desc}", base)
    r3, r4 = run(True), run(False)
    if r3 is None or r4 is None:
        return
    if (r3.rc != 0) != any_fails:
        c.violation(f"{key}/dry-after", f"after the update the dry run exits with {r3.rc}\n{r3.brief()}\n{desc}", base)
    if tree(md) != after:
        bad = [n for n in after if after[n] != tree(md).get(n)]
        c.violation(f"{key}/again", f"a second update changes {bad}\n{desc}", base)
    c.count("histories")


def main(tier, seed):
    c = Check("C13", tier, seed, "exploration",
              "A case is a tree of documents taken through dry run, update, dry run, update; each document compared is one "
              "evaluation. Distinct: by the document after the update.",
              ["line endings are normalised to LF and the last line is ended: the update does both, and neither is judged",
               "the resolved registry itself is judged by C02, C03 and C14",
               "provenance is not compared inside sections"])
    c.setup()
    c.map(lambda i: case(c, i), range(c.n(260, 4000)))
    return c.finish()
