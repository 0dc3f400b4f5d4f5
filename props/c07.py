"""C07: diffs between registries are exact.

Pairs of registries (one an edited form of the other, or unrelated) are given to `registry diff` in every format.
The oracle computes the changes from the definitions themselves, by name, as docs/schema-changes.md words them."""
import copy
import json
import os
import re
import shutil

from lib import reg, v1, v2
from lib.common import Check, diff_json, stable_hash
from props.c02 import yaml_load

KEYS = {"attributes": "key", "attribute_groups": "id", "spans": "type", "metrics": "name", "events": "name",
        "entities": "type"}
OUT2 = {"attributes": "registry_attributes", "attribute_groups": "attribute_groups", "spans": "spans",
        "metrics": "metrics", "events": "events", "entities": "resources"}
ANSI = re.compile(r"\x1b\[[0-9;]*m")


def one_line(x):
    """Notes on one line, so that the text reports can be taken apart."""
    if isinstance(x, dict):
        d = x.get("deprecated")
        if isinstance(d, dict) and "note" in d:
            d["note"] = " ".join(d["note"].split()) or "n"
        for v in x.values():
            one_line(v)
    elif isinstance(x, list):
        for v in x:
            one_line(v)
    return x


def redeprecate(rng, it, names, v1_=False):
    r = rng.random()
    if r < 0.4:
        return
    if r < 0.55 and "deprecated" in it:
        del it["deprecated"]
    elif r < 0.6 and isinstance(it.get("deprecated"), dict) and it["deprecated"]["reason"] == "renamed":
        # the inferred note spelled out (no change), or taken away
        d = it["deprecated"]
        it["deprecated"] = {"reason": "renamed", "renamed_to": d["renamed_to"],
                            **({} if "note" in d else {"note": f"Replaced by `{d['renamed_to']}`."})}
    elif r < 0.65 and isinstance(it.get("deprecated"), dict):
        it["deprecated"] = {**it["deprecated"], "note": "another note " + str(rng.randrange(100))}
    elif v1_ and r < 0.7:
        it["deprecated"] = "Old style note " + str(rng.randrange(3))
    elif r < 0.9:
        it["deprecated"] = v1.deprecated(rng, names)
    else:
        it["brief"] = v1.text(rng, "edited ")


def state(d):
    if d is None:
        return None
    if isinstance(d, str):
        return ("unspecified", None, d)
    e = v1.exp_deprecated(d)
    return (e["reason"], e.get("renamed_to"), e["note"])


def changes(head, base):
    """head, base: name -> deprecation state."""
    out = []
    for n, d in head.items():
        if n not in base:
            out.append({"type": "added", "name": n})
        elif d is not None and d != base[n]:
            r, to, note = d
            if r == "renamed":
                out.append({"type": "renamed", "old_name": n, "new_name": to, "note": note})
            else:
                out.append({"type": "obsoleted" if r == "obsoleted" else "uncategorized", "name": n, "note": note})
    out += [{"type": "removed", "name": n} for n in base if n not in head]
    return out


# ------------------------------------------------------------------ v2
def spare(rng, con, ns):
    for i in range(rng.randint(0, 4)):
        con.setdefault("attributes", []).append(v1.attr_def(rng, f"{ns}spare.k{i}", ["x.y"], v2=True))


def referenced(con):
    out = set()
    for s, items in con.items():
        for g in items:
            for f in ("attributes", "identity", "description"):
                out |= {a.get("ref") or a.get("ref_group") for a in g.get(f, []) if isinstance(a, dict)}
    return out


def evolve2(rng, con, i):
    head = copy.deepcopy(con)
    names = [a["key"] for a in head.get("attributes", [])]
    gone = set()
    for s, t in (("spans", "span"), ("metrics", "metric"), ("events", "event"), ("entities", "entity")):
        keep = []
        for g in head.get(s, []):
            if rng.random() < 0.2:
                gone.add(g[KEYS[s]])
                rs = head.get(f"{t}_refinements", [])
                head[f"{t}_refinements"] = [r for r in rs if r["ref"] != g[KEYS[s]]]
            else:
                keep.append(g)
        head[s] = keep
    for s in head:
        for g in head[s]:
            g.pop("entity_associations", None)
    for _ in range(2):
        ref = referenced(head)
        for s in ("attributes", "attribute_groups"):
            head[s] = [g for g in head.get(s, []) if g[KEYS[s]] in ref or rng.random() < 0.7]
    if rng.random() < 0.7:
        new = v2.gen(rng, ns=f"new{i}.", size=rng.randint(1, 5), n_attr=rng.randint(1, 4))
        for s, items in new.items():
            head[s] = head.get(s, []) + items
    # a name that leaves one kind of signal and enters another
    if gone and rng.random() < 0.5:
        n = sorted(gone)[0]
        if n not in {e["name"] for e in head.get("events", [])}:
            head.setdefault("events", []).append({"name": n, "brief": "moved", "stability": "stable"})
        if n not in {a["key"] for a in head.get("attributes", [])}:
            head.setdefault("attributes", []).append({"key": n, "type": "int", "brief": "moved", "stability": "stable"})
    for s in KEYS:
        for g in head.get(s, []):
            if s != "attribute_groups" or g["visibility"] == "public":
                redeprecate(rng, g, names or ["x"])
    one_line(head)
    v2.need_notes(rng, head)
    one_line(head)
    return {s: v for s, v in head.items() if v}


def view2(con):
    out = {}
    for s, k in KEYS.items():
        out[OUT2[s]] = {g[k]: state(g.get("deprecated")) for g in con.get(s, [])
                        if s != "attribute_groups" or g["visibility"] == "public"}
    return out


# ------------------------------------------------------------------ v1
def gen1(rng):
    groups = v1.gen(rng, with_body=False)
    for i in range(rng.randint(0, 3)):
        groups.append({"id": f"registry.spare{i}", "type": "attribute_group", "brief": "b",
                       "attributes": [v1.attr_def(rng, f"spare.g{i}.k{j}", ["x"]) for j in range(rng.randint(1, 3))]})
    for g in groups:
        if g["type"] == "span" and rng.random() < 0.6:
            g["name"] = g["id"] + ".n"
        for it in [g] + g.get("attributes", []):
            if "ref" not in it and rng.random() < 0.06:
                it["deprecated"] = "Old style note " + str(rng.randrange(3))
    return one_line(groups)


def evolve1(rng, groups, i):
    head = copy.deepcopy(groups)
    used = {g.get("extends") for g in head} | {e for g in head for e in g.get("events", [])}
    for g in head:
        g.pop("entity_associations", None)
    head = [g for g in head if g["id"] in used or any("id" in a for a in g.get("attributes", [])) or rng.random() < 0.8]
    refs = {a["ref"] for g in head for a in g.get("attributes", []) if "ref" in a}
    for g in head:
        if g["id"] in used:
            continue
        at = [a for a in g.get("attributes", []) if "ref" in a or a["id"] in refs or rng.random() < 0.7]
        if at:
            g["attributes"] = at
    if rng.random() < 0.7:
        new = v1.gen(rng, size=rng.randint(1, 3), with_body=False)
        have = {a.get("id") for g in head for a in g.get("attributes", [])} | \
               {a.get("id") for g in groups for a in g.get("attributes", [])}
        names = {a["id"] for g in new for a in g.get("attributes", []) if "id" in a}
        if not names & have:
            for g in new:
                for f in ("name", "metric_name", "id", "extends"):
                    if f in g:
                        g[f] = f"new{i}." + g[f]
                if "events" in g:
                    g["events"] = [f"new{i}." + e for e in g["events"]]
                g.pop("entity_associations", None)
            head += new
    names = [a["id"] for g in head for a in g.get("attributes", []) if "id" in a]
    for g in head:
        redeprecate(rng, g, names, True)
        for a in g.get("attributes", []):
            if "id" in a:
                redeprecate(rng, a, names, True)
    return one_line(head)


def view1(groups):
    out = {k: {} for k in ("registry_attributes", "metrics", "events", "spans", "entities")}
    for g in groups:
        for a in g.get("attributes", []):
            if "id" in a:
                out["registry_attributes"][a["id"]] = state(a.get("deprecated"))
        s = {"metric": "metrics", "event": "events", "span": "spans", "entity": "entities"}.get(g["type"])
        n = g.get("metric_name") if g["type"] == "metric" else g.get("name")
        if s and n:
            out[s][n] = state(g.get("deprecated"))
    return out


# ------------------------------------------------------------------ judging
def by_text(l):
    return sorted(json.dumps(x, sort_keys=True) for x in l)


def judge_doc(doc, exp, vers):
    out = []
    if doc.get("head") != {"semconv_version": vers[0]} or doc.get("baseline") != {"semconv_version": vers[1]}:
        out.append(f"versions: {doc.get('head')} {doc.get('baseline')}, expected {vers}")
    got = doc.get("changes", {})
    for k in sorted(set(got) | set(exp)):
        a, b = by_text(exp.get(k, [])), by_text(got.get(k, []))
        for x in a:
            if a.count(x) > b.count(x):
                out.append(f"{k}: missing {x}")
        for x in b:
            if b.count(x) > a.count(x):
                out.append(f"{k}: unexpected {x}")
    return out[:10]


def title(k):
    return " ".join(w.capitalize() for w in k.split("_"))


def squash(s):
    return " ".join(s.split())


def md_lines(exp):
    out = set()
    for k, l in exp.items():
        for ch in l:
            if ch["type"] == "renamed":
                t = f"{ch['old_name']} --> {ch['new_name']} (Note: {ch['note']})"
            elif "note" in ch:
                t = f"{ch['name']} (Note: {ch['note']})"
            else:
                t = ch["name"]
            out.add((title(k), ch["type"].capitalize(), squash(t)))
    return out


def md_parse(text):
    out, sec, kind = [], None, None
    for l in text.splitlines():
        if l.startswith("### "):
            kind = l[4:].strip()
        elif l.startswith("## "):
            sec = l[3:].strip()
        elif l.startswith("- "):
            out.append((sec, kind, squash(l[2:])))
    return out


def ansi_lines(exp):
    out = set()
    for k, l in exp.items():
        for ch in l:
            if ch["type"] == "renamed":
                t = f"Rename {ch['old_name']} to {ch['new_name']} (Note: {ch['note']})"
            elif ch["type"] == "added":
                t = f"Add {ch['name']}"
            elif "note" in ch:
                t = f"{ch['name']} (Note: {ch['note']})"
            else:
                t = ch["name"]
            out.add((title(k), ch["type"].capitalize(), squash(t)))
    return out


def ansi_parse(text):
    out, sec, kind = [], None, None
    for l in ANSI.sub("", text).splitlines():
        m = re.match(r"^List of Changes to (.*)$", l)
        if m:
            sec = m.group(1).strip()
            continue
        m = re.match(r"^(Added|Renamed|Obsoleted|Uncategorized|Removed) .*:$", l)
        if m:
            kind = m.group(1)
        elif l.startswith("  - "):
            out.append((sec, kind, squash(l[4:])))
    return out


def stats_parse(text):
    out, sec = {}, None
    for l in ANSI.sub("", text).splitlines():
        m = re.match(r"^(.*) Changes$", l)
        if m:
            sec = m.group(1).strip()
            continue
        m = re.match(r"^\s+(\w+)\s*:\s*(\d+)\s*$", l)
        if m and sec:
            out[sec, m.group(1).lower()] = int(m.group(2))
    return out


def case(c, i):
    rng = c.rng("case", i)
    base = c.dir(f"k{i}")
    two = i % 3 != 0
    if two:
        old = v2.gen(rng)
        spare(rng, old, "")
        one_line(old)
        v2.need_notes(rng, old)
        one_line(old)
        new = evolve2(rng, old, i) if i % 10 else one_line(v2.gen(rng))
        v2.need_notes(rng, new)
        one_line(new)
        fo, fn = v2.split_files(rng, old, rng.randint(1, 3)), v2.split_files(rng, new, rng.randint(1, 3))
        vo, vn = view2(old), view2(new)
        flag = ["--v2"]
    else:
        old = gen1(rng)
        new = evolve1(rng, old, i) if i % 5 else gen1(rng)
        fo, fn = v1.split_files(rng, old, rng.randint(1, 3)), v1.split_files(rng, new, rng.randint(1, 3))
        vo, vn = view1(old), view1(new)
        flag = []
    vers = (rng.choice(["1.1.0", "2.0.0", "1.10.0-dev"]), rng.choice(["1.0.0", "1.9.0"]))
    ro, rn = f"{base}/old", f"{base}/new"
    for r, f, v in ((ro, fo, vers[1]), (rn, fn, vers[0])):
        reg.write_tree(r, f, rng, manifest=reg.manifest(f"https://example.test/d/{v}"))
    pairs = [(rn, ro, vn, vo, vers), (ro, rn, vo, vn, vers[::-1])]
    if i % 4 == 0:
        pairs.append((rn, rn, vn, vn, (vers[0], vers[0])))
    # a head or baseline given as a package is the same registry
    if two and i % 6 == 1:
        p = c.run(["registry", "package", "--v2", "-r", ro, "-o", f"{base}/pkg", "--resolved-registry-uri", "resolved.yaml"])
        if p.rc == 0:
            pairs.append((rn, f"{base}/pkg", vn, vo, vers))
            pairs.append((f"{base}/pkg", rn, vo, vn, vers[::-1]))
            c.count("packages")
    for j, (h, b, vh, vb, vs) in enumerate(pairs):
        exp = {k: changes(vh[k], vb[k]) for k in vh}
        key = f"case{i}.{j}"
        args = ["registry", "diff", "-r", h, "--baseline-registry", b, *flag]
        r = c.run(["--quiet", *args, "--format", "json"])
        if r.timed_out:
            c.count("timeouts")
            continue
        if r.rc != 0:
            t = [c.run(["registry", "resolve", "-r", x, *flag]) for x in (h, b)]
            if all(x.rc == 0 for x in t):
                c.violation(key, "two registries that resolve cannot be compared\n" + r.brief(), keep=base)
            else:
                c.count("not_resolved")
            continue
        n = sum(len(x) for x in exp.values())
        c.count("changes_judged", n)
        for k, l in exp.items():
            for ch in l:
                c.count(ch["type"])
        c.saw(stable_hash([fn, fo, j]), sample={k: len(v) for k, v in exp.items()})
        try:
            d = judge_doc(r.json(), exp, vs)
        except ValueError:
            d = ["stdout is not JSON: " + r.out[:300]]
        if d:
            c.violation(key, "\n".join(d) + "\n" + r.brief(800), keep=base)
            continue
        again = c.run(["--quiet", *args, "--format", "json"])
        if again.out != r.out:
            c.violation(key + "/again", "a second run prints other bytes", keep=base)
        fmt = ["yaml", "jsonl", "markdown", "ansi", "ansi-stats", "file"][(i + j) % 6]
        c.count("format_" + fmt)
        if fmt == "file":
            q = c.run([*args, "--format", "json", "-o", f"{base}/out{j}"])
            f = f"{base}/out{j}/diff.json"
            if q.rc != 0 or not os.path.exists(f) or judge_doc(json.load(open(f)), exp, vs):
                c.violation(key + "/file", q.brief(), keep=base)
            continue
        q = c.run(["--quiet", *args, "--format", fmt])
        if q.rc != 0:
            c.violation(key + "/" + fmt, q.brief(), keep=base)
            continue
        if fmt == "yaml":
            d = judge_doc(yaml_load(q.out), exp, vs)
        elif fmt == "jsonl":
            try:
                d = judge_doc(json.loads(q.out), exp, vs)
            except ValueError:
                d = [q.out[:300]]
        elif fmt == "ansi-stats":
            st = stats_parse(q.out)
            d = []
            for k, l in exp.items():
                for t in ("added", "renamed", "obsoleted", "uncategorized", "removed"):
                    w = sum(1 for ch in l if ch["type"] == t)
                    if st.get((title(k), t), 0) != w:
                        d.append(f"{k} {t}: {st.get((title(k), t))} instead of {w}")
        else:
            got = md_parse(q.out) if fmt == "markdown" else ansi_parse(q.out)
            want = md_lines(exp) if fmt == "markdown" else ansi_lines(exp)
            d = [f"missing {x}" for x in sorted(want - set(got))] + [f"unexpected {x}" for x in sorted(set(got) - want, key=str)]
            if len(got) != len(set(got)):
                d.append("a change is listed twice")
        if d:
            c.violation(key + "/" + fmt, "\n".join(map(str, d[:10])) + "\n" + q.brief(1200), keep=base)
    shutil.rmtree(base, ignore_errors=True)


def broken(c, i):
    """A registry with an error gives no diff."""
    rng = c.rng("broken", i)
    base = c.dir(f"b{i}")
    con = v2.gen(rng)
    reg.write_tree(f"{base}/good", v2.split_files(rng, con, 2), rng, manifest=reg.manifest("https://example.test/d/1.0.0"))
    shutil.copytree(f"{base}/good", f"{base}/bad")
    reg.write_tree(f"{base}/bad", {"zz.yaml": rng.choice([
        {"file_format": "definition/2", "events": [{"name": "bad.e", "brief": "b", "stability": "stable", "attributes": [{"ref": "no.such"}]}]},
        "file_format: definition/2\nevents: [\n", {"groups": [{"id": "x", "type": "nope", "brief": "b"}]}])})
    h, b = ("good", "bad") if i % 2 else ("bad", "good")
    r = c.run(["--quiet", "registry", "diff", "-r", f"{base}/{h}", "--baseline-registry", f"{base}/{b}", "--v2", "--format",
               "json", "-o", f"{base}/out"])
    c.saw(stable_hash(["broken", i]))
    c.count("broken_pairs")
    if r.rc == 0 or os.path.exists(f"{base}/out/diff.json"):
        c.violation(f"broken{i}", f"a {'head' if h == 'bad' else 'baseline'} with an error is compared all the same\n" + r.brief(), keep=base)


def main(tier, seed):
    c = Check("C07", tier, seed, "exploration",
              "A case is a pair of generated registries (v1 or v2), mostly one evolved from the other by additions, "
              "removals, new, changed and dropped deprecations and other edits; both directions and self-comparison "
              "are judged change by change in JSON and one other format. Distinct: by content and direction.",
              ["v1 spans are compared only when they carry a name, as documented",
               "a definition that appears more than once is outside the generator"])
    c.setup()
    c.map(lambda i: case(c, i), range(c.n(420, 6000)))
    c.map(lambda i: broken(c, i), range(c.n(40, 300)))
    return c.finish()
