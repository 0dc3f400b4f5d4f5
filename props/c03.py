"""C03: a v2 registry resolves to exactly what its definitions and refinements say."""
import json
import os

from lib import reg, v1, v2
from lib.common import Check, diff_json, stable_hash
from props.c02 import yaml_load


def provenance_problems(doc, files, root):
    """Every item names the file that declares it; every attribute the file that defines it."""
    where = {}
    for p, d in files.items():
        for s in v2.SECTIONS:
            for it in d.get(s, []):
                k = it.get("id") or it.get("key") or it.get("type") or it.get("name")
                if s in ("spans", "entities"):
                    k = it["type"]
                if s in ("metrics", "events"):
                    k = it["name"]
                where[(s, k)] = f"{root}/{p}"
                kind = s.replace("_refinements", "")
                if s.endswith("_refinements"):
                    where[(s, v2.strip(kind, it["id"]))] = f"{root}/{p}"
    bad = []
    key = {"attributes": "key", "attribute_groups": "id", "spans": "type", "metrics": "name", "events": "name",
           "entities": "type"}
    singular = {"spans": "span", "metrics": "metric", "events": "event", "entities": "entity"}

    def look(s, k, it, alt=None):
        got = (it.get("provenance") or {}).get("path")
        exp = where.get((s, k)) or (where.get((alt, k)) if alt else None)
        if got != exp:
            bad.append(f"{s} {k}: provenance {got} instead of {exp}")
        for f in ("attributes", "identity", "description"):
            for a in it.get(f, []):
                g = (a.get("provenance") or {}).get("path")
                if g != where[("attributes", a["key"])]:
                    bad.append(f"{s} {k} attribute {a['key']}: provenance {g} instead of {where[('attributes', a['key'])]}")

    for s, items in doc["registry"].items():
        for it in items:
            look(s, it[key[s]], it)
    for s, items in doc["refinements"].items():
        for it in items:
            look(f"{singular[s]}_refinements", it["id"], it, alt=s)
    return bad


def main(tier, seed):
    c = Check("C03", tier, seed, "exploration",
              "A case is a generated valid v2 registry (attributes, nested internal and public attribute groups, every "
              "signal kind, refinements of each) spread over 1-6 files, resolved by the real program; every item, "
              "attribute and property is compared with the reference model, and the formats and the v1 view with it. "
              "Distinct: by content. Non-trivial: has a refinement or an attribute group reference.",
              ["the reference model in lib/v2.py states the documented semantics",
               "an event refinement's name is its own id and entity associations are not inherited by refinements: "
               "the current, tested behaviour, which the documentation leaves open"])
    c.setup()

    def case(i):
        rng = c.rng("case", i)
        content = v2.gen_deep(rng) if i % 7 == 6 else v2.gen(rng)
        files = v2.split_files(rng, content, rng.randint(1, 6))
        root = c.dir(f"c{i}/reg")
        reg.write_tree(root, files, rng)
        r = c.run(["registry", "resolve", "-r", root, "--v2", "--format", "json"])
        if r.timed_out:
            c.count("timeouts")
            return
        trivial = not any(content.get(s) for s in content if s.endswith("_refinements")) and \
            '"ref_group"' not in json.dumps(content)
        c.saw(None if trivial else stable_hash(content),
              sample={s: len(v) for s, v in content.items()})
        key = f"case{i}"
        if r.rc != 0:
            c.violation(key, "a valid registry is rejected\n" + r.brief(), keep=root)
            return
        doc = r.json()
        got, prob = v2.observed(doc)
        exp = v2.resolve(content)
        d = prob + diff_json(exp, got)
        if d:
            c.violation(key, "the resolved registry differs from its definitions:\n" + "\n".join(d), keep=root)
            return
        for part in ("registry", "refinements"):
            for s, items in got[part].items():
                c.count(f"{part}_{s}", len(items))
        bad = provenance_problems(doc, files, root)
        if bad:
            c.violation(key + "/provenance", "\n".join(bad[:6]), keep=root)
        for s, items in doc["registry"].items():
            ks = [it[{"attributes": "key", "attribute_groups": "id", "spans": "type", "metrics": "name",
                      "events": "name", "entities": "type"}[s]] for it in items]
            if ks != sorted(ks, key=lambda x: x.encode()):
                c.count("unsorted_sections")
        if i % 4 == 0:
            ry = c.run(["registry", "resolve", "-r", root, "--v2", "--format", "yaml"])
            d = diff_json(doc, yaml_load(ry.out))
            if d:
                c.violation(key + "/format", "yaml output differs from json:\n" + "\n".join(d), keep=root)
            c.count("formats_compared")
        if i % 3 == 0:
            d = v1_view(c, root, content, exp)
            if d:
                c.violation(key + "/v1view", "the v1 view differs:\n" + "\n".join(d), keep=root)
            c.count("v1_views")

    c.map(case, range(c.n(1200, 12000)))
    annotations_probe(c)
    return c.finish()


def v1_view(c, root, content, exp):
    """The v1 view of a v2 registry: one group per definition, none per refinement."""
    r = c.run(["registry", "resolve", "-r", root, "--format", "json"])
    if r.rc != 0:
        return ["rejected: " + r.err[-500:]]
    groups = {g["id"]: g for g in r.json()["groups"]}
    out = []
    want = {}
    for t, s in (("span", "spans"), ("metric", "metrics"), ("event", "events"), ("entity", "entities")):
        for n, o in exp["registry"][s].items():
            want[f"{t}.{n}"] = (t, o)
    for g in content.get("attribute_groups", []):
        if g["visibility"] == "public":
            want[g["id"]] = ("attribute_group", exp["registry"]["attribute_groups"][v2.strip("attribute_group", g["id"])])
    have = {k for k, g in groups.items() if not k.startswith("registry.")}
    if have != set(want):
        out.append(f"groups {sorted(have ^ set(want))} in only one view")
    for gid, (t, o) in want.items():
        g = groups.get(gid)
        if not g:
            continue
        e = {"type": t, "brief": o["brief"], "stability": o["stability"]}
        for f in ("note", "deprecated", "annotations", "unit", "instrument"):
            if f in o:
                e[f] = o[f]
        if t == "metric":
            e["metric_name"] = o["name"]
        if t == "span":
            e["span_kind"] = o["kind"]
        if t in ("event",):
            e["name"] = o["name"]
        attrs = o.get("attributes", []) + o.get("identity", []) + o.get("description", [])
        ea = []
        for a in sorted(attrs, key=lambda a: a["key"].encode()):
            a = dict(a)
            a["name"] = a.pop("key")
            ea.append(a)
        e["attributes"] = ea
        gg = {k: g.get(k) for k in e}
        gg["attributes"] = [{k: v for k, v in a.items() if k not in ("role",)} for a in g.get("attributes", [])]
        for a, b in zip(ea, gg["attributes"]):
            if "sampling_relevant" in b and "sampling_relevant" not in a:
                del b["sampling_relevant"]
        out += diff_json(e, gg, gid)
    return out


def annotations_probe(c):
    """Annotations set both on the definition and on the reference (see known_findings.json)."""
    root = c.dir("probe/reg")
    reg.write_tree(root, {"a.yaml": {"file_format": "definition/2", "attributes": [
        {"key": "p.a", "type": "int", "brief": "b", "stability": "stable", "annotations": {"owner": {"team": "x"}}}],
        "metrics": [{"name": "p.m", "brief": "b", "stability": "stable", "unit": "1", "instrument": "counter",
                     "attributes": [{"ref": "p.a", "annotations": {"tier": 1}}]}]}})
    r = c.run(["registry", "resolve", "-r", root, "--v2", "--format", "json"])
    c.saw("probe")
    if r.rc != 0:
        c.violation("annotations-probe-rejected", r.brief(), keep=root)
        return
    got = r.json()["registry"]["metrics"][0]["attributes"][0].get("annotations")
    if got == {"tier": 1}:
        c.violation("annotations-of-reference-replace-definition",
                    "the published schema says a reference's annotations are merged with the definition's; the "
                    f"definition's are dropped: {got}", keep=root)
    elif got != {"owner": {"team": "x"}, "tier": 1}:
        c.violation("annotations-probe", f"unexpected annotations {got}", keep=root)
