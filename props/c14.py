"""C14: viewing v1 definitions as v2 keeps the information.

Generated v1 registries (with extends chains, associations, own attributes, and attributes that several groups refine in
different ways, alone or on top of a dependency) are resolved in both formats, and both views are compared through a mapping
written here. The v2 view and the package are also checked for references that lead nowhere."""
import json
import os

from lib import reg, v1, v2
from lib.common import Check, diff_json, stable_hash
from props import c06

SECTION = {"span": "spans", "metric": "metrics", "event": "events", "entity": "entities"}
KEY = {"attributes": "key", "attribute_groups": "id", "spans": "type", "metrics": "name", "events": "name",
       "entities": "type"}


def strip(t, s):
    return s[len(t) + 1:] if s.startswith(t + ".") else s


def attr2(a, span=False):
    o = {"key": a["name"], "type": a["type"], "brief": a.get("brief", ""), "stability": a.get("stability", "development"),
         "requirement_level": a["requirement_level"]}
    for f in ("examples", "note", "deprecated", "annotations"):
        if a.get(f) is not None:
            o[f] = a[f]
    if span and a.get("sampling_relevant") is not None:
        o["sampling_relevant"] = a["sampling_relevant"]
    return o


def common2(g):
    o = {"brief": g.get("brief", ""), "stability": g.get("stability", "development")}
    for f in ("note", "deprecated", "annotations", "requirement_level"):
        if g.get(f):
            o[f] = g[f]
    return o


def assoc2(l):
    return [{k: assoc2(v) for k, v in e.items()} if isinstance(e, dict) else {"type": e} for e in l]


def mapping(doc, sources):
    """The v2 view of a resolved v1 document; `sources` are the definitions by id, those of a dependency included."""
    res = {s: {} for s in KEY}
    ref = {s: {} for s in SECTION.values()}
    defs = {}
    for g in doc["groups"]:
        own = {a["id"] for a in sources[g["id"]].get("attributes", []) if "id" in a}
        for a in g.get("attributes", []):
            if a["name"] in own:
                o = attr2(a)
                del o["requirement_level"]
                defs[a["name"]] = o
        t = {"resource": "entity"}.get(g["type"], g["type"])
        if t not in SECTION:
            continue
        s = SECTION[t]
        o = common2(g)
        attrs = g.get("attributes", [])
        if t == "entity":
            o["identity"] = [attr2(a) for a in attrs if a.get("role") == "identifying"]
            o["description"] = [attr2(a) for a in attrs if a.get("role") != "identifying"]
        else:
            o["attributes"] = [attr2(a, t == "span") for a in attrs]
        if g.get("entity_associations"):
            o["entity_associations"] = assoc2(g["entity_associations"])
        root = sources[g["id"]]
        refines = False
        while True:
            p = sources.get(root.get("extends"))
            if p is None or p["type"] != root["type"]:
                break
            root, refines = p, True
        if t == "span":
            o["type"], o["kind"] = strip("span", root["id"]), g.get("span_kind", "internal")
            o["name"] = {"note": g.get("name", "")}
        elif t == "metric":
            o["name"], o["unit"], o["instrument"] = g["metric_name"], g["unit"], g["instrument"]
        elif t == "event":
            o["name"] = g["name"]
        else:
            o["type"] = root.get("name") or strip("entity", root["id"])
        key = o[KEY[s]]
        if refines:
            key = strip(t, g["id"])
        else:
            res[s][key] = o
        ref[s][key] = {"id": key, **o}
    res["attributes"] = defs
    return {"registry": res, "refinements": ref}


def leaves(l):
    for e in l:
        if "type" in e:
            yield e
        else:
            for v in e.values():
                yield from leaves(v)


def closed(doc):
    """-> list of references of a v2 view that lead nowhere"""
    bad = []
    ents = {e["id"] for e in doc["refinements"]["entities"]}
    keys = {a["key"] for a in doc["registry"]["attributes"]}
    for part in ("registry", "refinements"):
        for s in SECTION.values():
            for x in doc[part][s]:
                who = f"{part}.{s} {x.get('id') or x[KEY[s]]}"
                for e in leaves(x.get("entity_associations", [])):
                    if e["type"] not in ents:
                        bad.append(f"{who}: associated with {e['type']}, which is no entity of the view")
                for f in ("attributes", "identity", "description"):
                    for a in x.get(f, []):
                        if a["key"] not in keys:
                            bad.append(f"{who}: attribute {a['key']} is not in registry.attributes")
    for s in ("spans", "entities"):
        names = {x["type"] for x in doc["registry"][s]}
        for x in doc["refinements"][s]:
            if x["type"] not in names:
                bad.append(f"refinements.{s} {x['id']}: refines {x['type']}, which the view does not hold")
    return bad


def make(rng, i):
    """-> (groups of the registry, groups of its dependency or None)"""
    groups = v1.deep_groups(rng) if i % 6 == 5 else v1.gen(rng, size=rng.choice([None, None, 12]))
    # the same attribute in many shapes: variants that differ in one field alone
    if rng.random() < 0.5:
        names = [a["id"] for g in groups for a in g.get("attributes", []) if "id" in a]
        n = rng.choice(names)
        for k in range(rng.randint(2, 6)):
            a = {"ref": n}
            f = rng.choice(["brief", "note", "requirement_level", "sampling_relevant", "stability", "role", "annotations",
                            "deprecated", None])
            if f == "requirement_level":
                a[f] = rng.choice(["required", "opt_in", {"conditionally_required": "x"}, {"recommended": "y"}])
            elif f == "sampling_relevant":
                a[f] = rng.choice([True, False])
            elif f == "stability":
                a[f] = rng.choice(v1.STAB)
            elif f == "role":
                a[f] = rng.choice(["identifying", "descriptive"])
            elif f == "annotations":
                a[f] = v1.annotations(rng)
            elif f == "deprecated":
                a[f] = v1.deprecated(rng, ["other.thing"])
            elif f:
                a[f] = rng.choice(["variant one", "variant two", f"v {k}"])
            t = rng.choice(["span", "entity", "metric", "event"])
            g = {"id": f"{t}.var{k}", "type": t, "brief": "b", "stability": rng.choice(v1.STAB), "attributes": [a]}
            if t == "span":
                if rng.random() < 0.8:
                    g["span_kind"] = rng.choice(["client", "server", "producer", "consumer", "internal"])
                else:
                    g["span_kind"] = "internal"
            elif t == "metric":
                g.update(metric_name=f"var.m{k}", instrument=rng.choice(["counter", "gauge", "updowncounter", "histogram"]),
                         unit=rng.choice(["1", "s"]))
            elif rng.random() < 0.7 or t == "event":
                g["name"] = f"var.{t}{k}"
            same = [x["id"] for x in groups if x["type"] == t]
            if same and rng.random() < 0.5:
                g["extends"] = rng.choice(same)
            groups.append(g)
    dep = None
    if rng.random() < 0.25:
        # what nothing of the registry proper depends on the other way round becomes the dependency
        dep = [g for g in groups if g["id"].startswith("registry.") and g["type"] == "attribute_group"]
        groups = [g for g in groups if g not in dep]
        if not groups:
            groups, dep = dep, None
    return groups, dep


def case(c, i):
    rng = c.rng("case", i)
    base = c.dir(f"k{i}")
    groups, dep = make(rng, i)
    key = f"case {i}"
    root = f"{base}/src"
    deps = []
    if dep:
        reg.write_tree(f"{base}/dep", v1.split_files(rng, dep, rng.randint(1, 3)), rng,
                       manifest=reg.manifest("https://example.test/dep/1.2.0"))
        deps = [{"schema_url": "https://example.test/dep/1.2.0", "registry_path": f"{base}/dep"}]
    spell = [v1.surface(rng, g) for g in groups]
    reg.write_tree(root, v1.split_files(rng, spell, rng.randint(1, 5)), rng,
                   manifest=reg.manifest("https://example.test/src/1.0.0", deps) if deps or rng.random() < 0.7 else None)
    flags = ["--include-unreferenced"] if dep and rng.random() < 0.4 else []
    one = c.run(["registry", "resolve", "-r", root, "-f", "json", "--skip-policies", *flags])
    two = c.run(["registry", "resolve", "-r", root, "-f", "json", "--skip-policies", "--v2", *flags])
    if one.timed_out or two.timed_out:
        raise RuntimeError("timeout")
    if one.rc != 0:
        raise RuntimeError("resolve failed: " + one.brief())
    if two.rc != 0 or two.panicked:
        c.violation(f"{key}/fails", "the registry resolves in the v1 format and not in the v2 format\n" + two.brief(), base)
        return
    sources = {g["id"]: g for g in groups + (dep or [])}
    want = mapping(json.loads(one.out), sources)
    doc = json.loads(two.out)
    got, problems = v2.observed(doc)
    got["registry"].pop("attribute_groups", None)
    want["registry"].pop("attribute_groups", None)
    if flags:
        # definitions of a dependency: whether they count as the registry's own is judged by C05
        for x in (want, got):
            x["registry"]["attributes"] = {k: v for k, v in x["registry"]["attributes"].items()
                                           if any(a.get("id") == k for g in groups for a in g.get("attributes", []))}
    d = diff_json(clean(want), clean(got))
    if d or problems:
        c.violation(f"{key}/views", "the v2 view differs from the v1 view:\n" + "\n".join(problems + d), base)
        return
    if not dep:
        bad = closed(doc)
        if bad:
            c.violation(f"{key}/closed", "\n".join(bad[:8]), base)
            return
    n = sum(len(v) for p in want.values() for v in p.values())
    c.count("items", n)
    c.count("refinements", sum(len(v) for v in want["refinements"].values()) - sum(
        len(v) for s, v in want["registry"].items() if s in want["refinements"]))
    c.count("attribute_lists", sum(len(v) for v in want["refinements"].values()))
    c.count("with_dependency", 1 if dep else 0)
    c.saw(stable_hash(want), n=n, sample={"case": i, "items": n, "dependency": bool(dep)})
    if not dep and i % 3 == 0:
        p = c06.package(c, root, f"{base}/pkg", "resolved.yaml", "--skip-policies")
        if not os.path.exists(f"{root}/manifest.yaml"):
            return
        if p.rc != 0:
            c.violation(f"{key}/package", "the registry resolves in the v2 format and cannot be packaged\n" + p.brief(), base)
            return
        from props.c02 import yaml_load
        with open(f"{base}/pkg/resolved.yaml") as f:
            raw = yaml_load(f.read())
        dec, bad = c06.decode(raw)
        if bad:
            c.violation(f"{key}/package", "references of the package that lead nowhere: " + "; ".join(bad[:5]), base)
            return
        pk, problems = v2.observed(dec)
        pk["registry"].pop("attribute_groups", None)
        d = diff_json(clean(want), clean(pk))
        if d or problems:
            c.violation(f"{key}/package", "the package differs from the v1 view:\n" + "\n".join(problems + d), base)
        c.count("packages")


def clean(x):
    """Empty and missing mean the same"""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items() if v not in (None, "", {}) and not (k in ("attributes", "identity",
                                                                                        "description") and v == [])}
    if isinstance(x, list):
        return [clean(v) for v in x]
    return x


def main(tier, seed):
    c = Check("C14", tier, seed, "exploration",
              "A case is a registry resolved in both formats; each signal, refinement and attribute compared is one evaluation. "
              "Distinct: by the expected v2 view.",
              ["the v1 view itself is judged by C02",
               "what the v2 format has no place for (event bodies, tags, display names, attribute groups of v1) is not compared",
               "a signal that extends one of its own type is a refinement in the v2 view"])
    c.setup()
    c.map(lambda i: case(c, i), range(c.n(500, 8000)))
    return c.finish()
