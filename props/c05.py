"""C05: dependencies bring in exactly what is imported or referenced, or fail.

A registry with dependencies must resolve its own items as if all registries were one (the union
model), and hold its own items plus exactly those its imports match. Failure scenarios are planted
one at a time, and the order in which dependencies are listed is varied."""
import copy
import fnmatch
import json
import os

from lib import reg, v1, v2
from lib.common import Check, diff_json, stable_hash

FIELDS = {"metrics": "metrics", "events": "events", "spans": "spans", "entities": "entities",
          "attribute_groups": "attribute_groups"}
KEY = {"metrics": "name", "events": "name", "spans": "type", "entities": "type", "attribute_groups": "id"}


def url(name, version="1.0.0"):
    return f"https://example.test/{name}/{version}"


def glob_match(pat, name):
    """The part of glob syntax the generator uses: * and ? (a dot is an ordinary character), [..] and {a,b}."""
    if "{" in pat:
        i, j = pat.index("{"), pat.index("}")
        return any(glob_match(pat[:i] + alt + pat[j + 1:], name) for alt in pat[i + 1:j].split(","))
    return fnmatch.fnmatchcase(name, pat)


def patterns_for(rng, names, ns, other):
    """Patterns over the exported names of one kind; `other` are names they must not be about."""
    out = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        if not names:
            break
        n = rng.choice(names)
        r = rng.random()
        if r < 0.4:
            out.append(n)
        elif r < 0.6:
            out.append(n[:rng.randint(len(ns), max(len(ns), len(n) - 1))] + "*")
        elif r < 0.7:
            out.append(n[:-1] + "?")
        elif r < 0.8 and len(names) > 1:
            out.append("{" + ",".join(rng.sample(names, 2)) + "}")
        elif r < 0.9:
            out.append("*" + n[max(len(ns), len(n) - 4):])
        else:
            out.append(n[:-1] + "[" + n[-1] + "#]")
    return out


# ------------------------------------------------------------------ v2
def exported(node, nodes):
    """What a dependent can import from this registry: its own definitions and what it imports itself."""
    out = {f: [it[KEY[f]] for it in node["content"].get(f, [])] for f in FIELDS}
    return {f: out[f] + sorted(node["imported"][f]) for f in FIELDS}


def enrich(rng, node, deps, nodes):
    """References, refinements and associations that reach into the direct dependencies."""
    con = node["content"]
    attrs = [a["key"] for d in deps for a in nodes[d]["content"].get("attributes", [])]
    # a signal that includes two attribute groups with a common attribute is invalid
    free = attrs[:]
    rng.shuffle(free)
    for s in ("spans", "metrics", "events", "attribute_groups", "span_refinements", "metric_refinements",
              "event_refinements"):
        kind = s.split("_")[0].rstrip("s")
        for g in con.get(s, []):
            if attrs and rng.random() < 0.6:
                have = {a.get("ref") for a in g.get("attributes", [])}
                pick = rng.sample(attrs, min(len(attrs), rng.randint(1, 3)))
                if s == "attribute_groups":
                    pick = [free.pop() for _ in range(min(len(free), rng.randint(1, 3)))]
                for n in pick:
                    if n not in have:
                        a = v1.attr_ref(rng, n, v2=True, kind="span" if kind == "span" else "metric")
                        a.pop("annotations", None)
                        g.setdefault("attributes", []).append(a)
    ents = [e["type"] for d in deps for e in nodes[d]["content"].get("entities", [])]
    for s in ("spans", "metrics", "events"):
        for g in con.get(s, []):
            if ents and rng.random() < 0.3:
                g["entity_associations"] = g.get("entity_associations", []) + v1.assoc(rng, ents)
    for d in deps:
        for t, s in (("span", "spans"), ("metric", "metrics"), ("event", "events")):
            for g in nodes[d]["content"].get(s, []):
                if rng.random() < 0.3:
                    r = v2.refine_common(rng, {"id": f"{node['ns']}over.{g[KEY[s]]}", "ref": g[KEY[s]]})
                    r.pop("annotations", None)
                    own = [a["key"] for a in con["attributes"]]
                    pick = rng.sample(own, min(len(own), rng.randint(0, 2))) + \
                        rng.sample(attrs, min(len(attrs), rng.randint(0, 3)))
                    at = []
                    for n in dict.fromkeys(pick):
                        a = v1.attr_ref(rng, n, v2=True, kind=t)
                        a.pop("annotations", None)
                        at.append(a)
                    if at:
                        r["attributes"] = at
                    con.setdefault(f"{t}_refinements", []).append(r)
    v2.need_notes(rng, con)


def plain_group_names(con):
    """Attribute groups keep ids that no other kind of pattern could also match."""
    return con


def write_v2(rng, base, node, nodes, order=None):
    root = f"{base}/{node['name']}-{node['version']}"
    files = v2.split_files(rng, node["content"], rng.randint(1, 3))
    if node["patterns"]:
        p = sorted(files)[0]
        files[p]["imports"] = node["patterns"]
    deps = [{"schema_url": url(nodes[d]["name"], nodes[d]["version"]),
             "registry_path": f"{base}/{nodes[d]['name']}-{nodes[d]['version']}"} for d in (order or node["deps"])]
    reg.write_tree(root, files, rng, manifest=reg.manifest(url(node["name"], node["version"]), deps))
    return root


def gen_graph(rng):
    k = rng.randint(2, 5)
    nodes = []
    for i in range(k):
        ns = f"n{i}."
        deps = [] if i == 0 else sorted(rng.sample(range(i), min(i, rng.choice([1, 1, 2, 3]))))
        if i == k - 1 and not deps:
            deps = [i - 1]
        con = {s: v for s, v in v2.gen(rng, ns=ns, size=rng.randint(1, 5), n_attr=rng.randint(2, 6)).items()}
        node = {"name": f"reg{i}", "version": "1.0.0", "ns": ns, "content": con, "deps": deps, "patterns": {},
                "imported": {f: {} for f in FIELDS}}
        enrich(rng, node, deps, nodes)
        if deps and rng.random() < 0.8:
            for f in FIELDS:
                names = sorted({n for d in deps for n in exported(nodes[d], nodes)[f]})
                # one namespace per registry: a pattern never starts with a wildcard over everything
                pats = patterns_for(rng, names, "n0.", None)
                if pats:
                    node["patterns"][f] = pats
                    for d in deps:
                        for n in exported(nodes[d], nodes)[f]:
                            if any(glob_match(p, n) for p in pats):
                                owner = d if n in [it[KEY[f]] for it in nodes[d]["content"].get(f, [])] \
                                    else nodes[d]["imported"][f][n]
                                node["imported"][f][n] = owner
        nodes.append(node)
    return nodes


def union(nodes):
    out = {}
    for n in nodes:
        for s, items in n["content"].items():
            out.setdefault(s, []).extend(items)
    return out


def expected_v2(nodes, i):
    full = v2.resolve(union(nodes))
    node = nodes[i]
    own = v2.resolve_names(node["content"]) if hasattr(v2, "resolve_names") else None
    exp = {"registry": {}, "refinements": {}}
    for f in list(FIELDS) + ["attributes"]:
        keyf = KEY.get(f, "key")
        mine = {it[keyf] for it in node["content"].get(f, [])}
        if f == "attribute_groups":
            mine = {v2.strip("attribute_group", x) for x in mine}
        mine |= set(node["imported"].get(f, {}))
        exp["registry"][f] = {n: o for n, o in full["registry"][f].items() if n in mine}
    for t, f in (("span", "spans"), ("metric", "metrics"), ("event", "events"), ("entity", "entities")):
        mine = {it[KEY[f]] for it in node["content"].get(f, [])} | set(node["imported"][f])
        mine |= {v2.strip(t, r["id"]) for r in node["content"].get(f"{t}_refinements" if t != "entity"
                                                                   else "entity_refinements", [])}
        exp["refinements"][f] = {n: o for n, o in full["refinements"][f].items() if n in mine}
    return exp, full


def drop_assoc_provenance(x):
    return x


def sources(doc, nodes, i):
    """Provenance: every item and attribute names the registry that defines it."""
    owner = {}
    for j, n in enumerate(nodes):
        for f in list(FIELDS) + ["attributes"]:
            for it in n["content"].get(f, []):
                owner[(f, it[KEY.get(f, "key")])] = j
        for t, f in (("span", "spans"), ("metric", "metrics"), ("event", "events"), ("entity", "entities")):
            for r in n["content"].get(f"{'entity' if t == 'entity' else t}_refinements", []):
                owner.setdefault((f"r{f}", v2.strip(t, r["id"])), j)
    bad = []

    def want(j):
        return None if j == i else url(nodes[j]["name"], nodes[j]["version"])

    def look(what, it, j):
        got = (it.get("provenance") or {}).get("source")
        if j is not None and got != want(j):
            bad.append(f"{what}: source {got} instead of {want(j)}")

    for part in ("registry", "refinements"):
        for f, items in doc[part].items():
            for it in items:
                n = it[KEY.get(f, "key")] if part == "registry" else it["id"]
                j = owner.get((f, n))
                if part == "refinements" and j is None:
                    j = owner.get((f"r{f}", n))
                look(f"{part}.{f} {n}", it, j)
                for a in it.get("attributes", []) + it.get("identity", []) + it.get("description", []):
                    look(f"{part}.{f} {n} attribute {a['key']}", a, owner.get(("attributes", a["key"])))
    return bad


def unmatched(r):
    """The patterns reported as matching nothing."""
    out = []
    for d in reg.diags(r):
        e = d.get("error")
        for k, v in (e.items() if isinstance(e, dict) else []):
            if k == "UnmatchedImport":
                out += [x for x in v.values() if isinstance(x, str)]
    return out


def case_v2(c, i):
    rng = c.rng("v2", i)
    nodes = gen_graph(rng)
    base = c.dir(f"v2-{i}")
    roots = [write_v2(rng, base, n, nodes) for n in nodes]
    last = len(nodes) - 1
    targets = [last] if rng.random() < 0.7 or last < 2 else [last, rng.randrange(1, last)]
    for t in targets:
        if not nodes[t]["deps"]:
            continue
        r = c.run(["registry", "resolve", "-r", roots[t], "--v2", "--format", "json", "--diagnostic-format", "json"])
        if r.timed_out:
            c.count("timeouts")
            continue
        key = f"graph{i}/{t}"
        if r.rc == 0:
            # every generated pattern matches something: none may be reported as unmatched
            hidden = {g["id"] for n in nodes for g in n["content"].get("attribute_groups", [])
                      if g.get("visibility") != "public"}
            said = unmatched(r)
            wrong = [p for f, ps in nodes[t]["patterns"].items() for p in ps if p in said and
                     any(glob_match(p, n) and n not in hidden for d in nodes[t]["deps"] for n in exported(nodes[d], nodes)[f])]
            c.count("patterns_judged", sum(len(ps) for ps in nodes[t]["patterns"].values()))
            if wrong:
                c.violation(key + "/unmatched", f"patterns that match are reported as unmatched: {wrong}\n" + r.brief(),
                            keep=base)
        n_imp = sum(len(x) for x in nodes[t]["imported"].values())
        c.saw(stable_hash([i, t]), sample={"registries": len(nodes), "deps": nodes[t]["deps"], "imported": n_imp,
                                           "patterns": nodes[t]["patterns"]})
        c.count("imported_items", n_imp)
        if r.rc != 0:
            c.violation(key, "a valid registry with dependencies is rejected\n" + r.brief(), keep=base)
            continue
        doc = r.json()
        raw = copy.deepcopy(doc)
        got, prob = v2.observed(doc)
        exp, full = expected_v2(nodes, t)
        # refinements a dependency holds of an imported signal may come along
        for f, d in got["refinements"].items():
            for n in list(d):
                if n not in exp["refinements"][f] and n in full["refinements"][f]:
                    other = {v2.strip({"entities": "entity"}.get(f, f[:-1]), x["id"]) for m in nodes
                             for x in m["content"].get({"entities": "entity"}.get(f, f[:-1]) + "_refinements", [])}
                    if n in other:
                        del d[n]
        # so may the attribute group that a definition file stands for
        d = prob + diff_json(exp, got)
        if d:
            c.violation(key, "the resolved registry differs from the union model:\n" + "\n".join(d), keep=base)
            continue
        bad = sources(raw, nodes, t)
        if bad:
            c.violation(key + "/provenance", "\n".join(bad[:6]), keep=base)
        c.count("items_compared", sum(len(x) for p in got.values() for x in p.values()))
        if len(nodes[t]["deps"]) > 1:
            order = nodes[t]["deps"][:]
            rng.shuffle(order)
            if order == nodes[t]["deps"]:
                order.reverse()
            mf = os.path.join(roots[t], "manifest.yaml")
            deps = [{"schema_url": url(nodes[x]["name"]), "registry_path": roots[x]} for x in order]
            os.unlink(mf)
            reg.write_tree(roots[t], {}, manifest=reg.manifest(url(nodes[t]["name"]), deps))
            r2 = c.run(["registry", "resolve", "-r", roots[t], "--v2", "--format", "json"])
            c.saw(stable_hash([i, t, "order"]))
            c.count("orders_compared")
            if r2.rc != 0 or diff_json(raw, r2.json()):
                c.violation(key + "/order", "listing the dependencies in another order changes the result:\n" +
                            ("\n".join(diff_json(raw, r2.json())) if r2.rc == 0 else r2.brief()), keep=base)
    # an import that matches nothing is reported, and nothing else changes
    if rng.random() < 0.3:
        t = last
        root = roots[t]
        p = sorted(f for f in os.listdir(root) if f != "manifest.yaml")
        f = rng.choice(sorted(FIELDS))
        pat = f"nothing.here{rng.randrange(99)}*"
        reg.write_tree(root, {"zz/extra.yaml": {"file_format": "definition/2", "imports": {f: [pat]}}})
        r = c.run(["registry", "resolve", "-r", root, "--v2", "--format", "json", "--diagnostic-format", "json"])
        c.saw(stable_hash([i, "unmatched", f]))
        if r.rc != 0 or pat not in r.err:
            c.violation(f"graph{i}/unmatched", f"the unmatched import {pat} of {f} is not reported\n" + r.brief(), keep=base)
        elif not r.out.strip() or v2.observed(r.json())[0]["registry"] != v2.observed(c.run(
                ["registry", "resolve", "-r", root, "--v2", "--format", "json"]).json())[0]["registry"]:
            c.violation(f"graph{i}/unmatched", "results differ between runs", keep=base)


# ------------------------------------------------------------------ v1
def rename(x, m):
    """Renames every definition of a v1 registry and the references to it."""
    if isinstance(x, list):
        return [rename(v, m) for v in x]
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if k in ("annotations", "body", "brief", "note", "deprecated", "members", "type"):
                out[k] = v
            elif k in ("id", "ref", "extends", "metric_name", "name") and isinstance(v, str):
                out[k] = m(k, v)
            elif k == "entity_associations":
                out[k] = assoc_names(v, m)
            elif k == "events":
                out[k] = [m("id", e) for e in v]
            else:
                out[k] = rename(v, m)
        return out
    return x


def assoc_names(l, m):
    return [m("name", e) if isinstance(e, str) else {k: assoc_names(v, m) for k, v in e.items()} for e in l]


def gen_v1(rng, ns):
    gs = v1.gen(rng, size=rng.randint(2, 5))
    gids = {g["id"] for g in gs}
    ext = {g["id"][7:]: g["id"] for g in gs if g["id"].startswith("entity.")}

    def m(k, v):
        if v in gids:
            head, _, rest = v.partition(".")
            return f"{head}.{ns}{rest}"
        return ns + v
    return [rename(g, m) for g in gs]


def v1_import_keys(g):
    t = g["type"]
    if t in ("attribute_group", "span"):
        return [g["id"]]
    if t == "metric":
        return [g["metric_name"]]
    if t == "event":
        return [g["name"]]
    return [g["id"], g["id"][7:], g["name"]]


V1F = {"metric": "metrics", "event": "events", "span": "spans", "entity": "entities",
       "attribute_group": "attribute_groups"}


def case_v1(c, i):
    rng = c.rng("v1", i)
    nodes = []
    k = rng.randint(2, 4)
    for j in range(k):
        ns = f"n{j}."
        gs = gen_v1(rng, ns)
        deps = [] if j == 0 else sorted(rng.sample(range(j), min(j, rng.choice([1, 1, 2]))))
        dattrs = [a["id"] for d in deps for g in nodes[d]["groups"] for a in g.get("attributes", []) if "id" in a]
        dgroups = [g for d in deps for g in nodes[d]["groups"]]
        dents = [n for d in deps for n in v1.entity_names(nodes[d]["groups"])]
        own_ext = {g.get("extends") for g in gs}
        for g in gs:
            if g["id"].startswith("registry."):
                continue
            if dattrs and rng.random() < 0.5:
                have = {a.get("ref") for a in g.get("attributes", [])}
                for n in rng.sample(dattrs, min(len(dattrs), rng.randint(1, 3))):
                    if n not in have:
                        a = v1.attr_ref(rng, n)
                        a.pop("annotations", None)
                        g.setdefault("attributes", []).append(a)
            if dgroups and "extends" not in g and rng.random() < 0.4 and g["type"] != "entity":
                p = rng.choice(dgroups)
                if p["type"] != "entity":
                    g["extends"] = p["id"]
            if dents and g["type"] in ("span", "metric", "event") and rng.random() < 0.3:
                g["entity_associations"] = g.get("entity_associations", []) + v1.assoc(rng, dents)
        node = {"name": f"reg{j}", "version": "1.0.0", "ns": ns, "groups": gs, "deps": deps, "patterns": {}, "imported": {}}
        avail = {}
        for d in deps:
            for g in nodes[d]["groups"]:
                avail[g["id"]] = (g, d)
            for gid, (g, o) in nodes[d]["imported"].items():
                avail[gid] = (g, o)
        if deps and rng.random() < 0.8:
            for t, f in V1F.items():
                names = sorted({x for g, _ in avail.values() if g["type"] == t for x in v1_import_keys(g)})
                pats = patterns_for(rng, names, names[0][:len(t) + 1] if names else "", None)
                if pats:
                    node["patterns"][f] = pats
                    for gid, (g, o) in avail.items():
                        if g["type"] == t and any(glob_match(p, x) for p in pats for x in v1_import_keys(g)):
                            node["imported"][gid] = (g, o)
        nodes.append(node)
    base = c.dir(f"v1-{i}")
    roots = []
    for n in nodes:
        root = f"{base}/{n['name']}"
        files = v1.split_files(rng, n["groups"], rng.randint(1, 3))
        if n["patterns"]:
            files[sorted(files)[0]]["imports"] = n["patterns"]
        reg.write_tree(root, files, rng, manifest=reg.manifest(url(n["name"]), [
            {"schema_url": url(nodes[d]["name"]), "registry_path": f"{base}/{nodes[d]['name']}"} for d in n["deps"]]))
        roots.append(root)
    t = k - 1
    r = c.run(["registry", "resolve", "-r", roots[t], "--format", "json"])
    if r.timed_out:
        c.count("timeouts")
        return
    key = f"v1graph{i}"
    c.saw(stable_hash(["v1", i]), sample={"registries": k, "imported": sorted(nodes[t]["imported"])[:5]})
    if r.rc != 0:
        c.violation(key, "a valid registry with dependencies is rejected\n" + r.brief(), keep=base)
        return
    got = {}
    prob = []
    for g in r.json()["groups"]:
        l = g.pop("lineage", None) or {}
        if g["id"] in got:
            prob.append(f"group {g['id']} appears twice")
        got[g["id"]] = g
        o = t if g["id"] in {x["id"] for x in nodes[t]["groups"]} else nodes[t]["imported"].get(g["id"], (0, None))[1]
        if o is not None:
            u = (l.get("provenance") or {}).get("schema_url")
            if u != url(nodes[o]["name"]):
                prob.append(f"{g['id']}: provenance {u} instead of {url(nodes[o]['name'])}")
    full = v1.resolve([g for n in nodes for g in n["groups"]])
    want = {g["id"] for g in nodes[t]["groups"]} | set(nodes[t]["imported"])
    d = prob + diff_json({k: v for k, v in full.items() if k in want}, got)
    if d:
        c.violation(key, "the resolved registry differs from the union model:\n" + "\n".join(d), keep=base)
        return
    c.count("v1_groups_compared", len(got))
    if len(nodes[t]["deps"]) > 1:
        reg.write_tree(roots[t], {}, manifest=reg.manifest(url(nodes[t]["name"]), [
            {"schema_url": url(nodes[d]["name"]), "registry_path": roots[d]} for d in reversed(nodes[t]["deps"])]))
        r2 = c.run(["registry", "resolve", "-r", roots[t], "--format", "json"])
        c.count("orders_compared")
        if r2.rc != 0 or diff_json(r.json(), r2.json()):
            c.violation(key + "/order", "listing the dependencies in another order changes the result", keep=base)
    # everything: --include-unreferenced
    if i % 3 == 0:
        r = c.run(["registry", "resolve", "-r", roots[t], "--format", "json", "--include-unreferenced"])
        if r.rc != 0:
            c.violation(key + "/unreferenced", r.brief(), keep=base)
            return
        c.count("include_unreferenced")
        direct = {}
        reach = set()
        stack = [t]
        got = {g["id"] for g in r.json()["groups"]}
        must = want | {g["id"] for d in nodes[t]["deps"] for g in nodes[d]["groups"]}
        if not must <= got:
            c.violation(key + "/unreferenced", f"missing with --include-unreferenced: {sorted(must - got)[:6]}", keep=base)


# ------------------------------------------------------------------ failures and versions
def mini(ns, n=3, **kw):
    con = {"file_format": "definition/2",
           "attributes": [{"key": f"{ns}a{j}", "type": "int", "brief": f"{ns} attr {j}", "stability": "stable"} for j in range(n)],
           "metrics": [{"name": f"{ns}m", "brief": f"{ns} metric", "unit": "1", "instrument": "counter", "stability": "stable",
                        "attributes": [{"ref": f"{ns}a0"}]}],
           "spans": [{"type": f"{ns}s", "kind": "client", "name": {"note": "n"}, "brief": f"{ns} span", "stability": "stable",
                      "attributes": [{"ref": f"{ns}a0"}]}],
           "events": [{"name": f"{ns}ev", "brief": f"{ns} event", "stability": "stable", "attributes": [{"ref": f"{ns}a1"}]}],
           "entities": [{"type": f"{ns}e", "brief": f"{ns} entity", "stability": "stable", "identity": [{"ref": f"{ns}a0"}]}]}
    con.update(kw)
    return con


HIDE = {"dependency_resolution": {"exclude": True}}


class Lab:
    """A scratch area where registries are written by name."""

    def __init__(self, c, name):
        self.c, self.base = c, c.dir(name)

    def write(self, folder, name, version, docs, deps=(), declared=None):
        d = [{"schema_url": u, "registry_path": f"{self.base}/{p}"} for p, u in deps]
        if isinstance(docs, dict) and "file_format" in docs:
            docs = {"a.yaml": docs}
        reg.write_tree(f"{self.base}/{folder}", docs, manifest=reg.manifest(declared or url(name, version), d))
        return f"{self.base}/{folder}"

    def resolve(self, folder, *args):
        return self.c.run(["registry", "resolve", "-r", f"{self.base}/{folder}", "--v2", "--format", "json",
                           "--diagnostic-format", "json", *args])

    def expect_fail(self, key, folder, words, *args):
        r = self.resolve(folder, *args)
        if r.timed_out:
            self.c.count("timeouts")
            return
        self.c.saw(stable_hash([key, self.base]), sample={"scenario": key, "exit": r.rc})
        self.c.count("scenario_" + key.split("/")[0])
        if r.rc == 0:
            self.c.violation(key, "accepted\n" + r.brief(), keep=self.base)
        elif not all(w in r.err for w in words):
            self.c.violation(key, f"the diagnostics do not name {words}\n" + r.brief(), keep=self.base)

    def expect_ok(self, key, folder, *args):
        r = self.resolve(folder, *args)
        if r.timed_out:
            self.c.count("timeouts")
            return None
        self.c.saw(stable_hash([key, self.base]), sample={"scenario": key, "exit": r.rc})
        self.c.count("scenario_" + key.split("/")[0])
        if r.rc != 0:
            self.c.violation(key, "rejected\n" + r.brief(), keep=self.base)
            return None
        return r.json()


def user(ns, refs=(), imports=None, **kw):
    con = {"file_format": "definition/2",
           "metrics": [{"name": f"{ns}use", "brief": "b", "unit": "1", "instrument": "counter", "stability": "stable",
                        "attributes": [{"ref": r} for r in refs]}]}
    if imports:
        con["imports"] = imports
    con.update(kw)
    return con


def scenarios(c, i):
    rng = c.rng("scen", i)
    lab = Lab(c, f"s{i}")
    kind = ["cycle", "depth", "hidden-ref", "hidden-import", "hidden-implicit", "ambiguous", "incompatible", "latest",
            "missing", "transitive-entity", "ambiguous-entity", "hidden-entity", "hidden-one", "diamond",
            "twin-definition", "unversioned-path"][i % 16]
    names = [f"reg{x}" for x in rng.sample(range(100), 14)]
    if kind == "cycle":
        k = rng.randint(1, 4)
        for j in range(k):
            lab.write(names[j], names[j], "1.0.0", mini(f"c{j}."), [(names[(j + 1) % k], url(names[(j + 1) % k]))])
        lab.write("main", "main", "1.0.0", user("main.", ["c0.a0"]), [(names[0], url(names[0]))])
        lab.expect_fail("cycle", "main", ["ircular"])
    elif kind == "depth":
        k = rng.choice([3, 6, 9])
        for j in range(k):
            deps = [(names[j + 1], url(names[j + 1]))] if j + 1 < k else []
            docs = mini(f"d{j}.")
            if j + 1 < k:
                docs["imports"] = {"metrics": ["*"]}
            lab.write(names[j], names[j], "1.0.0", docs, deps)
        lab.write("main", "main", "1.0.0", user("main.", ["d0.a0"], {"metrics": ["d*"]}), [(names[0], url(names[0]))])
        doc = lab.expect_ok("depth", "main")
        if doc is not None:
            got = {m["name"] for m in doc["registry"]["metrics"]}
            want = {"main.use"} | {f"d{j}.m" for j in range(k)}
            if got != want:
                c.violation("depth", f"metrics {sorted(got ^ want)} in only one of result and expectation", keep=lab.base)
    elif kind == "hidden-ref":
        d = mini("h.")
        v = rng.randrange(3)
        d["attributes"][v]["annotations"] = HIDE
        for s in ("metrics", "spans", "events", "entities"):
            for g in d[s]:
                for f in ("attributes", "identity"):
                    if f in g and any(a["ref"] == f"h.a{v}" for a in g[f]):
                        g["annotations"] = HIDE
        lab.write("dep", "dep", "1.0.0", d)
        lab.write("main", "main", "1.0.0", user("main.", [f"h.a{v}"]), [("dep", url("dep"))])
        lab.expect_fail("hidden-ref", "main", [f"h.a{v}"])
        lab.write("ok", "ok", "1.0.0", user("main.", [f"h.a{(v + 1) % 3}"]), [("dep", url("dep"))])
        lab.expect_ok("hidden-ref/visible", "ok")
    elif kind in ("hidden-import", "hidden-implicit"):
        d = mini("h.")
        f, nm = rng.choice([("metrics", "h.m"), ("spans", "h.s"), ("events", "h.ev"), ("entities", "h.e")])
        d[f][0]["annotations"] = HIDE
        d["metrics"].append({**d["metrics"][0], "name": "h.other"})
        d["metrics"][1].pop("annotations", None)
        lab.write("dep", "dep", "1.0.0", d)
        if kind == "hidden-import":
            pat = rng.choice([nm, nm[:-1] + "*", "h.*", "*"])
            lab.write("main", "main", "1.0.0", user("main.", ["h.a0"], {f: [pat]}), [("dep", url("dep"))])
            lab.expect_fail("hidden-import/" + f, "main", [nm])
        else:
            lab.write("main", "main", "1.0.0", user("main.", ["h.a0"]), [("dep", url("dep"))])
            doc = lab.expect_ok("hidden-implicit/" + f, "main", "--include-unreferenced")
            if doc is not None:
                key = KEY[f]
                got = {x[key] for x in doc["registry"][f]}
                if nm in got:
                    c.violation("hidden-implicit/" + f, f"the hidden {nm} is included", keep=lab.base)
                if "h.other" not in {x["name"] for x in doc["registry"]["metrics"]}:
                    c.violation("hidden-implicit/" + f, "a visible metric is not included", keep=lab.base)
    elif kind in ("ambiguous", "hidden-one"):
        a, b = mini("x."), mini("x.")
        for s_ in ("attributes", "metrics", "spans", "events", "entities"):
            for g in b[s_]:
                g["brief"] = "the other"
        if kind == "hidden-one":
            for g in b["attributes"] + b["metrics"] + b["spans"] + b["events"] + b["entities"]:
                g["annotations"] = HIDE
        lab.write("one", names[0], "1.0.0", a)
        lab.write("two", names[1], "1.0.0", b)
        deps = [("one", url(names[0])), ("two", url(names[1]))]
        rng.shuffle(deps)
        u = user("main.", ["x.a0"])
        if kind == "hidden-one":
            u["metrics"][0]["entity_associations"] = ["x.e"]
            for t, nm in (("metric", "x.m"), ("span", "x.s"), ("event", "x.ev"), ("entity", "x.e")):
                if rng.random() < 0.7:
                    u[f"{t}_refinements"] = [{"id": f"main.of.{t}", "ref": nm}]
        lab.write("main", "main", "1.0.0", u, deps)
        if kind == "ambiguous":
            lab.expect_fail("ambiguous", "main", ["x.a0"])
        else:
            doc = lab.expect_ok("hidden-one", "main")
            if doc is not None:
                at = doc["registry"]["metrics"][0]["attributes"][0]
                if at["brief"] != "x. attr 0":
                    c.violation("hidden-one", f"the hidden definition was used: {at}", keep=lab.base)
                for f, its in doc["refinements"].items():
                    for it in its:
                        if it["id"].startswith("main.of.") and not it["brief"].startswith("x. "):
                            c.violation("hidden-one", f"a hidden {f} was refined: {it}", keep=lab.base)
                n = len([1 for its in doc["refinements"].values() for it in its if it["id"].startswith("main.of.")])
                if n != len([k_ for k_ in u if k_.endswith("_refinements")]):
                    c.violation("hidden-one", f"{n} refinements of {sorted(u)}", keep=lab.base)
    elif kind in ("incompatible", "latest"):
        v1_, v2_ = rng.choice([("1.0.0", "2.0.0"), ("1.9.3", "3.0.0"), ("2.1.0", "1.1.0")]) if kind == "incompatible" else \
            rng.choice([("1.0.0", "1.2.0"), ("1.9.0", "1.10.0"), ("1.2.3", "1.2.10"), ("1.10.0", "1.9.0"), ("2.0.9", "2.1.0")])
        num = lambda v: tuple(int(x) for x in v.split("."))
        for v in (v1_, v2_):
            d = mini("c.")
            for s in ("attributes", "metrics", "spans", "events", "entities"):
                for g in d[s]:
                    g["brief"] = f"as of {v}"
            lab.write(f"c-{v}", "c", v, d)
        mid = user("mid.", ["c.a0"], rng.choice([None, {"metrics": ["c.*"]}]))
        lab.write("mid", "mid", "1.0.0", mid, [(f"c-{v1_}", url("c", v1_))])
        deps = [("mid", url("mid")), (f"c-{v2_}", url("c", v2_))]
        rng.shuffle(deps)
        lab.write("main", "main", "1.0.0", user("main.", ["c.a1", "c.a0"], {"metrics": ["c.*", "mid.*"], "spans": ["c.*"]}), deps)
        if kind == "incompatible":
            lab.expect_fail("incompatible", "main", [])
        else:
            doc = lab.expect_ok("latest", "main")
            if doc is not None:
                best = max(v1_, v2_, key=num)
                bad = []

                def look(x, path):
                    if isinstance(x, dict):
                        if str(x.get("brief", "")).startswith("as of") and x["brief"] != f"as of {best}":
                            bad.append(f"{path} is {x['brief']}")
                        for k_, v_ in x.items():
                            look(v_, f"{path}.{k_}")
                    elif isinstance(x, list):
                        for y in x:
                            look(y, path)
                look(doc["registry"], "registry")
                ns_ = [m["name"] for m in doc["registry"]["metrics"]]
                if sorted(ns_) != ["c.m", "main.use", "mid.use"]:
                    bad.append(f"metrics {ns_}")
                if bad:
                    c.violation("latest", f"of {v1_} and {v2_}, {best} must be used: " + "; ".join(bad[:5]), keep=lab.base)
    elif kind == "missing":
        lab.write("main", "main", "1.0.0", user("main.", []), [("nowhere", url("dep"))])
        lab.expect_fail("missing", "main", [])
    elif kind == "transitive-entity":
        lab.write("c", "c", "1.0.0", mini("c."))
        imp = rng.random() < 0.5
        lab.write("b", "b", "1.0.0", {**mini("b."), **({"imports": {"entities": ["c.e"]}} if imp else {})}, [("c", url("c"))])
        u = user("main.", ["b.a0"])
        u["metrics"][0]["entity_associations"] = ["c.e"]
        lab.write("main", "main", "1.0.0", u, [("b", url("b"))])
        if imp:
            doc = lab.expect_ok("transitive-entity/imported", "main")
            if doc is not None:
                m = [x for x in doc["registry"]["metrics"] if x["name"] == "main.use"][0]
                want = [{"type": "c.e", "provenance": {"source": url("c")}}]
                if m.get("entity_associations") != want:
                    c.violation("transitive-entity/imported", f"association {m.get('entity_associations')}", keep=lab.base)
                if doc["registry"]["entities"]:
                    c.violation("transitive-entity/imported", "naming an entity imported it", keep=lab.base)
        else:
            lab.expect_fail("transitive-entity", "main", ["c.e"])
    elif kind == "ambiguous-entity":
        lab.write("one", names[0], "1.0.0", {**mini("p."), "entities": [dict(mini("p.")["entities"][0], type="shared.e")]})
        lab.write("two", names[1], "1.0.0", {**mini("q."), "entities": [dict(mini("q.")["entities"][0], type="shared.e")]})
        deps = [("one", url(names[0])), ("two", url(names[1]))]
        rng.shuffle(deps)
        u = user("main.", ["p.a0"])
        u["metrics"][0]["entity_associations"] = ["shared.e"]
        settle = rng.random() < 0.4
        if settle:
            u["entities"] = [{"type": "shared.e", "brief": "mine", "stability": "stable", "identity": [{"ref": "q.a0"}]}]
        lab.write("main", "main", "1.0.0", u, deps)
        if settle:
            doc = lab.expect_ok("ambiguous-entity/defined-here", "main")
            if doc is not None:
                m = [x for x in doc["registry"]["metrics"] if x["name"] == "main.use"][0]
                if m.get("entity_associations") != [{"type": "shared.e"}]:
                    c.violation("ambiguous-entity/defined-here", f"association {m.get('entity_associations')}", keep=lab.base)
        else:
            lab.expect_fail("ambiguous-entity", "main", ["shared.e"])
    elif kind == "hidden-entity":
        d = mini("h.")
        d["entities"][0]["annotations"] = HIDE
        local = rng.random() < 0.5
        if local:
            d["metrics"][0]["entity_associations"] = ["h.e"]
            lab.write("main", "main", "1.0.0", d)
            lab.expect_fail("hidden-entity/public-signal", "main", ["h.e"])
            d["metrics"][0]["annotations"] = HIDE
            lab.write("ok", "main", "1.0.0", d)
            lab.expect_ok("hidden-entity/private-signal", "ok")
        else:
            lab.write("dep", "dep", "1.0.0", d)
            u = user("main.", ["h.a0"])
            u["metrics"][0]["entity_associations"] = [rng.choice(["h.e", {"one_of": ["h.e"]}])]
            lab.write("main", "main", "1.0.0", u, [("dep", url("dep"))])
            lab.expect_fail("hidden-entity/association", "main", ["h.e"])
    elif kind == "diamond":
        lab.write("c", "c", "1.0.0", mini("c."))
        pats = {"metrics": ["c.*"], "spans": ["c.*"], "entities": ["c.e"], "events": ["c.*"]}
        lab.write("a", "a", "1.0.0", user("a.", ["c.a0"], pats), [("c", url("c"))])
        lab.write("b", "b", "1.0.0", user("b.", ["c.a1"], pats), [("c", url("c"))])
        deps = [("a", url("a")), ("b", url("b"))] + ([("c", url("c"))] if rng.random() < 0.5 else [])
        rng.shuffle(deps)
        u = user("main.", ["c.a0"], pats)
        u["metrics"][0]["entity_associations"] = ["c.e"]
        lab.write("main", "main", "1.0.0", u, deps)
        doc = lab.expect_ok("diamond", "main")
        if doc is not None:
            got = {f: sorted(x[KEY[f]] for x in doc["registry"][f]) for f in ("metrics", "spans", "entities", "events")}
            want = {"metrics": ["c.m", "main.use"], "spans": ["c.s"], "entities": ["c.e"], "events": ["c.ev"]}
            if got != want:
                c.violation("diamond", f"{got} instead of {want}", keep=lab.base)
    elif kind == "twin-definition":
        # a registry's own definition wins over a dependency's of the same key
        lab.write("dep", "dep", "1.0.0", mini("x."))
        u = user("main.", ["x.a0", "x.a1"])
        u["attributes"] = [{"key": "x.a0", "type": "string", "brief": "mine", "stability": "stable", "examples": ["e"]}]
        lab.write("main", "main", "1.0.0", u, [("dep", url("dep"))])
        doc = lab.expect_ok("twin-definition", "main")
        if doc is not None:
            at = {a["key"]: a["brief"] for a in doc["registry"]["metrics"][0]["attributes"]}
            if at != {"x.a0": "mine", "x.a1": "x. attr 1"}:
                c.violation("twin-definition", f"{at}", keep=lab.base)
    else:
        # a dependency's path that is relative, and a registry that never uses its dependency
        lab.write("dep", "dep", "1.0.0", mini("x."))
        lab.write("main", "main", "1.0.0", mini("own."), [("dep", url("dep"))])
        doc = lab.expect_ok("unused", "main")
        if doc is not None:
            got = {f: [x[KEY.get(f, "key")] for x in doc["registry"][f]] for f in doc["registry"]}
            if any(not n.startswith("own.") for v in got.values() for n in v):
                c.violation("unused", f"an unused dependency's items are present: {got}", keep=lab.base)


def gen_versions(rng):
    """The same registry `c` in several versions: the newest last, each older one a changed copy of it."""
    nums = rng.choice([["1.0.0", "1.1.0"], ["1.9.0", "1.10.0"], ["2.0.9", "2.0.10"], ["1.2.0", "1.10.1", "1.11.0"]])
    words = lambda what, v: f"{what} as of {v}"
    na = rng.randint(3, 6)
    keys = [f"c.k{j}" for j in range(na)]
    types = [rng.choice(["string", "int", "boolean", "template[string]", "enum"]) for _ in keys]
    out = {}
    pick = lambda: [{"ref": k, **({"requirement_level": rng.choice(["required", "recommended", "opt_in"])} if rng.random() < .5 else {})}
                    for k in rng.sample(keys, rng.randint(1, na))]
    shape = {"m": [f"c.m{j}" for j in range(rng.randint(1, 2))], "s": [f"c.s{j}" for j in range(rng.randint(1, 2))],
             "v": [f"c.v{j}" for j in range(rng.randint(1, 2))], "e": [f"c.e{j}" for j in range(rng.randint(1, 3))]}
    assoc = {n: rng.sample(shape["e"], rng.randint(0, len(shape["e"]))) for n in shape["m"] + shape["s"] + shape["v"]}
    for v in nums:
        newest = v == nums[-1]
        attrs = []
        for k, t in zip(keys, types):
            a = {"key": k, "brief": words(k, v), "stability": rng.choice(["stable", "development", "beta"])}
            if t == "enum":
                a["type"] = {"members": [{"id": f"x{j}", "value": f"x{j}", "brief": words("member", v), "stability": "stable"}
                                         for j in range(rng.randint(1, 3))]}
            else:
                a["type"] = t
                if "string" in t:
                    a["examples"] = [words("example", v)]
            if rng.random() < .5:
                a["note"] = words("note", v)
            if rng.random() < .15:
                a["deprecated"] = {"reason": "obsoleted", "note": words("gone", v)}
            attrs.append(a)
        con = {"file_format": "definition/2", "attributes": attrs, "metrics": [], "spans": [], "events": [], "entities": []}
        base = lambda n: {"brief": words(n, v), "stability": rng.choice(["stable", "development"]),
                          **({"note": words("note", v)} if rng.random() < .5 else {})}
        with_assoc = lambda n: {"entity_associations": [e for e in assoc[n] if newest or rng.random() < .8]} if assoc[n] else {}
        for n in shape["m"]:
            con["metrics"].append({"name": n, **base(n), "unit": rng.choice(["1", "s", "By"]), "attributes": pick(),
                                   "instrument": rng.choice(["counter", "gauge", "histogram"]), **with_assoc(n)})
        for n in shape["s"]:
            con["spans"].append({"type": n, **base(n), "kind": rng.choice(["client", "server"]), "attributes": pick(),
                                 "name": {"note": words("name", v)}, **with_assoc(n)})
        for n in shape["v"]:
            con["events"].append({"name": n, **base(n), "attributes": pick(), **with_assoc(n)})
        for n in shape["e"]:
            con["entities"].append({"type": n, **base(n), "identity": [{"ref": rng.choice(keys)}]})
            left = [k for k in keys if k != con["entities"][-1]["identity"][0]["ref"]]
            con["entities"][-1]["description"] = [{"ref": k} for k in rng.sample(left, rng.randint(0, len(left)))]
        if newest:
            con["attributes"].append({"key": "c.new.k", "type": "int", "brief": "new", "stability": "stable"})
            for f in ("metrics", "spans", "events"):
                if rng.random() < .3:
                    rng.choice(con[f])["attributes"].append({"ref": "c.new.k"})
        for f in ("metrics", "spans", "events"):
            for g in con[f]:
                if not g.get("entity_associations", True):
                    del g["entity_associations"]
        out[v] = con
    return nums, out, keys, shape


def drop_paths(x):
    if isinstance(x, dict):
        if isinstance(x.get("provenance"), dict):
            x["provenance"].pop("path", None)
        for v in x.values():
            drop_paths(v)
    elif isinstance(x, list):
        for v in x:
            drop_paths(v)


def case_versions(c, i):
    """Mixed compatible versions of one dependency must give what the newest alone would give."""
    rng = c.rng("ver", i)
    lab = Lab(c, f"ver-{i}")
    nums, cons, keys, shape = gen_versions(rng)
    best = nums[-1]
    for v in nums:
        lab.write(f"c-{v}", "c", v, cons[v])
    pats = lambda: {f: rng.choice([["c.*"], rng.sample(shape[s], 1)]) for f, s in
                    (("metrics", "m"), ("spans", "s"), ("events", "v"), ("entities", "e")) if rng.random() < .6}

    mids = []
    n = rng.randint(2, 4)
    used = set()
    versions = [rng.choice(nums) for _ in range(n)]
    if best not in versions:
        versions[rng.randrange(n)] = best
    if len(set(versions)) == 1:
        versions[(versions.index(best) + 1) % n] = nums[0]
    # a packaged one is only given where its version of c, and the newest, come with another one in source form
    # (the known differences of a packaged dependency are C06's: its references set their level, and what it lists as its
    # own attributes and the paths that it drops are left out below)
    packaged = rng.randrange(n) if rng.random() < .4 else None
    if packaged is not None and not {versions[packaged], best} <= {v for j, v in enumerate(versions) if j != packaged}:
        packaged = None
    def override(k, ns):
        r = {"ref": k}
        if rng.random() < .5 or packaged is not None:
            r["requirement_level"] = rng.choice(["required", "recommended", "opt_in", {"conditionally_required": f"if {ns}"}])
        if rng.random() < .35:
            r["brief"] = f"{ns} says {k}"
        if rng.random() < .35:
            r["note"] = f"{ns} notes {k}"
        if rng.random() < .2:
            r["stability"] = "alpha"
        return r
    deep = rng.random() < .35 and packaged != 0
    for j in range(n):
        ns = f"mid{j}."
        take = lambda: rng.sample(keys, rng.randint(1, len(keys)))
        con = {"file_format": "definition/2"}
        imports = pats()
        if imports:
            con["imports"] = imports
        mk = {"metrics": {"name": f"{ns}m", "unit": "1", "instrument": "counter"}, "events": {"name": f"{ns}v"},
              "spans": {"type": f"{ns}s", "kind": "client", "name": {"note": "n"}}}
        for f, g in mk.items():
            if f != "metrics" and rng.random() < .5:
                continue
            ks = take()
            if j != packaged and not (deep and j == 0):
                used.update(ks)
            g.update({"brief": f"{ns}{f}", "stability": "stable", "attributes": [override(k, ns) for k in ks]})
            if rng.random() < .4:
                g["entity_associations"] = rng.sample(shape["e"], 1)
            con[f] = [g]
        if rng.random() < .5:
            ks = take()
            con["entities"] = [{"type": f"{ns}e", "brief": f"{ns}e", "stability": "stable", "identity": [{"ref": ks[0]}],
                                "description": [override(k, ns) for k in ks[1:]]}]
        mids.append((ns, con))
    main = {"file_format": "definition/2",
            "imports": {f: rng.choice([["*"], ["mid*", "*"]]) for f in ("metrics", "spans", "events", "entities") if rng.random() < .8},
            "metrics": [{"name": "main.m", "brief": "b", "unit": "1", "instrument": "counter", "stability": "stable",
                         "attributes": [override(k, "main.") for k in rng.sample(sorted(used), rng.randint(0, len(used)))]}]}
    held = {f: set() for f in ("metrics", "spans", "events", "entities")}
    for ns, con in mids:
        for f in held:
            names = shape[{"metrics": "m", "spans": "s", "events": "v", "entities": "e"}[f]]
            held[f] |= {x for x in names for p in con.get("imports", {}).get(f, []) if glob_match(p, x)}
            held[f] |= {g.get("name") if f in ("metrics", "events") else g["type"] for g in con.get(f, [])}
    if held["entities"] and rng.random() < .5:
        main["metrics"][0]["entity_associations"] = rng.sample(sorted(held["entities"]), 1)
    for f, s in (("metrics", "metric"), ("spans", "span"), ("events", "event"), ("entities", "entity")):
        if held[f] and rng.random() < .4:
            r = {"id": f"main.of.{s}", "ref": rng.choice(sorted(held[f]))}
            if rng.random() < .5:
                r["brief"] = "mine"
            if f != "entities" and used and rng.random() < .5:
                r["attributes"] = [override(k, "main.") for k in rng.sample(sorted(used), 1)]
            main[f"{s}_refinements"] = [r]
    for f, pat in list(main["imports"].items()):
        if not held[f]:
            del main["imports"][f]
        elif "mid*" in pat and not any(x.startswith("mid") for x in held[f]):
            main["imports"][f] = ["*"]
    if not main["imports"]:
        del main["imports"]
    direct = [(f"c-{v}", url("c", v)) for v in nums if rng.random() < .2][:1]
    docs = {}
    for mode in ("newest", "mixed", "mixed-again"):
        deps = list(direct) if mode != "newest" or not direct else [(f"c-{best}", url("c", best))]
        for j, (ns, con) in enumerate(mids):
            v = best if mode == "newest" else versions[j]
            folder = f"{mode}-mid{j}"
            lab.write(folder, f"mid{j}", "1.0.0", con, [(f"c-{v}", url("c", v))])
            if j == packaged:
                r = c.run(["registry", "package", "--v2", "-r", f"{lab.base}/{folder}", "-o", f"{lab.base}/{folder}-p",
                           "--resolved-registry-uri", "resolved.yaml"])
                if r.rc != 0:
                    c.violation("versions/package", r.brief(), keep=lab.base)
                    return
                folder += "-p/manifest.yaml"
            if deep and j == 0:
                lab.write(f"{mode}-deep", "deep", "1.0.0",
                          {"file_format": "definition/2", "imports": {f: ["*"] for f in held if con.get(f) or con.get("imports", {}).get(f)}},
                          [(folder, url("mid0"))])
                deps.append((f"{mode}-deep", url("deep")))
            else:
                deps.append((folder, url(f"mid{j}")))
        if mode == "mixed-again":
            rng.shuffle(deps)
        lab.write(f"{mode}-main", "main", "1.0.0", main, deps)
        doc = lab.expect_ok(f"versions/{mode}", f"{mode}-main")
        if doc is None:
            return
        s = json.dumps(doc, sort_keys=True).replace(f"{lab.base}/{mode}-", f"{lab.base}/")
        docs[mode] = json.loads(s)
        docs[mode].pop("dependencies", None)
        if packaged is not None:
            docs[mode]["registry"].pop("attributes", None)
            drop_paths(docs[mode])
    c.count("version_mixes")
    c.count("version_mixes_packaged", packaged is not None)
    c.count("version_mixes_deep", deep)
    for mode in ("mixed", "mixed-again"):
        d = diff_json(docs["newest"], docs[mode], limit=6)
        if d:
            c.violation("versions", f"{versions} of {nums} (direct {direct}): {mode} differs from newest: " + "; ".join(map(str, d[:6])), keep=lab.base)
            return


def main(tier, seed):
    c = Check("C05", tier, seed, "exploration",
              "A case is a generated graph of 2-5 registries (v1 or v2, with references, refinements, associations and "
              "import patterns into dependencies) resolved at one node and compared with the union model and in another "
              "dependency order, a graph that mixes compatible versions of one registry "
              "(compared with the same graph on the newest version), or a planted scenario (cycle, hidden item, ambiguous name, version conflict, schema URL "
              "mismatch, diamond, ...) with its required outcome. Distinct: graph or scenario instance. Non-trivial: all.",
              ["refinements that a dependency holds of an imported signal may come along; they are not judged"])
    c.setup()
    jobs = [("v2", i) for i in range(c.n(420, 5000))] + [("v1", i) for i in range(c.n(260, 3000))] + \
        [("s", i) for i in range(c.n(340, 3400))] + [("ver", i) for i in range(c.n(150, 2500))]

    def one(j):
        {"v2": case_v2, "v1": case_v1, "s": scenarios, "ver": case_versions}[j[0]](c, j[1])
        import shutil
        shutil.rmtree(f"{c.work}/{'s' if j[0] == 's' else j[0] + '-'}{j[1]}", ignore_errors=True)
    c.map(one, jobs)
    return c.finish()
