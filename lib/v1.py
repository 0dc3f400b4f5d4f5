"""Generator and reference model of v1 registry definitions.

The model is written from the documented semantics (schemas/semconv-syntax.md):
`ref` takes the definition's fields and overrides those it sets; `extends`
brings in the attributes of the parent group; everything else is carried over
unchanged."""
import copy

WORDS = ["http", "db", "rpc", "net", "user", "cloud", "k8s", "host", "sys", "app", "job", "queue", "cache",
         "disk", "mem", "cpu", "url", "peer", "file", "lock", "task", "node", "pod", "zone"]
LEAF = ["name", "id", "type", "size", "count", "status", "code", "method", "kind", "version", "port", "address",
        "state", "mode", "key", "label", "region", "error", "reason", "phase"]
STAB = ["stable", "development", "alpha", "beta", "release_candidate"]
PRIMS = ["string", "int", "double", "boolean", "string[]", "int[]", "double[]", "boolean[]", "any"]
TEXTS = ["Simple text.", "Trailing dot", "Uses `code` and **bold**.", "Ünïcode – ✓ 漢字", "A \"quoted\" word",
         "tab\there", "line one\nline two\n", "  leading spaces", "trailing spaces  ", "null", "true", "1.0", "~",
         "colon: value", "# not a comment", "{{ jinja }}", "<b>html & co</b>", "back\\slash", "a | b | c",
         "[link](https://example.com/x_y)", "- item", "emoji 🎉", "'single'", "percent %d", "$dollar"]


def text(rng, tag=""):
    t = rng.choice(TEXTS)
    return f"{tag}{t}" if rng.random() < 0.5 else f"{t} {tag}{rng.randrange(1000)}"


def anno(rng, depth=0):
    r = rng.random()
    if depth < 2 and r < 0.35:
        return {rng.choice(["a", "b", "c", "x"]): anno(rng, depth + 1) for _ in range(rng.randint(1, 3))}
    if depth < 2 and r < 0.5:
        return [anno(rng, depth + 1) for _ in range(rng.randint(1, 3))]
    return rng.choice([True, False, 0, -1, 42, 9007199254740993, 1.5, "x", "", "true", "ünï", None])


def annotations(rng):
    return {rng.choice(["code_generation", "owner", "tier", "x-y", "meta"]): anno(rng)
            for _ in range(rng.randint(1, 3))}


def deprecated(rng, names):
    r = rng.random()
    if r < 0.4:
        d = {"reason": "renamed", "renamed_to": rng.choice(names) if names else "other.thing"}
        if rng.random() < 0.6:
            d["note"] = text(rng, "dep ")
        return d
    if r < 0.7:
        d = {"reason": "obsoleted"}
    else:
        d = {"reason": "uncategorized"}
    if rng.random() < 0.6:
        d["note"] = text(rng, "dep ")
    return d


def exp_deprecated(d):
    if d is None:
        return None
    d = dict(d)
    if "note" not in d:
        d["note"] = {"renamed": f"Replaced by `{d.get('renamed_to')}`.",
                     "obsoleted": "Obsoleted.", "uncategorized": "Uncategorized."}[d["reason"]]
    return d


def example_scalar(rng, t):
    if t == "string":
        return text(rng)
    if t == "int":
        return rng.choice([0, 1, -5, 42, 2 ** 53 + 1, -2 ** 63, 2 ** 63 - 1])
    if t == "double":
        return rng.choice([0.5, -1.25, 1e10 + 0.5, 3.14159])
    if t == "boolean":
        return rng.choice([True, False])
    raise ValueError(t)


def examples(rng, t):
    base = t[9:-1] if t.startswith("template[") else t
    if base == "any":
        return rng.choice([None, ["x"], [1, 2]])
    if base.endswith("[]"):
        p = base[:-2]
        return [[example_scalar(rng, p) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 2))]
    if rng.random() < 0.2 and base != "boolean":
        return example_scalar(rng, base)
    return [example_scalar(rng, base) for _ in range(rng.randint(1, 3))]


def enum_type(rng, names=()):
    kind = rng.choice(["string", "string", "int"])
    n = rng.randint(1, 5)
    members = []
    for i in range(n):
        m = {"id": f"m{i}_{rng.choice(LEAF)}"}
        m["value"] = (f"{rng.choice(LEAF)}-{i}" if kind == "string" else i * 3 - 1)
        if rng.random() < 0.7:
            m["brief"] = text(rng, "m ")
        if rng.random() < 0.2:
            m["note"] = text(rng, "mn ")
        m["stability"] = rng.choice(STAB)
        if rng.random() < 0.15:
            m["deprecated"] = deprecated(rng, ["m0"])
        if rng.random() < 0.1:
            m["annotations"] = annotations(rng)
        if kind == "string" and rng.random() < 0.15:
            del m["value"]
        members.append(m)
    return {"members": members}


def exp_type(t):
    if isinstance(t, dict):
        ms = []
        for m in t["members"]:
            m = dict(m)
            m.setdefault("value", m["id"])
            if "deprecated" in m:
                m["deprecated"] = exp_deprecated(m["deprecated"])
            ms.append(m)
        return {"members": ms}
    return t


def req_level(rng):
    return rng.choice(["required", "recommended", "opt_in", {"conditionally_required": text(rng, "if ")},
                       {"recommended": text(rng, "rec ")}, {"opt_in": text(rng, "opt ")}])


def attr_type(rng, allow_template=True):
    r = rng.random()
    if r < 0.2:
        return enum_type(rng)
    if r < 0.3 and allow_template:
        return f"template[{rng.choice(PRIMS)}]"
    return rng.choice(PRIMS)


def attr_def(rng, name, names, v2=False, allow_template=True):
    t = attr_type(rng, allow_template)
    a = {"key" if v2 else "id": name, "type": t, "brief": text(rng, "def "), "stability": rng.choice(STAB)}
    base = t if isinstance(t, str) else "enum"
    need = base.replace("template[", "").rstrip("]") in ("string", "string[")
    if isinstance(t, str) and (need or rng.random() < 0.6):
        e = examples(rng, t)
        if e is not None:
            a["examples"] = e
    if rng.random() < 0.4:
        a["note"] = text(rng, "note ")
    if rng.random() < 0.15:
        a["deprecated"] = deprecated(rng, names)
    if rng.random() < 0.2:
        a["annotations"] = annotations(rng)
    if not v2:
        if rng.random() < 0.2:
            a["tag"] = rng.choice(["t1", "t2", "tag-three"])
        if rng.random() < 0.4:
            a["requirement_level"] = req_level(rng)
        if rng.random() < 0.15:
            a["sampling_relevant"] = rng.choice([True, False])
        if rng.random() < 0.1:
            a["role"] = rng.choice(["identifying", "descriptive"])
    return a


def attr_ref(rng, name, p=0.35, v2=False, kind="span"):
    a = {"ref": name}
    if rng.random() < p:
        a["brief"] = text(rng, "ref ")
    if rng.random() < p * 0.6:
        a["examples"] = rng.choice([["e1"], ["e2", "e3"], [7, 8], [1.5], [True, False], "solo"])
    if rng.random() < p:
        a["requirement_level"] = req_level(rng)
    if rng.random() < p * 0.7:
        a["note"] = text(rng, "refnote ")
    if rng.random() < p * 0.3:
        a["stability"] = rng.choice(STAB)
    if rng.random() < p * 0.25:
        a["deprecated"] = deprecated(rng, [name])
    if rng.random() < p * 0.4:
        a["annotations"] = annotations(rng)
    if not v2:
        if rng.random() < p * 0.4:
            a["tag"] = rng.choice(["rt1", "rt2"])
        if rng.random() < p * 0.4:
            a["sampling_relevant"] = rng.choice([True, False])
        if rng.random() < p * 0.2:
            a["role"] = rng.choice(["identifying", "descriptive"])
    elif kind == "span" and rng.random() < p * 0.4:
        a["sampling_relevant"] = rng.choice([True, False])
    return a


def attr_names(rng, n, prefix=""):
    out = []
    seen = set()
    while len(out) < n:
        k = rng.randint(1, 3)
        parts = [rng.choice(WORDS) for _ in range(k)] + [rng.choice(LEAF) + (str(rng.randrange(30)) if rng.random() < 0.5 else "")]
        nm = prefix + ".".join(parts)
        if nm not in seen:
            seen.add(nm)
            out.append(nm)
    return out


def body(rng, depth=0):
    t = rng.choice(["map", "string", "int", "double", "boolean", "enum", "undefined"]) if depth else \
        rng.choice(["map", "map", "string", "undefined"])
    b = {"id": f"body.f{rng.randrange(10000)}", "type": t, "brief": text(rng, "body "),
         "requirement_level": rng.choice(["required", "recommended", "opt_in"]), "stability": rng.choice(STAB)}
    if t == "string":
        b["examples"] = ["ex"]
    if t == "map":
        b["fields"] = [body(rng, depth + 1) for _ in range(rng.randint(1, 3))] if depth < 2 else []
    if t == "enum":
        b["members"] = [{"id": "e1", "value": "v1", "stability": "stable", "brief": "x"}]
    return b


def gen(rng, size=None, ambiguous=False, with_body=True):
    """Returns a list of v1 groups forming a valid registry."""
    n_attr = rng.randint(3, 14) if size is None else size * 2
    names = attr_names(rng, n_attr)
    groups = []
    pool = names[:]
    rng.shuffle(pool)
    gid = 0

    def common(g, with_stab=True):
        if rng.random() < 0.4:
            g["note"] = text(rng, "gnote ")
        if with_stab:
            g["stability"] = rng.choice(STAB)
        if rng.random() < 0.15:
            g["deprecated"] = deprecated(rng, ["other.thing"])
        if rng.random() < 0.2:
            g["annotations"] = annotations(rng)
        return g

    # attribute definitions
    while pool:
        k = min(len(pool), rng.randint(1, 5))
        mine, pool = pool[:k], pool[k:]
        gid += 1
        g = {"id": f"registry.g{gid}", "type": "attribute_group", "brief": text(rng, "grp ")}
        common(g, rng.random() < 0.3)
        if rng.random() < 0.3:
            g["display_name"] = text(rng, "Display ")
        g["attributes"] = [attr_def(rng, n, names) for n in mine]
        groups.append(g)
    n_sig = rng.randint(2, 10) if size is None else size
    for i in range(n_sig):
        t = rng.choice(["span", "metric", "event", "entity", "attribute_group", "metric", "span"])
        g = {"id": f"{t}.s{i}.{rng.choice(WORDS)}", "type": t, "brief": text(rng, "sig ")}
        common(g, t != "attribute_group")
        if t == "span":
            g["span_kind"] = rng.choice(["client", "server", "producer", "consumer", "internal"])
        if t == "metric":
            g["metric_name"] = f"{rng.choice(WORDS)}.m{i}.{rng.choice(LEAF)}"
            g["instrument"] = rng.choice(["counter", "gauge", "updowncounter", "histogram"])
            g["unit"] = rng.choice(["1", "s", "By", "{request}", "ms"])
        if t == "event":
            g["name"] = f"{rng.choice(WORDS)}.e{i}"
            if with_body and rng.random() < 0.3:
                g["body"] = body(rng)
        if t == "entity":
            g["name"] = f"{rng.choice(WORDS)}.ent{i}"
        if rng.random() < 0.45 and groups:
            g["extends"] = rng.choice(groups)["id"]
        refs = rng.sample(names, min(len(names), rng.randint(0, 6)))
        g["attributes"] = [attr_ref(rng, n) for n in refs]
        # a locally defined attribute with an id of its own
        if rng.random() < 0.25:
            nm = f"own.s{i}.{rng.choice(LEAF)}"
            g["attributes"].append(attr_def(rng, nm, names))
            names.append(nm)
        rng.shuffle(g["attributes"])
        if t not in ("metric", "event") and not g["attributes"] and "extends" not in g:
            g["attributes"] = [attr_ref(rng, rng.choice(names))]
        if not g["attributes"]:
            del g["attributes"]
        groups.append(g)
    ents = entity_names(groups)
    for g in groups:
        if g["type"] in ("span", "metric", "event") and ents and rng.random() < 0.4:
            g["entity_associations"] = assoc(rng, ents)
    for g in groups:
        if g["type"] == "span" and rng.random() < 0.3:
            evs = [x["id"] for x in groups if x["type"] == "event"]
            if evs:
                g["events"] = rng.sample(evs, min(len(evs), 2))
    return groups


def entity_names(groups):
    """The name an association uses: an entity's type, or the id of one that refines another entity."""
    by_id = {g["id"]: g for g in groups}
    out = []
    for g in groups:
        if g["type"] == "entity":
            parent = by_id.get(g.get("extends"))
            if parent and parent["type"] == "entity":
                out.append(g["id"][len("entity."):])
            else:
                out.append(g["name"])
    return out


def assoc(rng, names, depth=0):
    out = []
    for _ in range(rng.randint(1, 2)):
        r = rng.random()
        if depth < 2 and r < 0.25:
            out.append({"one_of": assoc(rng, names, depth + 1)})
        elif depth < 2 and r < 0.5:
            out.append({"all_of": assoc(rng, names, depth + 1)})
        else:
            out.append(rng.choice(names))
    return out


def split_files(rng, groups, nfiles):
    """Distributes groups over files; returns {relative path: document}."""
    files = {}
    order = groups[:]
    rng.shuffle(order)
    dirs = ["", "a/", "b/", "b/c/"]
    names = [f"{rng.choice(dirs)}f{i}.{rng.choice(['yaml', 'yml'])}" for i in range(nfiles)]
    for g in order:
        files.setdefault(rng.choice(names), []).append(g)
    return {k: {"groups": v} for k, v in files.items()}


FIELDS = ["brief", "examples", "tag", "requirement_level", "sampling_relevant", "note", "stability", "deprecated",
          "annotations", "role"]


def merge_ref(ref, base):
    """An own `ref` over an inherited attribute spec: the fields it sets win."""
    out = dict(base)
    for f in FIELDS:
        if f in ref and ref[f] is not None:
            out[f] = ref[f]
    return out


def resolve(groups):
    """The resolved groups, keyed by id, without lineage (reference model)."""
    by_id = {g["id"]: g for g in groups}
    specs = {}

    def spec_of(gid):
        if gid in specs:
            return specs[gid]
        g = by_id[gid]
        out = {}
        if "extends" in g:
            for k, a in spec_of(g["extends"]).items():
                out[k] = a
        for a in g.get("attributes", []):
            if "id" in a:
                out[a["id"]] = a
            else:
                out[a["ref"]] = merge_ref(a, out[a["ref"]]) if a["ref"] in out else a
        specs[gid] = out
        return out

    defs = {}
    for g in groups:
        for a in g.get("attributes", []):
            if "id" in a:
                defs[a["id"]] = a
    res = {}
    for g in groups:
        r = {"id": g["id"], "type": g["type"]}
        for f in ["brief", "note", "stability", "span_kind", "events", "metric_name", "instrument", "unit", "name",
                  "display_name", "annotations", "body", "entity_associations"]:
            if f in g and g[f] not in ("", []):
                r[f] = copy.deepcopy(g[f])
        if "deprecated" in g:
            r["deprecated"] = exp_deprecated(g["deprecated"])
        attrs = []
        for name, a in spec_of(g["id"]).items():
            full = a if "id" in a else merge_ref(a, defs[name])
            attrs.append(exp_attr(name, full))
        attrs.sort(key=lambda a: a["name"].encode())
        if attrs:
            r["attributes"] = attrs
        res[g["id"]] = r
    return res


def exp_attr(name, a):
    o = {"name": name, "type": exp_type(a["type"]), "brief": a.get("brief", ""),
         "requirement_level": a.get("requirement_level", "recommended")}
    for f in ["examples", "tag", "sampling_relevant", "stability", "annotations", "role"]:
        if f in a:
            o[f] = a[f]
    if a.get("note"):
        o["note"] = a["note"]
    if "deprecated" in a:
        o["deprecated"] = exp_deprecated(a["deprecated"])
    return o


def surface(rng, x):
    """The same definitions in other documented spellings: `resource` for entity, `experimental` for development."""
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if k == "type" and v == "entity" and rng.random() < 0.4:
                v = "resource"
            elif k == "stability" and v == "development" and rng.random() < 0.4:
                v = "experimental"
            out[k] = v if k in ("annotations", "examples") else surface(rng, v)
        return out
    if isinstance(x, list):
        return [surface(rng, v) for v in x]
    return x


def deep_groups(rng):
    """Registries with long extends chains, where each level overrides a few fields."""
    names = attr_names(rng, rng.randint(2, 5))
    groups = [{"id": "registry.base", "type": "attribute_group", "brief": "base",
               "attributes": [attr_def(rng, n, names) for n in names]}]
    prev = None
    for i in range(rng.choice([2, 3, 4, 5, 6, 8, 12, 20])):
        g = {"id": f"chain.{rng.choice('abcxyz')}{i}", "type": "attribute_group", "brief": text(rng, "g ")}
        if prev:
            g["extends"] = prev
        refs = rng.sample(names, rng.randint(1, len(names)))
        g["attributes"] = [attr_ref(rng, n, p=0.5) for n in refs]
        if rng.random() < 0.3:
            g["attributes"].append(attr_def(rng, f"chain.own{i}", names))
            names = names + [f"chain.own{i}"]
        prev = g["id"] if rng.random() < 0.85 or prev is None else prev
        groups.append(g)
    for t in rng.sample(["span", "metric", "event", "entity"], 3):
        g = {"id": f"{t}.leaf", "type": t, "brief": "leaf", "stability": "stable", "extends": prev}
        if t == "span":
            g["span_kind"] = "internal"
        elif t == "metric":
            g.update(metric_name="leaf.metric", instrument="counter", unit="1")
        else:
            g["name"] = f"leaf.{t}"
        visible = sorted({n for n in names if not n.startswith("chain.own")})
        g["attributes"] = [attr_ref(rng, n, p=0.5) for n in rng.sample(visible, rng.randint(1, len(visible)))]
        groups.append(g)
    return groups
