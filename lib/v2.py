"""Generator and reference model of v2 registry definitions (schemas/semconv-syntax.v2.md).

A registry is a dict section -> list of items; `resolve` gives what the resolved
v2 registry must hold, keyed by name or id, without provenance."""
import copy

from . import v1
from .v1 import LEAF, STAB, WORDS, annotations, assoc, attr_def, attr_names, attr_ref, deprecated, exp_deprecated, \
    exp_type, text

SECTIONS = ["attributes", "attribute_groups", "spans", "span_refinements", "metrics", "metric_refinements", "events",
            "event_refinements", "entities", "entity_refinements"]
REF_FIELDS = ["brief", "examples", "requirement_level", "sampling_relevant", "note", "stability", "deprecated",
              "annotations"]


def common(rng, g, names, brief=True):
    if brief:
        g["brief"] = text(rng, "sig ")
    if rng.random() < 0.4:
        g["note"] = text(rng, "gnote ")
    g["stability"] = rng.choice(STAB)
    if rng.random() < 0.15:
        g["deprecated"] = deprecated(rng, names)
    if rng.random() < 0.25:
        g["annotations"] = annotations(rng)
    return g


def refine_common(rng, g):
    if rng.random() < 0.35:
        g["brief"] = text(rng, "rbrief ")
    if rng.random() < 0.35:
        g["note"] = text(rng, "rnote ")
    if rng.random() < 0.3:
        g["stability"] = rng.choice(STAB)
    if rng.random() < 0.15:
        g["deprecated"] = deprecated(rng, ["x"])
    if rng.random() < 0.35:
        g["annotations"] = annotations(rng)
    return g


def gen(rng, ns="", size=None, want=None, n_attr=None):
    """A valid v2 registry. `ns` prefixes every name so that registries can be combined."""
    names = attr_names(rng, n_attr or rng.randint(3, 12), ns)
    reg = {s: [] for s in SECTIONS}
    reg["attributes"] = [attr_def(rng, n, names, v2=True) for n in names]
    annotated = {a["key"] for a in reg["attributes"] if "annotations" in a}
    groups = {}                                  # id -> set of attribute names

    def ref(n, kind):
        r = attr_ref(rng, n, v2=True, kind=kind)
        return r

    def attrs(kind, lo=0, hi=5, allow_groups=True):
        out, used = [], set()
        if allow_groups and groups and rng.random() < 0.5:
            for gid in rng.sample(sorted(groups), min(len(groups), rng.randint(1, 2))):
                if not (groups[gid] & used):
                    used |= groups[gid]
                    out.append({"ref_group": gid})
        out += [ref(n, kind) for n in rng.sample(names, min(len(names), rng.randint(lo, hi)))]
        rng.shuffle(out)
        return out

    def flat(items):
        s = set()
        for a in items:
            s |= groups[a["ref_group"]] if "ref_group" in a else {a["ref"]}
        return s

    for i in range(rng.randint(0, 4)):
        gid = f"{ns}attrs.{rng.choice(WORDS)}{i}"
        g = {"id": gid, "visibility": rng.choice(["internal", "public"]), "attributes": attrs("group", 1, 4)}
        if g["visibility"] == "public":
            common(rng, g, names)
        groups[gid] = flat(g["attributes"])
        reg["attribute_groups"].append(g)

    n_sig = rng.randint(2, 9) if size is None else size
    for i in range(n_sig):
        t = rng.choice(["span", "metric", "event", "entity"])
        base = f"{ns}{rng.choice(WORDS)}.{rng.choice(LEAF)}{i}"
        if t == "entity":
            ids = rng.sample(names, min(len(names), rng.randint(1, 3)))
            rest = [n for n in names if n not in ids]
            e = common(rng, {"type": base, "identity": [ref(n, "entity") for n in ids]}, names)
            if rest and rng.random() < 0.7:
                e["description"] = [ref(n, "entity") for n in rng.sample(rest, min(len(rest), rng.randint(1, 3)))]
            sig = e
            reg["entities"].append(e)
        else:
            sig = common(rng, {"attributes": attrs(t)}, names)
            if not sig["attributes"]:
                del sig["attributes"]
            if t == "span":
                sig.update(type=base, kind=rng.choice(["client", "server", "producer", "consumer", "internal"]),
                           name={"note": text(rng, "{x} ")})
                reg["spans"].append(sig)
            elif t == "metric":
                sig.update(name=base, unit=rng.choice(["1", "s", "By", "{request}"]),
                           instrument=rng.choice(["counter", "gauge", "updowncounter", "histogram"]))
                reg["metrics"].append(sig)
            else:
                sig["name"] = base
                reg["events"].append(sig)
        if rng.random() < 0.7:
            sig["requirement_level"] = rng.choice(["recommended", "opt_in"])
        for j in range(rng.choice([0, 0, 1, 1, 2])):
            rid = rng.choice([f"{t}.{base}.r{j}", f"{base}.r{j}", f"{ns}ref.{t}{i}.r{j}"])
            r = refine_common(rng, {"id": rid, "ref": base})
            if t == "entity":
                if rng.random() < 0.3:
                    r["identity"] = [ref(a["ref"], t) for a in e["identity"] if rng.random() < 0.6]
                own = [a["ref"] for a in e.get("description", [])]
                new = [n for n in names if n not in {a["ref"] for a in e["identity"]}]
                pick = [n for n in dict.fromkeys(own + new) if rng.random() < 0.4][:4]
                if pick:
                    r["description"] = [ref(n, t) for n in pick]
                if "identity" in r and not r["identity"]:
                    del r["identity"]
                reg["entity_refinements"].append(r)
            else:
                a = attrs(t)
                # prefer overriding what the base holds
                have = flat(a)
                for n in sorted(flat(sig.get("attributes", []))):
                    if n not in have and rng.random() < 0.4:
                        a.append(ref(n, t))
                if a:
                    r["attributes"] = a
                if t == "span" and rng.random() < 0.4:
                    r["name"] = {"note": text(rng, "refname ")}
                reg[f"{t}_refinements"].append(r)
    ents = entity_names(reg)
    for s in ("spans", "metrics", "events", "span_refinements", "metric_refinements", "event_refinements"):
        for g in reg[s]:
            if ents and rng.random() < 0.35:
                g["entity_associations"] = assoc(rng, ents)
    drop_overlapping_annotations(reg)
    need_notes(rng, reg)
    for s in SECTIONS:
        rng.shuffle(reg[s])
    return {s: v for s, v in reg.items() if v}


def gen_deep(rng):
    """A registry with a long chain of attribute groups that include one another."""
    reg = gen(rng)
    reg = {s: reg.get(s, []) for s in SECTIONS}
    n = rng.choice([3, 5, 8, 15])
    ids = [f"deep.{i}{rng.choice('abcxyz')}" for i in range(n)]
    rng.shuffle(ids)
    for i, gid in enumerate(ids):
        key = f"deep.own{i}"
        reg["attributes"].append(attr_def(rng, key, [key], v2=True))
        g = {"id": gid, "visibility": rng.choice(["internal", "public"]), "attributes": [attr_ref(rng, key, v2=True, kind="group")]}
        if i:
            g["attributes"].append({"ref_group": ids[i - 1]})
            for j in range(i):
                if rng.random() < 0.15:
                    g["attributes"].append(attr_ref(rng, f"deep.own{j}", v2=True, kind="group"))
        if g["visibility"] == "public":
            common(rng, g, [key])
        reg["attribute_groups"].append(g)
    for t in ("metric", "span", "event"):
        sig = common(rng, {"attributes": [{"ref_group": ids[-1]}, attr_ref(rng, "deep.own0", v2=True, kind=t)]}, ["x"])
        if t == "span":
            sig.update(type="deep.span", kind="client", name={"note": "n"})
        elif t == "metric":
            sig.update(name="deep.metric", unit="1", instrument="counter")
        else:
            sig["name"] = "deep.event"
        reg[t + "s"].append(sig)
        reg[f"{t}_refinements"].append({"id": f"deep.ref.{t}", "ref": f"deep.{t}",
                                        "attributes": [attr_ref(rng, "deep.own1", v2=True, kind=t)]})
    drop_overlapping_annotations(reg)
    need_notes(rng, reg)
    return {s: v for s, v in reg.items() if v}


def need_notes(rng, x):
    """In v2 definitions an obsoleted or uncategorized deprecation carries a note."""
    if isinstance(x, dict):
        d = x.get("deprecated")
        if isinstance(d, dict) and "note" not in d and d.get("reason") in ("obsoleted", "uncategorized"):
            d["note"] = text(rng, "dep ")
        for v in x.values():
            need_notes(rng, v)
    elif isinstance(x, list):
        for v in x:
            need_notes(rng, v)


def entity_names(reg):
    return [e["type"] for e in reg.get("entities", [])] + \
           [r["id"][7:] if r["id"].startswith("entity.") else r["id"] for r in reg.get("entity_refinements", [])]


def drop_overlapping_annotations(reg):
    """How annotations set at two levels of one attribute combine is a known finding: keep them at one level,
    so that merging and replacing mean the same."""
    annotated = {a["key"] for a in reg["attributes"] if "annotations" in a}
    seen_ref = {}
    for s in SECTIONS[1:]:
        for g in reg[s]:
            for f in ("attributes", "identity", "description"):
                for a in g.get(f, []):
                    if "annotations" in a:
                        root = g.get("ref", g.get("type", g.get("name", g.get("id"))))
                        if a["ref"] in annotated or a["ref"] in seen_ref:
                            del a["annotations"]
                        else:
                            seen_ref[a["ref"]] = root


def split_files(rng, reg, nfiles, dirs=("", "a/", "b/", "b/c/", "a/b/")):
    """{relative path: document}: the items of every section spread over files."""
    names, stems = [], set()
    while len(names) < nfiles:
        stem = f"{rng.choice(dirs)}{rng.choice(['f', 'g', 'attrs', 'x'])}{rng.randrange(4)}"
        if stem.replace("/", ".") in stems:
            continue
        stems.add(stem.replace("/", "."))
        names.append(stem + rng.choice([".yaml", ".yml"]))
    files = {}
    for s in SECTIONS:
        items = reg.get(s, [])[:]
        rng.shuffle(items)
        for it in items:
            files.setdefault(rng.choice(names), {}).setdefault(s, []).append(it)
    out = {}
    for k, v in files.items():
        keys = list(v)
        rng.shuffle(keys)
        out[k] = {"file_format": "definition/2", **{s: v[s] for s in keys}}
    return out


# ------------------------------------------------------------------ reference model
def merge_anno(base, over):
    out = copy.deepcopy(base)
    for k, v in over.items():
        out[k] = merge_anno(out[k], v) if isinstance(out.get(k), dict) and isinstance(v, dict) else copy.deepcopy(v)
    return out


def over(base, ref):
    out = dict(base)
    for f in REF_FIELDS:
        if ref.get(f) is not None:
            out[f] = merge_anno(out.get(f) or {}, ref[f]) if f == "annotations" else ref[f]
    return out


def spec_attrs(reg, items, base=None):
    """name -> overriding fields, for a signal's attribute list over what it inherits."""
    by_id = {g["id"]: g for g in reg.get("attribute_groups", [])}
    out = dict(base or {})
    for a in items:
        if "ref_group" in a:
            for n, o in spec_attrs(reg, by_id[a["ref_group"]].get("attributes", [])).items():
                out[n] = over(out[n], o) if n in out else o
    for a in items:
        if "ref" in a:
            o = {f: a[f] for f in REF_FIELDS if a.get(f) is not None}
            out[a["ref"]] = over(out[a["ref"]], o) if a["ref"] in out else o
    return out


def exp_common(g):
    o = {"brief": g.get("brief", ""), "stability": g["stability"]}
    if g.get("note"):
        o["note"] = g["note"]
    if g.get("deprecated"):
        o["deprecated"] = exp_deprecated(g["deprecated"])
    if g.get("annotations"):
        o["annotations"] = copy.deepcopy(g["annotations"])
    return o


def exp_def(a):
    o = {"key": a["key"], "type": exp_type(a["type"]), **exp_common(a)}
    if "examples" in a:
        o["examples"] = a["examples"]
    return o


def exp_attr(d, o, span=False):
    m = over(d, o)
    r = exp_def(m)
    r["requirement_level"] = m.get("requirement_level", "recommended")
    if span and m.get("sampling_relevant") is not None:
        r["sampling_relevant"] = m["sampling_relevant"]
    return r


def exp_assoc(l):
    return [{k: exp_assoc(v) for k, v in e.items()} if isinstance(e, dict) else {"type": e} for e in l]


def merged_refinement(base, r):
    g = {f: base[f] for f in ("brief", "note", "stability", "deprecated", "requirement_level") if f in base}
    for f in ("brief", "note", "stability", "deprecated"):
        if r.get(f):
            g[f] = r[f]
    an = merge_anno(base.get("annotations", {}), r.get("annotations", {}))
    if an:
        g["annotations"] = an
    return g


def strip(t, s):
    return s[len(t) + 1:] if s.startswith(t + ".") else s


def resolve(reg):
    defs = {a["key"]: a for a in reg.get("attributes", [])}
    res = {"attributes": {k: exp_def(a) for k, a in defs.items()}, "attribute_groups": {},
           "spans": {}, "metrics": {}, "events": {}, "entities": {}}
    ref = {"spans": {}, "metrics": {}, "events": {}, "entities": {}}

    def alist(spec, span=False):
        return [exp_attr(defs[n], spec[n], span) for n in sorted(spec, key=lambda s: s.encode())]

    for g in reg.get("attribute_groups", []):
        if g["visibility"] == "public":
            gid = strip("attribute_group", g["id"])
            o = {"id": gid, **exp_common(g)}
            at = alist(spec_attrs(reg, g.get("attributes", [])))
            o["attributes"] = at
            res["attribute_groups"][gid] = o

    def signal(t, g, spec, name_field, name):
        o = {name_field: name, **exp_common(g)}
        if g.get("requirement_level"):
            o["requirement_level"] = g["requirement_level"]
        o["attributes"] = alist(spec, t == "span")
        return o

    for t, plural, key in (("span", "spans", "type"), ("metric", "metrics", "name"), ("event", "events", "name")):
        specs, by = {}, {}
        for g in reg.get(plural, []):
            spec = specs[g[key]] = spec_attrs(reg, g.get("attributes", []))
            by[g[key]] = g
            o = signal(t, g, spec, key, g[key])
            if t == "span":
                o["kind"], o["name"] = g["kind"], g["name"]
            if t == "metric":
                o["unit"], o["instrument"] = g["unit"], g["instrument"]
            if g.get("entity_associations"):
                o["entity_associations"] = exp_assoc(g["entity_associations"])
            res[plural][g[key]] = o
            ref[plural][g[key]] = {"id": g[key], **o}
        for r in reg.get(f"{t}_refinements", []):
            b = by[r["ref"]]
            m = merged_refinement(b, r)
            spec = spec_attrs(reg, r.get("attributes", []), specs[r["ref"]])
            rid = strip(t, r["id"])
            o = {"id": rid, **signal(t, m, spec, key, b[key])}
            if t == "span":
                o["kind"], o["name"] = b["kind"], r.get("name", b["name"])
            if t == "metric":
                o["unit"], o["instrument"] = b["unit"], b["instrument"]
            if t == "event":
                o["name"] = r["id"]          # an event refinement's name is its own id
            if r.get("entity_associations"):
                o["entity_associations"] = exp_assoc(r["entity_associations"])
            ref[plural][rid] = o
    ents = {}

    def entity(g, ident, desc, name):
        o = {"type": name, **exp_common(g)}
        if g.get("requirement_level"):
            o["requirement_level"] = g["requirement_level"]
        o["identity"] = alist(ident)
        o["description"] = alist(desc)
        return o

    for e in reg.get("entities", []):
        i, d = spec_attrs(reg, e["identity"]), spec_attrs(reg, e.get("description", []))
        ents[e["type"]] = (e, i, d)
        o = entity(e, i, d, e["type"])
        res["entities"][e["type"]] = o
        ref["entities"][e["type"]] = {"id": e["type"], **o}
    for r in reg.get("entity_refinements", []):
        e, i, d = ents[r["ref"]]
        o = entity(merged_refinement(e, r), spec_attrs(reg, r.get("identity", []), i),
                   spec_attrs(reg, r.get("description", []), d), e["type"])
        rid = strip("entity", r["id"])
        ref["entities"][rid] = {"id": rid, **o}
    return {"registry": res, "refinements": ref}


def strip_prov(x):
    if isinstance(x, dict):
        return {k: strip_prov(v) for k, v in x.items() if k not in ("provenance",)}
    if isinstance(x, list):
        return [strip_prov(v) for v in x]
    return x


def observed(doc):
    """The resolved v2 document in the shape of `resolve`, plus problems of shape (duplicates)."""
    problems = []
    key = {"attributes": "key", "attribute_groups": "id", "spans": "type", "metrics": "name", "events": "name",
           "entities": "type"}
    out = {"registry": {}, "refinements": {}}
    for part, keyf in (("registry", lambda s: key[s]), ("refinements", lambda s: "id")):
        for s, items in doc[part].items():
            d = {}
            for it in items:
                it = strip_prov(it)
                if s not in ("attributes",):
                    for f in (("identity", "description") if s == "entities" else ("attributes",)):
                        it.setdefault(f, [])
                k = it[keyf(s)]
                if k in d:
                    problems.append(f"{part}.{s}: {k} appears twice")
                d[k] = it
            out[part][s] = d
    return out, problems
