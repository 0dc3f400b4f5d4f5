"""C04: invalid registries are rejected, with a diagnostic, without artifacts.

Valid generated registries are broken in one known way each. The planted defect is
the oracle: which commands must fail, what the diagnostics must name, and which files
must not appear."""
import copy
import json
import os

from lib import reg, v1, v2
from lib.common import Check, stable_hash

FATAL, ERROR, WARN = "fatal", "error", "warn"


# ---- v1 defects: each takes (rng, groups) and returns the words the diagnostics must hold, or None if inapplicable
def pick(rng, groups, *types):
    c = [g for g in groups if g["type"] in types]
    return rng.choice(c) if c else None


def any_group(rng, groups):
    return rng.choice(groups)


def attrs_of(g):
    return g.setdefault("attributes", [])


def own_defs(groups):
    return [(g, a) for g in groups for a in g.get("attributes", []) if "id" in a]


def d_unknown_ref(rng, gs):
    g = any_group(rng, gs)
    n = f"no.such.attr{rng.randrange(99)}"
    attrs_of(g).insert(rng.randint(0, len(g["attributes"])), {"ref": n})
    return [n]


def d_unknown_extends(rng, gs):
    g = any_group(rng, gs)
    n = f"no.such.group{rng.randrange(99)}"
    g["extends"] = n
    return [n]


def d_extends_self(rng, gs):
    g = any_group(rng, gs)
    g["extends"] = g["id"]
    return [g["id"]]


def d_extends_cycle(rng, gs):
    if len(gs) < 2:
        return None
    k = rng.randint(2, min(5, len(gs)))
    ring = rng.sample(gs, k)
    for a, b in zip(ring, ring[1:] + ring[:1]):
        a["extends"] = b["id"]
    return [ring[0]["id"]]


def d_unknown_entity(rng, gs):
    g = pick(rng, gs, "span", "metric", "event")
    if not g:
        return None
    n = f"no.such.entity{rng.randrange(99)}"
    l = g.setdefault("entity_associations", [])
    l.append(rng.choice([n, {"one_of": [n]}, {"all_of": [{"one_of": [n]}]}]))
    return [n]


def d_assoc_misplaced(rng, gs):
    g = pick(rng, gs, "attribute_group", "entity")
    e = v1.entity_names(gs)
    if not g:
        return None
    g["entity_associations"] = [rng.choice(e)] if e else ["x"]
    return [g["id"]]


def d_assoc_empty(rng, gs):
    g = pick(rng, gs, "span", "metric", "event")
    if not g:
        return None
    g["entity_associations"] = [rng.choice([{"one_of": []}, {"all_of": []}, "", "  ", {"one_of": [{"all_of": []}]}])]
    return [g["id"]]


def drop(field, *types):
    def f(rng, gs):
        g = pick(rng, gs, *types)
        if not g or field not in g:
            return None
        del g[field]
        return [g["id"]]
    return f


def d_event_no_name_body(rng, gs):
    g = pick(rng, gs, "event")
    if not g:
        return None
    g.pop("name", None)
    return [g["id"]]


def d_no_brief(rng, gs):
    c = [(g, a) for g, a in own_defs(gs) if "deprecated" not in a]
    if not c:
        return None
    g, a = rng.choice(c)
    del a["brief"]
    return [a["id"]]


def d_span_kind_misplaced(rng, gs):
    g = pick(rng, gs, "metric", "event", "entity", "attribute_group")
    if not g:
        return None
    g["span_kind"] = "client"
    return [g["id"]]


def d_events_misplaced(rng, gs):
    g = pick(rng, gs, "metric", "event", "entity", "attribute_group")
    if not g:
        return None
    g["events"] = ["x"]
    return [g["id"]]


def d_body_misplaced(rng, gs):
    g = pick(rng, gs, "metric", "span", "entity", "attribute_group")
    if not g:
        return None
    g["body"] = {"id": "b", "type": "map", "brief": "b", "requirement_level": "required", "stability": "stable",
                 "fields": []}
    return [g["id"]]


def d_bad_type(rng, gs):
    c = own_defs(gs)
    if not c:
        return None
    _, a = rng.choice(c)
    a["type"] = rng.choice(["strng", "int[][]", "template[foo]", "map", 12, {"members": "x"}, ["string"]])
    a.pop("examples", None)
    return []


def d_unknown_field(rng, gs):
    g = any_group(rng, gs)
    k = f"bogus_{rng.randrange(99)}"
    if g.get("attributes") and rng.random() < 0.5:
        rng.choice(g["attributes"])[k] = 1
    else:
        g[k] = 1
    return []


def d_bad_enum_value(rng, gs):
    g = any_group(rng, gs)
    f, v = rng.choice([("stability", "rock_solid"), ("type", "spanner"), ("span_kind", "clientele"),
                       ("instrument", "trumpet")])
    g[f] = v
    return []


def d_bad_req(rng, gs):
    c = [a for g in gs for a in g.get("attributes", [])]
    if not c:
        return None
    rng.choice(c)["requirement_level"] = rng.choice(["mandatory", {"conditionally": "x"}, 3])
    return []


def d_no_id(rng, gs):
    g = any_group(rng, gs)
    del g["id"]
    return []


def d_attr_no_id(rng, gs):
    c = own_defs(gs)
    if not c:
        return None
    del rng.choice(c)[1]["id"]
    return []


def d_no_attr_type(rng, gs):
    c = own_defs(gs)
    if not c:
        return None
    del rng.choice(c)[1]["type"]
    return []


def d_wrong_example(rng, gs):
    c = [(g, a) for g, a in own_defs(gs) if a["type"] in ("int", "boolean", "string")]
    if not c:
        return None
    _, a = rng.choice(c)
    a["examples"] = {"int": ["a", "b"], "boolean": ["x"], "string": [1, 2]}[a["type"]]
    return [a["id"]]


# --- announced rules: warnings, errors with --future
def w_dup_ref(rng, gs):
    c = [g for g in gs if any("ref" in a for a in g.get("attributes", []))]
    if not c:
        return None
    g = rng.choice(c)
    a = rng.choice([a for a in g["attributes"] if "ref" in a])
    g["attributes"].append({"ref": a["ref"]})
    return [g["id"], a["ref"]]


def w_no_attr_stability(rng, gs):
    c = own_defs(gs)
    if not c:
        return None
    _, a = rng.choice(c)
    a.pop("stability", None)
    return [a["id"]]


def w_member_stability(rng, gs):
    c = [(g, a) for g, a in own_defs(gs) if isinstance(a["type"], dict)]
    if not c:
        return None
    _, a = rng.choice(c)
    rng.choice(a["type"]["members"]).pop("stability", None)
    return [a["id"]]


def w_unstructured_deprecated(rng, gs):
    if rng.random() < 0.5:
        g = any_group(rng, gs)
        g["deprecated"] = "replaced by something"
        return [g["id"]]
    c = own_defs(gs)
    if not c:
        return None
    _, a = rng.choice(c)
    a["deprecated"] = "replaced by something"
    return [a["id"]]


def w_prefix(rng, gs):
    g = pick(rng, gs, "span", "metric")
    if not g:
        return None
    own = {a["id"] for a in g.get("attributes", []) if "id" in a}
    if any(a.get("ref") in own for x in gs for a in x.get("attributes", [])):
        return None
    g["prefix"] = "pre"
    return [g["id"]]


def w_no_examples(rng, gs):
    c = [(g, a) for g, a in own_defs(gs) if a["type"] in ("string", "string[]") and "examples" in a]
    if not c:
        return None
    _, a = rng.choice(c)
    del a["examples"]
    return [a["id"]]


def twin(rng, gs, g):
    """A copy of g that references attributes only."""
    d = copy.deepcopy(g)
    d["attributes"] = [a for a in d.get("attributes", []) if "ref" in a]
    d.pop("extends", None)
    if not d["attributes"]:
        d["attributes"] = [{"ref": rng.choice([a["id"] for _, a in own_defs(gs)])}]
    return d


def vary(rng, d):
    """Properties that do not make the second one anything else: a duplicate stays a duplicate."""
    for k, v in (("brief", "another text"), ("note", "another note"), ("deprecated", {"reason": rng.choice(["obsoleted", "uncategorized"]), "note": "n"}),
                 ("stability", rng.choice(["development", "alpha", "beta", "release_candidate", "stable"])),
                 ("annotations", {"an": rng.choice([1, "two"])})):
        if rng.random() < 0.35:
            d[k] = v
    if rng.random() < 0.2:
        d.pop("deprecated", None)
    return d


def w_dup_group(rng, gs):
    """One group id twice; what else names a signal differs."""
    if not own_defs(gs):
        return None
    g = any_group(rng, gs)
    d = twin(rng, gs, g)
    for k, v in (("metric_name", "twin.metric"), ("name", "twin.name")):
        if k in d:
            d[k] = v
    if g["type"] == "entity" and "name" not in g:
        return None
    gs.append(vary(rng, d))
    return [g["id"]]


def w_v2_collision(rng, gs):
    """Two group ids that both name one signal in the v2 view."""
    g = pick(rng, gs, "span", "attribute_group")
    if not g or not own_defs(gs) or g["id"].startswith(g["type"] + "."):
        return None
    d = twin(rng, gs, g)
    d["id"] = g["type"] + "." + g["id"]
    gs.append(vary(rng, d))
    return [d["id"]]


def w_dup_metric(rng, gs):
    g = pick(rng, gs, "metric")
    if not g:
        return None
    d = copy.deepcopy(g)
    d["id"] = "metric.copy.of.it"
    d["attributes"] = [a for a in d.get("attributes", []) if "ref" in a]
    gs.insert(rng.randint(0, len(gs)), vary(rng, d))
    return [g["metric_name"]]


def w_dup_name(rng, gs):
    g = pick(rng, gs, "event")
    if not g:
        return None
    d = copy.deepcopy(g)
    d["id"] = "event.copy.of.it"
    d["attributes"] = [a for a in d.get("attributes", []) if "ref" in a]
    gs.insert(rng.randint(0, len(gs)), vary(rng, d))
    return [g["name"]]


def w_dup_attr(rng, gs):
    ag = [(g, a) for g, a in own_defs(gs) if g["type"] == "attribute_group"]
    if not ag:
        return None
    g, a = rng.choice(ag)
    gs.append({"id": "registry.second", "type": "attribute_group", "brief": "b", "attributes": [vary(rng, copy.deepcopy(a))]})
    return [a["id"]]


def w_no_extends_or_attrs(rng, gs):
    g = pick(rng, gs, "span", "entity")
    if not g:
        return None
    own = {a["id"] for a in g.get("attributes", []) if "id" in a}
    used = {a["ref"] for x in gs for a in x.get("attributes", []) if "ref" in a}
    if own & used or any(x.get("extends") == g["id"] for x in gs):
        return None
    if g["type"] == "entity" and "extends" in g:
        return None  # the name its associations use would change
    g.pop("attributes", None)
    g.pop("extends", None)
    return [g["id"]]


V1 = [
    ("unknown-ref", FATAL, d_unknown_ref), ("unknown-extends", FATAL, d_unknown_extends),
    ("extends-self", FATAL, d_extends_self), ("extends-cycle", FATAL, d_extends_cycle),
    ("unknown-entity", FATAL, d_unknown_entity), ("bad-type", FATAL, d_bad_type),
    ("unknown-field", FATAL, d_unknown_field), ("bad-enum-value", FATAL, d_bad_enum_value),
    ("bad-requirement", FATAL, d_bad_req), ("no-group-id", FATAL, d_no_id), ("no-attr-id", FATAL, d_attr_no_id),
    ("no-attr-type", FATAL, d_no_attr_type),
    ("assoc-misplaced", ERROR, d_assoc_misplaced), ("assoc-empty", ERROR, d_assoc_empty),
    ("metric-no-name", ERROR, drop("metric_name", "metric")), ("metric-no-unit", ERROR, drop("unit", "metric")),
    ("metric-no-instrument", ERROR, drop("instrument", "metric")), ("event-no-name", ERROR, d_event_no_name_body),
    ("no-brief", ERROR, d_no_brief), ("span-kind-misplaced", ERROR, d_span_kind_misplaced),
    ("events-misplaced", ERROR, d_events_misplaced), ("body-misplaced", ERROR, d_body_misplaced),
    ("wrong-example", ERROR, d_wrong_example),
    ("dup-ref", WARN, w_dup_ref), ("no-stability", WARN, drop("stability", "span", "metric", "event", "entity")),
    ("no-attr-stability", WARN, w_no_attr_stability), ("no-member-stability", WARN, w_member_stability),
    ("unstructured-deprecated", WARN, w_unstructured_deprecated), ("no-span-kind", WARN, drop("span_kind", "span")),
    ("prefix", WARN, w_prefix), ("no-examples", WARN, w_no_examples), ("dup-group-id", WARN, w_dup_group),
    ("dup-metric-name", WARN, w_dup_metric), ("dup-event-name", WARN, w_dup_name), ("dup-attr", ERROR, w_dup_attr),
    ("v2-collision", WARN, w_v2_collision),
    ("no-extends-or-attributes", WARN, w_no_extends_or_attrs),
]


# ---- v2 defects
def sig(rng, r, *secs):
    c = [g for s in secs for g in r.get(s, [])]
    return rng.choice(c) if c else None


def name2(g):
    return g.get("id") or g.get("type") or g.get("name")


SIGS = ("spans", "metrics", "events", "span_refinements", "metric_refinements", "event_refinements")


def x_unknown_ref(rng, r):
    g = sig(rng, r, *SIGS, "attribute_groups", "entities")
    if not g:
        return None
    n = f"no.such.attr{rng.randrange(99)}"
    g.setdefault("identity" if "identity" in g else "attributes", []).append({"ref": n})
    return [n]


def x_unknown_group(rng, r):
    g = sig(rng, r, *SIGS, "attribute_groups")
    if not g:
        return None
    n = f"no.such.group{rng.randrange(99)}"
    g.setdefault("attributes", []).append({"ref_group": n})
    return [n]


def x_unknown_base(rng, r):
    g = sig(rng, r, "span_refinements", "metric_refinements", "event_refinements", "entity_refinements")
    if not g:
        return None
    n = f"no.such.signal{rng.randrange(99)}"
    g["ref"] = n
    return [n]


def x_unknown_entity(rng, r):
    g = sig(rng, r, *SIGS)
    if not g:
        return None
    n = f"no.such.entity{rng.randrange(99)}"
    g.setdefault("entity_associations", []).append(rng.choice([n, {"one_of": [n]}, {"all_of": [{"one_of": [n]}]}]))
    return [n]


def x_group_cycle(rng, r):
    gs = r.get("attribute_groups", [])
    if not gs:
        return None
    ring = rng.sample(gs, rng.randint(1, len(gs)))
    for a, b in zip(ring, ring[1:] + ring[:1]):
        a["attributes"] = [x for x in a["attributes"] if "ref_group" not in x] + [{"ref_group": b["id"]}]
    return [ring[0]["id"]]


def x_identity_overlap(rng, r):
    g = sig(rng, r, "entities")
    if not g:
        return None
    a = rng.choice(g["identity"])["ref"]
    g.setdefault("description", []).append({"ref": a})
    return [a]


def x_no_identity(rng, r):
    g = sig(rng, r, "entities")
    if not g:
        return None
    g["identity"] = []
    return [g["type"]]


def x_refine_identity(rng, r):
    g = sig(rng, r, "entity_refinements")
    if not g:
        return None
    e = [e for e in r["entities"] if e["type"] == g["ref"]][0]
    used = {a["ref"] for a in e["identity"]}
    if rng.random() < 0.5:
        n = sorted(used)[0]
        g.setdefault("description", [])
        g["description"] = [a for a in g["description"] if a["ref"] != n] + [{"ref": n}]
        g["identity"] = [a for a in g.get("identity", []) if a["ref"] != n]
        if not g["identity"]:
            del g["identity"]
        return [n]
    new = [a["key"] for a in r["attributes"] if a["key"] not in used]
    new = [n for n in new if n not in {a["ref"] for a in e.get("description", []) + g.get("description", [])}]
    if not new:
        return None
    g.setdefault("identity", []).append({"ref": new[0]})
    return [new[0]]


def x_double_group(rng, r):
    gs = {g["id"]: g for g in r.get("attribute_groups", [])}
    s = sig(rng, r, "spans", "metrics", "events")
    if not gs or not s:
        return None
    gid = rng.choice(sorted(gs))
    n = [a["ref"] for a in gs[gid]["attributes"] if "ref" in a]
    if not n:
        return None
    r["attribute_groups"].append({"id": "twin.group", "visibility": "internal", "attributes": [{"ref": n[0]}]})
    s["attributes"] = [a for a in s.get("attributes", []) if "ref_group" not in a] + \
        [{"ref_group": gid}, {"ref_group": "twin.group"}]
    return [n[0]]


def xdrop(sec, field, level_named=False):
    def f(rng, r):
        g = sig(rng, r, sec)
        if not g or field not in g:
            return None
        del g[field]
        return []
    return f


NAMES = {"attributes": "key", "attribute_groups": "id", "spans": "type", "metrics": "name", "events": "name",
         "entities": "type", "span_refinements": "id", "metric_refinements": "id", "event_refinements": "id",
         "entity_refinements": "id"}


def xdup(*secs):
    def f(rng, r):
        secs_ = [s for s in secs if r.get(s)]
        if not secs_:
            return None
        s = rng.choice(secs_)
        g = copy.deepcopy(rng.choice(r[s]))
        if "refinements" in s or s == "attribute_groups":
            if rng.random() < 0.5 and "brief" in g:
                g["brief"] = "another text"
        else:
            vary(rng, g)
        r[s].insert(rng.randint(0, len(r[s])), g)
        return [g[NAMES[s]]]
    return f


def x_refinement_collision(rng, r):
    """A refinement takes the id of a signal of its type."""
    kinds = [k for k in ("span", "metric", "event") if r.get(k + "_refinements") and r.get(k + "s")]
    kinds += ["entity"] if r.get("entity_refinements") and r.get("entities") else []
    if not kinds:
        return None
    k = rng.choice(kinds)
    sec = "entities" if k == "entity" else k + "s"
    g = rng.choice(r[sec])
    n = g[NAMES[sec]]
    ref = rng.choice(r[k + "_refinements"])
    short = ref["id"].removeprefix(k + ".")
    if sum(json.dumps(r).count(json.dumps(x)) for x in {short, k + "." + short}) > 1:
        return None  # something else names the refinement, by either of its names
    ref["id"] = n
    return [json.dumps(n)[:-1]]


def x_bad_value(rng, r):
    g = sig(rng, r, "spans", "metrics", "events", "entities", "attributes")
    f, v = rng.choice([("stability", "rock"), ("kind", "clientele"), ("instrument", "trumpet"), ("bogus", 1),
                       ("requirement_level", "always"), ("brief", ["a"])])
    g[f] = v
    return []


def x_bad_attr_type(rng, r):
    a = sig(rng, r, "attributes")
    a["type"] = rng.choice(["strng", "template[foo]", {"members": "x"}, 3])
    a.pop("examples", None)
    return []


def x_format(rng, r):
    return "bad-format"


V2 = [
    ("unknown-ref", FATAL, x_unknown_ref), ("unknown-ref-group", FATAL, x_unknown_group),
    ("unknown-base", FATAL, x_unknown_base), ("unknown-entity", FATAL, x_unknown_entity),
    ("group-cycle", FATAL, x_group_cycle), ("identity-overlap", FATAL, x_identity_overlap),
    ("no-identity", FATAL, x_no_identity), ("refine-identity", FATAL, x_refine_identity),
    ("double-group", FATAL, x_double_group), ("bad-value", FATAL, x_bad_value), ("bad-type", FATAL, x_bad_attr_type),
    ("bad-file-format", FATAL, x_format),
    ("metric-no-unit", FATAL, xdrop("metrics", "unit")), ("metric-no-instrument", FATAL, xdrop("metrics", "instrument")),
    ("span-no-kind", FATAL, xdrop("spans", "kind")), ("span-no-name", FATAL, xdrop("spans", "name")),
    ("no-stability", FATAL, xdrop("events", "stability")), ("attr-no-stability", FATAL, xdrop("attributes", "stability")),
    ("attr-no-type", FATAL, xdrop("attributes", "type")), ("attr-no-brief", FATAL, xdrop("attributes", "brief")),
    ("refinement-no-id", FATAL, xdrop("metric_refinements", "id")),
    ("dup-attr", ERROR, xdup("attributes")), ("dup-attr-group", WARN, xdup("attribute_groups")),
    ("dup-span", WARN, xdup("spans")), ("dup-metric", WARN, xdup("metrics")), ("dup-event", WARN, xdup("events")),
    ("dup-entity", WARN, xdup("entities")),
    ("dup-refinement", WARN, xdup("span_refinements", "metric_refinements", "event_refinements", "entity_refinements")),
    ("refinement-collision", WARN, x_refinement_collision),
]

TEXT = ["groups: [", "groups:\n- id: a\n  - b", "{", "\t- x", "groups: 12", "just text", "groups:\n- 1\n", "- a\n- b\n",
        "groups:\n- id: &a x\n  type: *b\n", "groups: {id: x}\n", "\x00", "a: b: c"]

TEMPLATE = {"weaver.yaml": "templates:\n- template: all.j2\n  filter: .\n  application_mode: single\n  file_name: all.txt\n",
            "all.j2": "{{ ctx | tojson }}\n"}
MD = "# Title\n\n<!-- semconv registry.g1 -->\nold\n<!-- endsemconv -->\n"


def tree(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(b, f), d)] = open(os.path.join(b, f), "rb").read()
    return out


def main(tier, seed):
    c = Check("C04", tier, seed, "exploration",
              "A case is a valid generated registry with one planted defect, put before check, resolve, generate, "
              "update-markdown, package, stats and diff; judged are exit status, the words of the diagnostics, and the "
              "files that appear. One case in eight is the registry without the defect, which must be accepted. "
              "Distinct: (defect, command, registry). Non-trivial: all cases.",
              ["rules that weaver announces for the future are warnings, and errors only with --future"])
    c.setup()
    tdir = c.dir("templates/registry/t")
    reg.write_tree(tdir, TEMPLATE)

    def commands(kind, root, out, md):
        v2f = ["--v2"] if kind == "v2" else []
        com = ["--diagnostic-format", "json", "--skip-policies"]
        yield "check", ["registry", "check", "-r", root] + v2f + com, None
        yield "resolve", ["registry", "resolve", "-r", root, "-o", out + "/resolved.json", "--format", "json"] + v2f + com, None
        yield "generate", ["registry", "generate", "-r", root, "-t", c.work + "/templates", "t", out + "/gen"] + v2f + com, None
        if kind == "v1":
            yield "update-markdown", ["registry", "update-markdown", "-r", root, "-t", c.work + "/templates",
                                      "--target", "t", md, "--diagnostic-format", "json"], None
        yield "package", ["registry", "package", "-r", root, "--v2", "-o", out + "/pkg", "--resolved-registry-uri",
                          "https://example.test/x/resolved.yaml"] + com, None
        yield "stats", ["registry", "stats", "-r", root, "--diagnostic-format", "json"] + v2f, None
        yield "diff-head", ["registry", "diff", "-r", root, "--baseline-registry", good[kind], "--format", "json",
                            "--diagnostic-format", "json"] + v2f, None
        yield "diff-baseline", ["registry", "diff", "-r", good[kind], "--baseline-registry", root, "--format", "json",
                                "--diagnostic-format", "json"] + v2f, None
        yield "live-check", ["registry", "live-check", "-r", root, "--input-source", "stdin", "--input-format", "text",
                             "--format", "json", "--no-stream", "--diagnostic-format", "json"] + v2f, "a.b\n"

    good = {}
    g0 = c.dir("good1")
    reg.write_tree(g0, {"a.yaml": {"groups": [{"id": "registry.g", "type": "attribute_group", "brief": "b", "attributes": [
        {"id": "a.b", "type": "int", "brief": "b", "stability": "stable"}]}]}},
        manifest=reg.manifest("https://example.test/good/1.0.0"))
    good["v1"] = g0
    g0 = c.dir("good2")
    reg.write_tree(g0, {"a.yaml": {"file_format": "definition/2", "attributes": [
        {"key": "a.b", "type": "int", "brief": "b", "stability": "stable"}]}},
        manifest=reg.manifest("https://example.test/good/1.0.0"))
    good["v2"] = g0

    def case(i):
        rng = c.rng("case", i)
        valid = i % 8 == 7
        kind = "v1" if i % 2 == 0 else "v2"
        if valid:
            kind = rng.choice(["v1", "v2"])
        words, level, name = [], None, "valid"
        text_file = None
        if valid or rng.random() < 0.93:
            table = V1 if kind == "v1" else V2
            for attempt in range(60):
                content = v1.gen(rng) if kind == "v1" else v2.gen(rng)
                if valid:
                    break
                name, level, fn = table[(i // 2 + attempt * 7) % len(table)] if attempt else table[(i // 2) % len(table)]
                words = fn(rng, content)
                if words is not None:
                    break
            else:
                raise RuntimeError("no applicable defect")
        else:
            content = v1.gen(rng) if kind == "v1" else v2.gen(rng)
            name, level = "malformed-text", FATAL
            text_file = rng.choice(TEXT)
        n = rng.randint(1, 6)
        files = v1.split_files(rng, content, n) if kind == "v1" else v2.split_files(rng, content, n)
        if words == "bad-format":
            words = []
            files[rng.choice(sorted(files))]["file_format"] = rng.choice(["definition/9", "def/2", "2"])
        if text_file is not None:
            files[rng.choice(["bad.yaml", "sub/bad.yml"])] = text_file
        base = c.dir(f"c{i}")
        root = f"{base}/reg"
        reg.write_tree(root, files, rng, manifest=reg.manifest("https://example.test/t/1.0.0"))
        cmds = list(commands(kind, root, f"{base}/out", f"{base}/md"))
        cmds = cmds if c.thorough else [cmds[0]] + rng.sample(cmds[1:], 3)
        for cmd, args, stdin in cmds:
            os.makedirs(f"{base}/md", exist_ok=True)
            with open(f"{base}/md/a.md", "w") as f:
                f.write(MD)
            os.makedirs(f"{base}/out", exist_ok=True)
            futures = [False]
            if level == WARN and cmd == "check":
                futures = [False, True]
            for future in futures:
                r = c.run(args + (["--future"] if future else []), stdin=stdin)
                if r.timed_out:
                    c.count("timeouts")
                    continue
                key = f"{name}/{kind}/{cmd}" + ("/future" if future else "")
                c.saw(stable_hash([key, i]), sample={"defect": name, "level": level, "command": cmd, "exit": r.rc})
                c.count(f"{name}/{kind}")
                ds = reg.diags(r)
                text = json.dumps(ds, ensure_ascii=False)
                must_fail = level in (FATAL, ERROR) or (level == WARN and future)
                if cmd == "live-check" and level == ERROR:
                    must_fail = None
                problem = None
                if must_fail and r.rc == 0:
                    problem = f"accepted (exit 0)"
                elif must_fail is False and r.rc != 0 and cmd not in ("update-markdown", "live-check"):
                    if valid or level == WARN:
                        problem = f"rejected (exit {r.rc})"
                if not problem and must_fail and not ds:
                    problem = "failed without a diagnostic"
                if not problem and words and (must_fail or level == WARN) and cmd not in ("diff-baseline", "live-check") \
                        and not (cmd == "update-markdown" and level != FATAL):
                    if not any(w in text for w in words) and (must_fail or cmd in ("check", "resolve")):
                        problem = f"the diagnostics name none of {words}"
                left = tree(f"{base}/out")
                mdnow = open(f"{base}/md/a.md").read()
                if not problem and level == FATAL and left:
                    problem = f"output was written: {sorted(left)}"
                if not problem and level in (FATAL,) and mdnow != MD:
                    problem = "a markdown file was changed"
                if not problem and level == ERROR and any(p.startswith("pkg/") for p in left):
                    problem = f"a package was written: {sorted(left)}"
                if not problem and level == FATAL and cmd in ("stats", "diff-head", "diff-baseline", "live-check") \
                        and r.out.strip() and not r.out.lstrip().startswith("[") and "diff" in cmd:
                    problem = "a diff was printed"
                if not problem and valid and cmd == "resolve" and not os.path.exists(f"{base}/out/resolved.json"):
                    problem = "no output for a valid registry"
                if problem:
                    c.violation(key, f"{problem} (defect {name}, expected in diagnostics: {words})\n" + r.brief(), keep=root)
                for p in left:
                    os.unlink(f"{base}/out/{p}")

    c.map(case, range(c.n(1600, 14000)))
    return c.finish()
