"""Live check: a small registry generator (written out as v1 or v2 definitions), a telemetry generator, and a
reference model of the findings (docs/usage.md, crates/weaver_live_check/README.md, otel.rego)."""
import json
import re

from . import v1

PRIMS = ["string", "int", "double", "boolean", "string[]", "int[]", "double[]", "boolean[]", "any"]
NAME = re.compile(r"[a-z][a-z0-9]*([._][a-z0-9]+)*")
LEVELS = {"information": 0, "improvement": 1, "violation": 2}


# ------------------------------------------------------------------ registry
def req(rng):
    return rng.choice([None, "required", "required", "recommended", "opt_in", {"conditionally_required": "if so"},
                       {"recommended": "when asked"}, {"opt_in": "maybe"}])


def level_of(r):
    if r is None:
        return "recommended"
    return r if isinstance(r, str) else next(iter(r))


def gen(rng, entities=True):
    """{attributes, metrics, events, spans, entities, refinements}: an abstract registry."""
    names, roots = [], []
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        if names and r < 0.3:
            p = rng.choice(names).split(".")
            n = ".".join(p[:rng.randint(1, len(p) - 1)] + [rng.choice(v1.LEAF) + str(rng.randrange(9))])
        elif names and r < 0.42:
            n = rng.choice(names) + "." + rng.choice(v1.LEAF)
        elif r < 0.5:
            n = rng.choice(v1.WORDS) + "." + rng.choice(v1.LEAF) + "_" + rng.choice(v1.LEAF)
        else:
            n = ".".join([rng.choice(v1.WORDS) for _ in range(rng.randint(1, 3))] + [rng.choice(v1.LEAF)])
        if n not in names and not any(m.startswith(n) or n.startswith(m) for m in roots):
            names.append(n)
            if rng.random() < 0.15 and not any(m != n and m.startswith(n) for m in names):
                roots.append(n)                      # a template: what begins with its name is added here only
                if rng.random() < 0.5:
                    t = n + rng.choice(["x", "_y", ".sub", ".a.b"])
                    names.append(t)
                    roots.append(t)                  # a template whose name is longer
                if rng.random() < 0.3:
                    names.append(n + rng.choice([".exact", ".sub.exact", "x.exact"]))
    attrs = []
    for n in names:
        if n in roots:
            t = f"template[{rng.choice(PRIMS)}]"
        elif rng.random() < 0.25:
            kind = rng.choice(["string", "int"])
            t = {"members": [{"id": f"m{i}", "value": f"v{i}" if kind == "string" else i * 7 - 3 << rng.choice([0, 0, 33]),
                              "stability": "stable", "brief": "b"} for i in range(rng.randint(1, 4))]}
        else:
            t = rng.choice(PRIMS)
        a = {"name": n, "type": t, "brief": "b", "stability": rng.choice(v1.STAB + ["stable"] * 3)}
        if isinstance(t, str) and "string" in t:
            a["examples"] = [["a"]] if "[]" in t else ["a"]
        if rng.random() < 0.2:
            a["deprecated"] = dep(rng, names)
        attrs.append(a)

    def refs(lo, hi, pool=None):
        pool = names if pool is None else pool
        return [(n, req(rng)) for n in rng.sample(pool, min(len(pool), rng.randint(lo, hi)))]

    ents, refinements = [], []
    if entities:
        for i in range(rng.randint(0, 3)):
            plain = [n for n in names if n not in roots]
            if not plain:
                break
            ident = refs(1, 2, plain)
            rest = [n for n in plain if n not in {x for x, _ in ident}]
            e = {"type": f"{rng.choice(v1.WORDS)}.ent{i}", "identity": ident, "description": refs(0, 2, rest)}
            ents.append(e)
            if rng.random() < 0.4:
                over = [(n, req(rng)) for n, _ in e["description"] if rng.random() < 0.7]
                more = [n for n in rest if n not in {x for x, _ in e["description"]}]
                if more and rng.random() < 0.5:
                    over += refs(1, 1, more)
                refinements.append({"id": f"{e['type']}.refined", "ref": e["type"], "description": over})

    def sig(kind, i):
        s = {"name": f"{rng.choice(v1.WORDS)}.{kind}{i}", "brief": "b", "attributes": refs(0, 5),
             "stability": rng.choice(v1.STAB + ["stable"] * 3)}
        if rng.random() < 0.2:
            s["deprecated"] = dep(rng, names)
        en = [e["type"] for e in ents] + [r["id"] for r in refinements]
        if en and kind != "span" and rng.random() < 0.6:
            s["entity_associations"] = v1.assoc(rng, en)
        return s

    metrics, events, spans = [], [], []
    for i in range(rng.randint(1, 4)):
        m = sig("metric", i)
        m["instrument"] = rng.choice(["counter", "gauge", "updowncounter", "histogram"])
        m["unit"] = rng.choice(["1", "s", "By", "{request}"])
        metrics.append(m)
    for i in range(rng.randint(0, 3)):
        events.append(sig("event", i))
    for i in range(rng.randint(0, 2)):
        s = sig("span", i)
        s["kind"] = rng.choice(["client", "server", "producer", "consumer", "internal"])
        spans.append(s)
    return {"attributes": attrs, "metrics": metrics, "events": events, "spans": spans, "entities": ents,
            "refinements": refinements}


def dep(rng, names):
    d = v1.deprecated(rng, names)
    d.setdefault("note", "gone") if d["reason"] != "renamed" else None
    return d


def refs_out(l):
    return [{"ref": n, **({"requirement_level": r} if r is not None else {})} for n, r in l]


def keep(s, *fields):
    return {f: s[f] for f in fields if f in s}


def as_v1(rng, r):
    """v1 groups; entity refinements have no v1 form, so associations must not name them."""
    groups = []
    for k, part in enumerate([r["attributes"][0::2], r["attributes"][1::2]]):
        if part:
            groups.append({"id": f"registry.part{k}", "type": "attribute_group", "brief": "b", "attributes":
                           [{"id": a["name"], **{x: y for x, y in a.items() if x != "name"}} for a in part]})
    common = ("brief", "note", "stability", "deprecated", "entity_associations")
    for m in r["metrics"]:
        groups.append({"id": "metric." + m["name"], "type": "metric", "metric_name": m["name"],
                       **keep(m, "instrument", "unit", *common), "attributes": refs_out(m["attributes"])})
    for e in r["events"]:
        groups.append({"id": "event." + e["name"], "type": "event", "name": e["name"], **keep(e, *common),
                       "attributes": refs_out(e["attributes"])})
    for s in r["spans"]:
        groups.append({"id": "span." + s["name"], "type": "span", "span_kind": s["kind"], **keep(s, *common),
                       "attributes": refs_out(s["attributes"])})
    for e in r["entities"]:
        groups.append({"id": "entity." + e["type"], "type": "entity", "name": e["type"],
                       "brief": "b", "stability": "stable", **keep(e, "brief", "note", "stability", "deprecated"),
                       "attributes": [{**a, "role": "identifying"} for a in refs_out(e["identity"])] +
                       [{**a, "role": "descriptive"} for a in refs_out(e["description"])]})
    for g in groups:
        if not g.get("attributes", True):
            del g["attributes"]
    return v1.split_files(rng, groups, rng.randint(1, 3))


def as_v2(rng, r):
    from . import v2
    con = {"attributes": [{"key": a["name"], **{x: y for x, y in a.items() if x != "name"}} for a in r["attributes"]]}
    common = ("brief", "note", "stability", "deprecated", "entity_associations")
    con["metrics"] = [{"name": m["name"], **keep(m, "instrument", "unit", *common),
                       "attributes": refs_out(m["attributes"])} for m in r["metrics"]]
    con["events"] = [{"name": m["name"], **keep(m, *common), "attributes": refs_out(m["attributes"])}
                     for m in r["events"]]
    con["spans"] = [{"type": m["name"], "kind": m["kind"], "name": {"note": "n"}, **keep(m, *common),
                     "attributes": refs_out(m["attributes"])} for m in r["spans"]]
    con["entities"] = [{"type": e["type"], "brief": "b", "stability": "stable",
                        **keep(e, "brief", "note", "stability", "deprecated"), "identity": refs_out(e["identity"]),
                        **({"description": refs_out(e["description"])} if e["description"] else {})}
                       for e in r["entities"]]
    con["entity_refinements"] = [{"id": x["id"], "ref": x["ref"],
                                  **({"description": refs_out(x["description"])} if x["description"] else {})}
                                 for x in r["refinements"]]
    for s in ("metrics", "events", "spans"):
        for m in con[s]:
            if not m["attributes"]:
                del m["attributes"]
    return v2.split_files(rng, {s: l for s, l in con.items() if l}, rng.randint(1, 3))


def drop_refinements(r):
    """For v1: associations name entities only."""
    ids = {x["id"]: x["ref"] for x in r["refinements"]}

    def f(a):
        if isinstance(a, list):
            return [f(x) for x in a]
        if isinstance(a, dict):
            return {k: f(v) for k, v in a.items()}
        return ids.get(a, a)
    for s in r["metrics"] + r["events"]:
        if "entity_associations" in s:
            s["entity_associations"] = f(s["entity_associations"])
    r["refinements"] = []


# ----------------------------------------------------------------- telemetry
VALUES = ["x", "v0", "v1", "", 0, 1, -3, 4, 11, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, -2 ** 63, 1.0, 2.5, -0.5, True,
          False, None, ["a", "b"], ["a"], [1, 2], [1.5], [1, 2.5], [True], [], [None], [None, 3], ["a", 1], [1, "a"],
          {"k": 1}, [[1]], [{"a": 1}], "ünï ✓", "true", "1", ["a", "a"], [1, 1], [2, 1, 2], [[1, 1], [1]], [None, None],
          {"a": [1, 1], "b": {"c": None}}]
FIT = {"string": ["s", "v9", ""], "int": [0, -1, 2 ** 62], "double": [1.5, 3], "boolean": [True, False],
       "string[]": [["a"], ["a", None], ["b", "a", "b"]], "int[]": [[1], [1, 2], [1, 1]],
       "double[]": [[1.5], [1, 2], [2.5, 1], [1, 1.5, 1]], "boolean[]": [[True], [True, False, True]], "any": ["q", 1, [1], True]}


class Telemetry:
    def __init__(self, rng, r):
        self.rng, self.r = rng, r
        self.by = {a["name"]: a for a in r["attributes"]}
        self.templates = [n for n, a in self.by.items() if is_template(a)]

    def name(self):
        rng = self.rng
        names = list(self.by)
        q = rng.random()
        if q < 0.5:
            n = rng.choice(names)
            return n + "." + rng.choice(["k1", "Some-Key", "a.b"]) if n in self.templates else n
        if q < 0.62:                                  # below an attribute or beside one
            n = rng.choice(names)
            return n + "." + rng.choice(["sub", "sub.more", "Bad"])
        if q < 0.75:
            p = rng.choice(names).split(".")
            return ".".join(p[:rng.randint(1, len(p) - 1)] + ["unseen" + str(rng.randrange(3))])
        n = rng.choice(["flat", "no.such.thing", "camelCase.x", "_lead.x", "a..b", ".dot", "trail.", "sp ace.x",
                        "ünï.x", "x.9", "9.x", "a.b_c.d", "a__b.c", "a-b.c", "no.such.other"])
        return n

    def value(self, name):
        rng = self.rng
        a = self.by.get(name) or next((self.by[t] for t in self.templates if name.startswith(t)), None)
        if a is None or rng.random() < 0.25:
            return rng.choice(VALUES)
        t = a["type"]
        if isinstance(t, dict):
            v = rng.choice([m["value"] for m in t["members"]])
            q = rng.random()                          # or nearly a member
            return v if q < 0.7 else (v + rng.choice(["x", " ", ""]) if isinstance(v, str)
                                      else v + rng.choice([1 << 32, -(1 << 32), 1, 256]))
        return rng.choice(FIT[base_type(t)])

    def attr(self, name=None):
        rng = self.rng
        n = name or self.name()
        a = {"name": n}
        q = rng.random()
        if q < 0.8:
            a["value"] = self.value(n)
        if q < 0.1 or q > 0.92:
            a["type"] = rng.choice(PRIMS[:-1])
        return a

    def attrs(self, of=None, hi=5):
        rng = self.rng
        names = []
        for n, _ in of or []:
            if rng.random() < 0.65:
                names.append(n + ".k1" if n in self.templates else n)
        for _ in range(rng.choice([0, 0, 1, 2]) if of else rng.randint(0, hi)):
            names.append(self.name())
        names = list(dict.fromkeys(names))
        rng.shuffle(names)
        return [self.attr(n) for n in names]

    def exemplar(self):
        return {"filtered_attributes": self.attrs(hi=2), "value": self.rng.choice([1, 2.5]),
                "timestamp": "2024-01-01T00:00:00Z", "span_id": "0123456789abcdef",
                "trace_id": "0123456789abcdef0123456789abcdef"}

    def metric(self):
        rng = self.rng
        m = rng.choice(self.r["metrics"])
        unknown = rng.random() < 0.2
        out = {"name": rng.choice(["no.such.metric", "Bad.Metric", "flat", "a-b"]) if unknown else m["name"],
               "instrument": rng.choice([m["instrument"]] * 3 + ["counter", "histogram", "gauge", "summary", "weird"]),
               "unit": rng.choice([m["unit"]] * 3 + ["ms", ""])}
        q = rng.random()
        if q < 0.9:
            pts = []
            hist = out["instrument"] == "histogram"
            for _ in range(rng.randint(0, 3)):
                p = {"attributes": self.attrs(m["attributes"])}
                if hist:
                    p.update(count=rng.randrange(9), sum=1.5, bucket_counts=[1, 2], explicit_bounds=[0.5])
                else:
                    p["value"] = rng.choice([1, 2.5, -3])
                if rng.random() < 0.3:
                    p["exemplars"] = [self.exemplar() for _ in range(rng.randint(1, 2))]
                pts.append(p)
            out["data_points"] = pts
        return {"metric": out}

    def log(self):
        rng = self.rng
        e = rng.choice(self.r["events"]) if self.r["events"] else {"name": "none.such", "attributes": []}
        n = rng.choice([e["name"]] * 5 + ["no.such.event", ""])
        out = {"event_name": n, "attributes": self.attrs(e["attributes"])}
        if rng.random() < 0.4:
            out.update(severity_number=rng.randint(1, 24), severity_text="INFO", body="b")
        if rng.random() < 0.2:
            out.update(trace_id="0123456789abcdef0123456789abcdef", span_id="0123456789abcdef")
        return {"log": out}

    def span(self):
        rng = self.rng
        s = rng.choice(self.r["spans"]) if self.r["spans"] else None
        out = {"name": rng.choice(["GET /x", s["name"] if s else "s", "ünï"]),
               "kind": rng.choice(["client", "server", "producer", "consumer", "internal"]),
               "attributes": self.attrs(s["attributes"] if s else None)}
        if rng.random() < 0.3:
            out["status"] = {"code": rng.choice(["unset", "ok", "error"]), "message": "m"}
        if rng.random() < 0.4:
            out["span_events"] = [{"name": rng.choice(["exception", "e1"]), "attributes": self.attrs(hi=2)}
                                  for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.3:
            out["span_links"] = [{"attributes": self.attrs(hi=2)} for _ in range(rng.randint(1, 2))]
        return {"span": out}

    def resource(self):
        rng = self.rng
        names = []
        for e in self.r["entities"]:
            if rng.random() < 0.7:
                p = rng.choice([0.5, 0.8, 1])
                names += [n for n, _ in e["identity"] + e["description"] if rng.random() < p]
        names += [self.name() for _ in range(rng.randint(0, 2))]
        return {"resource": {"attributes": [self.attr(n) for n in dict.fromkeys(names)]}}

    def scope(self):
        return {"instrumentation_scope": {"name": self.rng.choice(["lib", ""]), "version": "1.0", "schema_url": "",
                                          "attributes": self.attrs(hi=2)}}

    def sample(self):
        q = self.rng.random()
        if q < 0.2:
            return {"attribute": self.attr()}
        if q < 0.5:
            return self.metric()
        if q < 0.7:
            return self.log()
        if q < 0.85:
            return self.span()
        if q < 0.95:
            return self.resource()
        if q < 0.98:
            return self.scope()
        if q < 0.99:
            return {"span_event": {"name": "top", "attributes": self.attrs(hi=2)}}
        return {"span_link": {"attributes": self.attrs(hi=2)}}


def is_template(a):
    return isinstance(a["type"], str) and a["type"].startswith("template[")


def base_type(t):
    return t[9:-1] if t.startswith("template[") else t


# --------------------------------------------------------------------- model
def infer(v):
    if v is None or isinstance(v, dict):
        return None
    if isinstance(v, bool):
        return "boolean"
    if isinstance(v, int):
        return "int" if -2 ** 63 <= v < 2 ** 64 else "double"
    if isinstance(v, float):
        return "double"
    if isinstance(v, str):
        return "string"
    ts = [infer(x) for x in v if x is not None]
    if not ts or any(t not in ("boolean", "int", "double", "string") for t in ts):
        return None
    if len(set(ts)) == 1:
        return ts[0] + "[]"
    # a list that begins with an int and goes on with doubles is a list of numbers
    return "double[]" if set(ts) == {"int", "double"} else None


def compatible(got, want):
    return "any" in (got, want) or got == want or (got, want) in (("int", "double"), ("int[]", "double[]"))


def eff_dep(d):
    e = v1.exp_deprecated(d)
    return e["reason"], e["note"]


class Model:
    """The findings the registry calls for. `scope_inputs` collects what a custom policy must be given."""

    def __init__(self, r):
        self.r = r
        self.attrs = {a["name"]: a for a in r["attributes"] if not is_template(a)}
        self.templates = {a["name"]: a for a in r["attributes"] if is_template(a)}
        self.metrics = {m["name"]: m for m in r["metrics"]}
        self.events = {m["name"]: m for m in r["events"]}
        self.entities = {}
        for e in r["entities"]:
            self.entities[e["type"]] = (e["type"], dict(e["identity"]) | dict(e["description"]))
        for x in r["refinements"]:
            t, at = self.entities[x["ref"]]
            at = dict(at)
            for n, q in x["description"]:
                at[n] = q if q is not None else at.get(n)
            self.entities[x["id"]] = (t, at)
        self.namespaces = set()
        for n in self.attrs:
            p = n.split(".")
            self.namespaces |= {".".join(p[:i]) for i in range(1, len(p))}

    def lookup(self, name):
        if name in self.attrs:
            return self.attrs[name]
        best = [t for t in self.templates if name.startswith(t)]
        return self.templates[max(best, key=len)] if best else None

    # the samples -----------------------------------------------------------
    def check(self, samples):
        """-> list of (path, kind, findings) for every entity, in a dict path -> (kind, findings)."""
        out = {}
        resource = None
        for i, s in enumerate(samples):
            (kind, x), = s.items()
            if kind == "resource":
                resource = x
            self.top(out, f"{i}", kind, x, resource)
        return out

    def top(self, out, path, kind, x, resource):
        sig = {"span": ("span", x.get("name")), "metric": ("metric", x.get("name")),
               "log": ("log", x.get("event_name")), "resource": ("resource", None), "profile": ("profile", None)}.get(kind, (None, None))
        F = lambda *a: finding(*a, sig)

        def at(p, l):
            for j, a in enumerate(l):
                out[f"{p}[{j}]"] = ("attribute", self.attribute(a, F))

        if kind == "attribute":
            out[path] = ("attribute", self.attribute(x, F))
        elif kind == "metric":
            self.metric(out, path, x, resource, F, at)
        elif kind == "log":
            out[path] = ("log", self.log(x, resource, F))
            at(path + ".attributes", x.get("attributes", []))
        elif kind == "span":
            out[path] = ("span", [])
            at(path + ".attributes", x.get("attributes", []))
            for j, e in enumerate(x.get("span_events", [])):
                out[f"{path}.span_events[{j}]"] = ("span_event", [])
                at(f"{path}.span_events[{j}].attributes", e.get("attributes", []))
            for j, e in enumerate(x.get("span_links", [])):
                out[f"{path}.span_links[{j}]"] = ("span_link", [])
                at(f"{path}.span_links[{j}].attributes", e.get("attributes", []))
        else:
            out[path] = (kind, [])
            at(path + ".attributes", x.get("attributes", []))

    def attribute(self, a, F):
        n = a["name"]
        d = self.lookup(n)
        out = []
        key = {"attribute_key": n}
        t = a.get("type") or (infer(a["value"]) if "value" in a else None)
        if d is None:
            out.append(F("missing_attribute", "violation", f"Attribute '{n}' does not exist in the registry.", key))
        else:
            tpl = is_template(d)
            if tpl:
                out.append(F("template_attribute", "information", f"Attribute '{n}' is a template",
                             {**key, "template_name": d["name"]}))
            out += self.life("Attribute", n, key, d, F)
            if t is not None:
                if isinstance(d["type"], dict):
                    if t not in ("string", "int"):
                        out.append(F("type_mismatch", "violation", f"Enum attribute '{n}' has type '{t}'. Enum value "
                                     "type should be 'string' or 'int'.", {**key, "attribute_type": t}))
                elif not compatible(t, base_type(d["type"])):
                    e = base_type(d["type"])
                    out.append(F("type_mismatch", "violation", f"Attribute '{n}' has type '{t}'. Type should be '{e}'.",
                                 {**key, "attribute_type": t, "expected": e}))
            if isinstance(d["type"], dict) and t in ("string", "int") and a.get("value") is not None:
                v = a["value"]
                ok = {"string": isinstance(v, str), "int": isinstance(v, int) and not isinstance(v, bool)}[t]
                if not (ok and any(m["value"] == v and isinstance(m["value"], str) == isinstance(v, str)
                                   for m in d["type"]["members"])):
                    shown = v if isinstance(v, str) else compact(v)
                    out.append(F("undefined_enum_variant", "information", f"Enum attribute '{n}' has value '{shown}' "
                                 "which is not documented.", {**key, "attribute_value": v}))
        # naming rules
        tpl = any(n.startswith(x) for x in self.templates)
        if "." not in n:
            out.append(F("missing_namespace", "improvement", f"Attribute key '{n}' must include a namespace (e.g. "
                         "'{namespace}.{attribute_key}')", key))
        if not tpl and not NAME.fullmatch(n):
            out.append(F("invalid_format", "violation", f"Attribute key '{n}' does not match name formatting rules.", key))
        if "." in n:
            p = n.split(".")
            spaces = [".".join(p[:i]) for i in range(1, len(p))]
            for s in dict.fromkeys(spaces):
                if s in self.attrs and "deprecated" not in self.attrs[s]:
                    out.append(F("illegal_namespace", "violation", f"Namespace '{s}' collides with existing attribute "
                                 f"'{n}'", {**key, "namespace": s}))
            hit = [s for s in spaces if s in self.namespaces]
            if hit and not tpl and n not in self.attrs:
                out.append(F("extends_namespace", "information", f"Attribute key '{n}' collides with existing namespace "
                             f"'{hit[-1]}'", {**key, "namespace": hit[-1]}))
        return out

    def life(self, what, n, key, d, F):
        out = []
        if "deprecated" in d:
            reason, note = eff_dep(d["deprecated"])
            out.append(F("deprecated", "violation", f"{what} '{n}' is deprecated; reason = '{reason}', note = '{note}'.",
                         {**key, "deprecation_reason": reason, "deprecation_note": note}))
        if d["stability"] != "stable":
            out.append(F("not_stable", "improvement", f"{what} '{n}' is not stable; stability = {d['stability']}.",
                         {**key, "stability": d["stability"]}))
        return out

    def required(self, refs, attrs, F):
        out = []
        names = [a["name"] for a in attrs]
        for n, q in refs:
            if n in self.templates:
                here = any(x.startswith(n) for x in names)
            else:
                here = n in names
            if not here:
                l, level, what = LEVEL[level_of(q)]
                out.append(F(f"{l}_attribute_not_present", level, f"{what} attribute '{n}' is not present.",
                             {"attribute_key": n}))
        return out

    def metric(self, out, path, x, resource, F, at):
        n = x["name"]
        d = self.metrics.get(n)
        fs = []
        if d is None:
            fs.append(F("missing_metric", "violation", "Metric does not exist in the registry.", None))
        else:
            fs += self.life("Metric", n, {"metric_name": n}, d, F)
            i = x["instrument"]
            if i not in ("counter", "gauge", "updowncounter", "histogram"):
                fs.append(F("unexpected_instrument", "violation", f"Instrument '{i}' is not supported", {"instrument": i}))
            elif i != d["instrument"]:
                fs.append(F("unexpected_instrument", "violation", f"Instrument should be '{d['instrument']}', but found "
                            f"'{i}'.", {"instrument": i, "expected": d["instrument"]}))
            if x["unit"] != d["unit"]:
                fs.append(F("unit_mismatch", "violation", f"Unit should be '{d['unit']}', but found '{x['unit']}'.",
                            {"unit": x["unit"], "expected": d["unit"]}))
            fs += self.associations(d, resource, F)
        if not NAME.fullmatch(n):
            fs.append(F("invalid_format", "violation", f"Metric name '{n}' does not match name formatting rules.",
                        {"metric_name": n}))
        out[path] = ("metric", fs)
        for j, p in enumerate(x.get("data_points") or []):
            q = f"{path}.data_points[{j}]"
            out[q] = ("data_point", self.required(d["attributes"], p["attributes"], F) if d else [])
            at(q + ".attributes", p["attributes"])
            for k, e in enumerate(p.get("exemplars", [])):
                out[f"{q}.exemplars[{k}]"] = ("exemplar", [])
                at(f"{q}.exemplars[{k}].filtered_attributes", e["filtered_attributes"])

    def log(self, x, resource, F):
        n = x["event_name"]
        if n == "":
            return []
        d = self.events.get(n)
        if d is None:
            return [F("missing_event", "violation", f"Event '{n}' does not exist in the registry.", None)]
        return self.life("Event", n, {"event_name": n}, d, F) + self.required(d["attributes"], x.get("attributes", []), F) \
            + self.associations(d, resource, F)

    # entity associations ----------------------------------------------------
    def associations(self, d, resource, F):
        l = d.get("entity_associations") or []
        names = {a["name"] for a in (resource or {}).get("attributes", [])}
        if not l:
            return []
        return (self.assoc(l[0], names, F) if len(l) == 1 else self.one_of(l, names, F))[1]

    def assoc(self, a, names, F):
        if isinstance(a, str):
            if a not in self.entities:
                return True, []
            t, ats = self.entities[a]
            fs = []
            for n, q in ats.items():
                if n not in names:
                    l, level, what = LEVEL[level_of(q)]
                    fs.append(F(f"entity_{l}_attribute_not_present", level,
                                f"{what} attribute '{n}' for entity '{t}' is not present in the resource.",
                                {"attribute_key": n, "entity_type": t}))
            return not any(f["level"] == "violation" for f in fs), fs
        if "one_of" in a:
            return self.one_of(a["one_of"], names, F)
        rs = [self.assoc(x, names, F) for x in a["all_of"]]
        return all(ok for ok, _ in rs), [f for _, fs in rs for f in fs]

    def one_of(self, l, names, F):
        rs = [self.assoc(x, names, F) for x in l]
        if any(ok for ok, _ in rs):
            return True, [f for ok, fs in rs if ok for f in fs]
        flat = []

        def walk(a):
            if isinstance(a, str):
                flat.append(a)
            else:
                for x in next(iter(a.values())):
                    walk(x)
        for a in l:
            walk(a)
        es = list(dict.fromkeys(flat))
        return False, [F("entity_association_not_satisfied", "violation",
                         f"None of the associated entities [{', '.join(es)}] were satisfied by the resource.",
                         {"entity_type": es})]


LEVEL = {"required": ("required", "violation", "Required"), "recommended": ("recommended", "improvement", "Recommended"),
         "opt_in": ("opt_in", "information", "Opt-in"),
         "conditionally_required": ("conditionally_required", "information", "Conditionally required")}


def compact(v):
    return json.dumps(v, separators=(",", ":"), ensure_ascii=False)


def finding(id, level, message, context, sig):
    return {"id": id, "level": level, "message": message, "context": context, "signal_type": sig[0],
            "signal_name": sig[1]}


def observed(samples):
    """The entities of a report: path -> (kind, live_check_result)."""
    out = {}

    def at(p, l):
        for j, a in enumerate(l or []):
            out[f"{p}[{j}]"] = ("attribute", a.get("live_check_result"))

    for i, s in enumerate(samples):
        (kind, x), = s.items()
        p = str(i)
        out[p] = (kind, x.get("live_check_result"))
        at(p + ".attributes", x.get("attributes"))
        for f, k in (("span_events", "span_event"), ("span_links", "span_link")):
            for j, e in enumerate(x.get(f) or []):
                out[f"{p}.{f}[{j}]"] = (k, e.get("live_check_result"))
                at(f"{p}.{f}[{j}].attributes", e.get("attributes"))
        for j, d in enumerate(x.get("data_points") or []):
            q = f"{p}.data_points[{j}]"
            out[q] = ("data_point", d.get("live_check_result"))
            at(q + ".attributes", d.get("attributes"))
            for k, e in enumerate(d.get("exemplars") or []):
                out[f"{q}.exemplars[{k}]"] = ("exemplar", e.get("live_check_result"))
                at(f"{q}.exemplars[{k}].filtered_attributes", e.get("filtered_attributes"))
    return out


def bag(fs):
    return sorted(json.dumps({k: f.get(k) for k in ("id", "level", "message", "context", "signal_type", "signal_name")},
                             sort_keys=True) for f in fs)


def subset(want, got, path="$"):
    """Differences where `got` does not carry what `want` holds."""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return [f"{path}: {got!r}"]
        return [d for k, v in want.items() for d in (subset(v, got.get(k), f"{path}.{k}"))]
    if isinstance(want, list):
        if not isinstance(got, list) or len(want) != len(got):
            return [f"{path}: expected {compact(want)[:200]}, got {compact(got)[:200]}"]
        return [d for i, (a, b) in enumerate(zip(want, got)) for d in subset(a, b, f"{path}[{i}]")]
    if want != got or isinstance(want, bool) != isinstance(got, bool):
        return [f"{path}: expected {want!r}, got {got!r}"]
    return []
