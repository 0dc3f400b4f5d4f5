"""C15: `registry emit` sends every signal of the registry once, as the registry defines it.

Generated registries are emitted to a collector of our own, which records every OTLP request; each span, metric and
log record is compared with the definition it stands for. A part of the runs emits to a real `registry live-check` on
the same registry instead, whose report must hold no attribute, type, unit, instrument or presence finding."""
import collections
import json
import os
import re

from lib import h2, live, otlp
from lib.common import Check, stable_hash
from lib.reg import write_tree


KINDS = {"internal": 1, "server": 2, "client": 3, "producer": 4, "consumer": 5}
FORBIDDEN = {"missing_attribute", "type_mismatch", "undefined_enum_variant", "required_attribute_not_present",
             "recommended_attribute_not_present", "opt_in_attribute_not_present", "missing_metric", "missing_event",
             "unexpected_instrument", "unit_mismatch"}
STR = ["a", "GET /x", "", "ünï ✓", "1", "true", "line\nbreak", "<b>\"q\""]
INT = [0, 1, -3, 2 ** 53 + 1, 2 ** 62, -2 ** 63, 200]
DBL = [0.5, -2.25, 1e300, 3.0, 1e-9]
POOL = {"string": STR, "int": INT, "double": DBL, "boolean": [True, False]}


def enrich(rng, r):
    """Examples of every shape, and enums of every value type."""
    for a in r["attributes"]:
        t = a["type"]
        if isinstance(t, dict):
            continue
        a.pop("examples", None)
        if t.startswith("template["):
            if "string" in t:
                a["examples"] = [["x"]] if "[]" in t else ["x"]
            continue
        if t.endswith("[]"):
            p = POOL[t[:-2]]
            q = rng.random()
            if q < 0.5:
                a["examples"] = [[rng.choice(p) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]
            elif q < 0.7 or t == "string[]":
                a["examples"] = [[rng.choice(p)]]
        elif t == "any":
            q = rng.random()
            k = rng.choice(list(POOL))
            if q < 0.4:
                a["examples"] = [rng.choice(POOL[k]) for _ in range(rng.randint(1, 3))]
            elif q < 0.6:
                a["examples"] = rng.choice(POOL[k])
            elif q < 0.8:
                a["examples"] = [[rng.choice(POOL[k]) for _ in range(2)]]
            else:
                a["examples"] = [rng.choice(POOL[rng.choice(list(POOL))]) for _ in range(3)]
        else:
            q = rng.random()
            if q < 0.6 or t == "string":
                a["examples"] = [rng.choice(POOL[t]) for _ in range(rng.randint(1, 4))]
            elif q < 0.75:
                a["examples"] = rng.choice(POOL[t])
    for m in r["metrics"] + r["events"] + r["spans"]:
        m["brief"] = rng.choice(["b", "Ein Brief ✓ «x»", "two\nlines", "'quoted' \"text\" `code`"])


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def same(a, b):
    return type(a) is type(b) and a == b or {type(a), type(b)} == {int, float} and a == b


def judge_value(a, v):
    """-> what is wrong with value `v` for the definition `a`, or None"""
    t = a["type"]
    if isinstance(t, dict):
        return None if any(same(m["value"], v) and type(m["value"]) is type(v) for m in t["members"]) else \
            f"{v!r} is no member of the enum"
    b = live.base_type(t)
    got = live.infer(v)
    ex = a.get("examples")
    if b != "any" and v != [] and got != b:
        return f"{v!r} is a {got}, not a {b}"
    if b == "any" and v is None:
        return "no value"
    if ex is None or live.is_template(a) or b.startswith("boolean"):
        return None
    pool = flat(ex) if isinstance(ex, list) else [ex]
    if b != "any":
        pool = [x for x in pool if live.infer(x) == b.replace("[]", "")]
    if b == "any" and len({type(x) for x in pool}) > 1:
        return None
    if pool and not all(any(same(x, y) for y in pool) for x in flat(v)):
        return f"{v!r} is none of the examples {ex!r}"
    return None


def judge_attrs(r, refs, got):
    by = {a["name"]: a for a in r["attributes"]}
    names = collections.Counter(x["key"] for x in got)
    want = {}
    # one template's name may begin another's: a key is of the longest one
    longest = {x: max((n for n, _ in refs if live.is_template(by[n]) and x.startswith(n + ".") and len(x) > len(n) + 1),
                      key=len, default=None) for x in names if x not in by}
    for n, _ in refs:
        if live.is_template(by[n]):
            k = [x for x in names if longest.get(x) == n]
            if len(k) != 1:
                return f"template attribute {n}: sent as {k}"
            want[k[0]] = n
        else:
            want[n] = n
    if dict(names) != {k: 1 for k in want}:
        return f"attributes {sorted(names.elements())}, expected {sorted(want)}"
    for x in got:
        e = judge_value(by[want[x["key"]]], otlp.from_any(x.get("value")))
        if e:
            return f"attribute {x['key']}: {e}"
    return None


def collect(requests):
    """-> spans, metrics, logs as decoded, and what could not be understood"""
    spans, metrics, logs, bad = [], [], [], []
    kinds = {p: k for k, p in otlp.PATHS.items()}
    lists = {"traces": (spans, "resource_spans", "scope_spans", "spans"),
             "metrics": (metrics, "resource_metrics", "scope_metrics", "metrics"),
             "logs": (logs, "resource_logs", "scope_logs", "log_records")}
    for path, msg, malformed in requests:
        k = kinds.get(path)
        if malformed or k not in lists:
            bad.append(f"unexpected request to {path}")
            continue
        out, a, b, d = lists[k]
        for x in otlp.decode(otlp.REQUESTS[k], msg).get(a, []):
            for y in x.get(b, []):
                out += y.get(d, [])
    return spans, metrics, logs, bad


def point(m):
    """-> instrument, data points"""
    for k in ("gauge", "sum", "histogram"):
        if k in m:
            ins = k if k != "sum" else "counter" if m["sum"].get("is_monotonic") else "updowncounter"
            return ins, m[k].get("data_points", [])
    return "none", []


def judge(r, fmt, requests):
    spans, metrics, logs, bad = collect(requests)
    out = list(bad)
    wrap = [s for s in spans if s.get("name") == "otel.weaver.emit"]
    spans = [s for s in spans if s.get("name") != "otel.weaver.emit"]
    if len(wrap) != 1:
        out.append(f"{len(wrap)} enclosing spans")
    want = {("span." if fmt == "v1" else "") + s["name"]: s for s in r["spans"]}
    got = collections.Counter(s.get("name") for s in spans)
    if got != collections.Counter(list(want)):
        out.append(f"spans {sorted(map(str, got.elements()))[:30]}, expected {sorted(want)[:30]}")
    for s in spans:
        d = want.get(s.get("name"))
        if not d:
            continue
        if s.get("kind", 0) != KINDS[d["kind"]]:
            out.append(f"span {s['name']}: kind {s.get('kind')}, defined as {d['kind']}")
        if wrap and (s.get("trace_id") != wrap[0].get("trace_id") or s.get("parent_span_id") != wrap[0].get("span_id")):
            out.append(f"span {s['name']} is not a child of the enclosing span")
        e = judge_attrs(r, d["attributes"], s.get("attributes", []))
        if e:
            out.append(f"span {s['name']}: {e}")
        if s.get("dropped_attributes_count"):
            out.append(f"span {s['name']}: attributes dropped")
    ids = collections.Counter(s.get("span_id") for s in spans)
    if any(n > 1 for n in ids.values()):
        out.append("span ids are not unique")
    want = {m["name"]: m for m in r["metrics"]}
    got = collections.Counter(m.get("name") for m in metrics)
    if got != collections.Counter(list(want)):
        out.append(f"metrics {sorted(map(str, got.elements()))[:30]}, expected {sorted(want)[:30]}")
    for m in metrics:
        d = want.get(m.get("name"))
        if not d:
            continue
        ins, pts = point(m)
        if ins != d["instrument"]:
            out.append(f"metric {m['name']}: sent as {ins}, defined as {d['instrument']}")
        if m.get("unit", "") != d["unit"]:
            out.append(f"metric {m['name']}: unit {m.get('unit')!r}, defined as {d['unit']!r}")
        if m.get("description", "") != d["brief"]:
            out.append(f"metric {m['name']}: description {m.get('description')!r}, defined as {d['brief']!r}")
        if len(pts) != 1:
            out.append(f"metric {m['name']}: {len(pts)} data points")
        for p in pts:
            e = judge_attrs(r, d["attributes"], p.get("attributes", []))
            if e:
                out.append(f"metric {m['name']}: {e}")
    want = {e["name"]: e for e in r["events"]}
    got = collections.Counter(x.get("event_name") for x in logs)
    if got != collections.Counter(list(want)):
        out.append(f"events {sorted(map(str, got.elements()))[:30]}, expected {sorted(want)[:30]}")
    for x in logs:
        d = want.get(x.get("event_name"))
        if d:
            e = judge_attrs(r, d["attributes"], x.get("attributes", []))
            if e:
                out.append(f"event {x['event_name']}: {e}")
    return out, len(spans) + len(metrics) + len(logs)


def build(c, base, rng, fmt, big=False):
    r = live.gen(rng)
    if big:
        r = grown(rng, r)
    enrich(rng, r)
    if fmt == "v1":
        live.drop_refinements(r)
    files = live.as_v1(rng, r) if fmt == "v1" else live.as_v2(rng, r)
    root = write_tree(os.path.join(base, "reg"), files)
    return r, root, (["--v2"] if fmt == "v2" else [])


def grown(rng, r):
    """More signals than any queue, and a signal with more attributes than any limit."""
    n = rng.choice([600, 2100, 2700])
    names = [a["name"] for a in r["attributes"]]
    wide = [f"wide.a{i}" for i in range(160)]
    r["attributes"] += [{"name": w, "type": "int", "brief": "b", "stability": "stable"} for w in wide]
    r["metrics"] = [{"name": f"m{i}.x", "brief": "b", "attributes": [], "stability": "stable", "unit": "1",
                     "instrument": ["counter", "gauge", "updowncounter", "histogram"][i % 4]} for i in range(n)]
    r["events"] = [{"name": f"e{i}.x", "brief": "b", "attributes": [], "stability": "stable"} for i in range(n)]
    r["spans"] = [{"name": f"s{i}.x", "brief": "b", "attributes": [], "stability": "stable", "kind": "client"}
                  for i in range(n)]
    for l in (r["metrics"], r["events"], r["spans"]):
        l[rng.randrange(n)]["attributes"] = [(w, None) for w in wide]
        for _ in range(40):
            s = rng.choice(l)
            if not s["attributes"]:
                s["attributes"] = [(x, None) for x in rng.sample(names, min(3, len(names)))]
    return r


def case(c, i, big=False):
    rng = c.rng("big" if big else "case", i)
    base = c.dir(f"{'b' if big else 'k'}{i}")
    fmt = ["v2", "v1"][i % 2]
    r, root, flags = build(c, base, rng, fmt, big)
    key = f"{'big' if big else 'case'}{i}"
    args = ["registry", "emit", "-r", root, *flags, "--skip-policies"]
    mode = "collector" if big else ["collector", "collector", "live-check", "refuse", "stdout", "collector"][i % 6]
    pert = i if i % 4 == 0 else None
    c.count("mode:" + mode)
    if mode == "stdout":
        res = c.run(args + ["--stdout"], perturb=pert)
        if res.rc != 0:
            c.violation(f"{key}/exit", res.brief(), root)
            return
        text = res.out
        n = 0
        for title, k, want in (("Name  *:", "metric", [m["name"] for m in r["metrics"]]),
                               ("Name  *:", "span", [("span." if fmt == "v1" else "") + s["name"] for s in r["spans"]]),
                               ("Event ?Name *:", "event", [e["name"] for e in r["events"]])):
            for w in want:
                n += 1
                seen = len(re.findall(rf'(?m)^\s*(?:{title})\s*"?{re.escape(w)}"?\s*$', text))
                if seen != 1:
                    c.violation(f"{key}/stdout", f"{k} {w} is written {seen} times\n{res.brief(20000)}", root)
                    return
        c.saw(stable_hash([key, mode]), n)
        return
    if mode == "live-check":
        rc = otlp.Receiver(c, ["registry", "live-check", "-r", root, *flags, "--skip-policies", "--format", "json", "--no-stream"],
                           base)
        try:
            res = c.run(args + ["--endpoint", f"http://127.0.0.1:{rc.port}"], perturb=pert)
            rc.stop()
            st, out, err = rc.wait()
        finally:
            if rc.p.poll() is None:
                rc.kill()
        if res.rc != 0 or st is None:
            c.violation(f"{key}/exit", res.brief() + f"\nlive-check: {st} {err[-800:]}", root)
            return
        rep = json.loads(out)
        names = {}
        for s in rep["samples"]:
            (k, x), = s.items()
            if k == "resource" or k == "span" and x["name"] == "otel.weaver.emit":
                continue
            if k == "instrumentation_scope":
                continue
            names.setdefault(k, collections.Counter())[x.get("name") or x.get("event_name")] += 1
            for path, (kind, fs) in live.observed([s]).items():
                for f in (fs or {}).get("all_advice", []):
                    c.count("finding:" + f["id"])
                    if f["id"] in FORBIDDEN:
                        c.violation(f"{key}/finding", f"emitting reports {f['id']} on {path}: {f['message']}\n"
                                    + json.dumps(s)[:2000], root)
                        return
        want = {"span": collections.Counter(("span." if fmt == "v1" else "") + s["name"] for s in r["spans"]),
                "metric": collections.Counter(s["name"] for s in r["metrics"]),
                "log": collections.Counter(s["name"] for s in r["events"])}
        want = {k: v for k, v in want.items() if v}
        if names != want:
            c.violation(f"{key}/received", f"live check received {names}\nexpected {want}", root)
            return
        c.saw(stable_hash([key, mode]), sum(sum(v.values()) for v in want.values()))
        return
    refuse = None
    if mode == "refuse":
        kind = rng.choice([k for k, l in (("traces", [1]), ("metrics", r["metrics"]), ("logs", r["events"])) if l])
        refuse = otlp.PATHS[kind]
    sv = h2.Server(refuse=refuse)
    res = c.run(args + ["--endpoint", f"http://127.0.0.1:{sv.port}"], perturb=pert)
    sv.close()
    if sv.errors:
        raise RuntimeError(f"collector: {sv.errors}")
    if mode == "refuse":
        c.count("refused:" + kind)
        if res.rc == 0 or res.panicked:
            c.violation(f"{key}/refused", f"the collector refused the {kind}, yet\n{res.brief()}", root)
        c.saw(stable_hash([key, mode, kind]))
        return
    if res.rc != 0:
        c.violation(f"{key}/exit", res.brief(), root)
        return
    bad, n = judge(r, fmt, sv.requests)
    c.count("signals", n)
    c.count("requests", len(sv.requests))
    c.saw(stable_hash([key, n]), n, sample={"case": key, "format": fmt, "signals": n, "requests": len(sv.requests)}
          if i < 4 else None)
    if bad:
        c.violation(f"{key}/emitted", "\n".join(bad[:20]) + "\n" + res.brief(), root)


def main(tier, seed):
    c = Check("C15", tier, seed, "tested",
              "an evaluation is one emitted signal compared with its definition, or one refused emission; distinct ones "
              "differ in registry and in how the telemetry was received",
              ["metric names and units are ones the OpenTelemetry API accepts (other instruments are dropped by the SDK)",
               "enums have members"])
    c.setup(shim=True)
    k = c.n(240, 3000)
    b = c.n(6, 40)
    c.map(lambda x: case(c, x[1], x[0]), [(True, j) for j in range(b)] + [(False, j) for j in range(k)])
    return c.finish()
