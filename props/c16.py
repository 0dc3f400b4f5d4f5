"""C16: `registry infer` writes a registry of exactly the telemetry it received.

Senders of our own transmit a generated set of spans, metrics, logs, profiles and resources to `registry infer`, in some
order, batching and number of connections. The file written is read as YAML and, through `registry resolve`, as a
registry; both are compared with what the set of telemetry calls for. The same set is sent again in another order and
batching, and - when names are used consistently - live-checked against the inferred registry."""
import collections
import json
import os
import random
import shutil
import threading

import yaml

from lib import h2, live, otlp
from lib.common import Check, diff_json, stable_hash
from props import c10
from props.c02 import Loader

STR = ["a", "GET", "", "true", "null", "~", "1", "1.5", "1e3", "0x1F", "2024-01-01", "yes", "- x", "a: b", "#c", "'q'",
       "\"d\"", "line\nbreak", " lead", "tail ", "ünï ✓", "{x}", "[y]", "*z", "&w", "!t", "%p", "@at", "`b`", "\ttab", "|",
       ">", "x" * 300, "\u2028", "\u00a0"]
INT = [0, 1, -1, 7, 200, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 404, 500, 503]
DBL = [0.5, -2.25, 1e300, 3.0, 1e-9, 0.1, 1e21, 123456789.125]
FIT = {"string": STR, "int": INT, "double": DBL, "boolean": [True, False],
       "string[]": [["a"], ["a", "b"], ["true"]], "int[]": [[1], [1, 2]], "double[]": [[1.5], [2.5, 1.0]],
       "boolean[]": [[True], [True, False]]}
TYPELESS = [None, [], {"k": 1}, b"\x00\xff", [None], [1, "a"]]
NAMES = ["http.method", "http.request.size", "a", "A.B", "ünï.x", "sp ace", "x-y.z", "", "true", "null", "1", "1.5", "a: b",
         "- x", "it's", "\"q\"", "l\nb", "k.v.w", "k.v", "k", "_u", ".dot", "trail.", "a..b", "#h", "{c}", "~", "@", "%d", "HTTP.method", "http.Request.size", "a.b", "K.v", "k_v"]
SPANS = ["GET /x", "", "a.b", "ünï", "true", "1", "null", "a: b", "SELECT * FROM t", "it's \"q\"", "x\ny", "k.v", "HTTP GET",
         "- x", "~", "{id}", "get /x", "A.B", "TRUE"]
METRICS = ["m.one", "http.server.duration", "1", "true", "ünï", "a b", "k.v", "it's", "#m", "M.one", "m.One", "http.Server.duration"]
EVENTS = ["exception", "e.one", "GET /x", "true", "1", "k.v", "a: b", "m.one", "x\ny", "Exception", "EXCEPTION", "E.one", "get /x", "K.V"]
UNITS = ["", "1", "s", "By", "{request}", "By/s", "°C", "%", "true", "1.0"]


class Gen:
    def __init__(self, rng, consistent):
        self.rng, self.consistent = rng, consistent
        self.types, self.kinds, self.ins, self.units = {}, {}, {}, {}
        self.pool = rng.sample(NAMES, rng.randint(3, 14)) + [f"p{i}.q" for i in range(rng.choice([0, 4, 40]))]
        self.few = {}

    def fixed(self, table, key, options):
        if not self.consistent:
            return self.rng.choice(options)
        return table.setdefault(key, self.rng.choice(options))

    def value(self, n):
        rng = self.rng
        if rng.random() < 0.12:
            return rng.choice(TYPELESS)
        t = self.fixed(self.types, n, list(FIT))
        vals = self.few.setdefault((n, t), rng.sample(FIT[t], min(len(FIT[t]), rng.choice([1, 2, 5, 9]))))
        return rng.choice(vals)

    def attrs(self, hi=5):
        return [{"key": n, **({"value": otlp.any_value(self.value(n))} if self.rng.random() < 0.97 else {})}
                for n in self.rng.sample(self.pool, min(len(self.pool), self.rng.randint(0, hi)))]

    def item(self):
        """-> kind, resource, message"""
        rng = self.rng
        res = {"attributes": self.attrs(3)} if rng.random() < 0.4 else None
        k = rng.choice(["traces", "traces", "metrics", "metrics", "logs", "logs", "profiles"])
        if k == "traces":
            n = rng.choice(SPANS)
            m = {"name": n, "kind": self.fixed(self.kinds, n, [0, 1, 2, 3, 4, 5]), "attributes": self.attrs(),
                 "trace_id": bytes(range(1, 17)), "span_id": bytes(range(8, 16)),
                 "events": [{"name": rng.choice(EVENTS), "attributes": self.attrs(3)} for _ in range(rng.choice([0, 0, 1, 2]))],
                 "links": [{"trace_id": bytes(16), "span_id": bytes(8), "attributes": [{"key": "link.only", "value":
                           {"int_value": 1}}]}] if rng.random() < 0.2 else []}
        elif k == "metrics":
            n = rng.choice(METRICS)
            ins = self.fixed(self.ins, n, ["counter", "updowncounter", "gauge", "histogram", "exp", "summary", "none"])
            m = {"name": n, "unit": self.fixed(self.units, n, UNITS)}
            ex = [{"filtered_attributes": [{"key": "exemplar.only", "value": {"int_value": 1}}], "as_int": 1}]
            pts = [{"attributes": self.attrs(4)} for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            for p in pts:
                if rng.random() < 0.2 and ins != "summary":
                    p["exemplars"] = ex
            if ins in ("counter", "updowncounter"):
                m["sum"] = {"data_points": pts, "is_monotonic": ins == "counter", "aggregation_temporality": rng.choice([1, 2])}
            elif ins != "none":
                f = {"exp": "exponential_histogram"}.get(ins, ins)
                m[f] = {"data_points": pts}
        elif k == "logs":
            m = {"event_name": rng.choice(EVENTS + [""]), "attributes": self.attrs(), "severity_number": 9}
        else:
            m = {"original_payload_format": "pprof"}
        return k, res, m


def expected(items):
    """What the telemetry calls for. Everything seen is kept as a set; the comparison decides what must be unique."""
    at, spans, metrics, events = {}, {}, {}, {}

    def see(l):
        for a in l:
            v = otlp.shown(otlp.from_any(a.get("value")))
            t = None if v is None else live.infer(v)
            at.setdefault(a["key"], []).append((t, v))
        return {a["key"] for a in l}
    for k, res, m in items:
        if res:
            see(res.get("attributes", []))
        if k == "traces":
            s = spans.setdefault(m["name"], {"kinds": set(), "attributes": set()})
            s["kinds"].add(["internal", "internal", "server", "client", "producer", "consumer"][m["kind"]])
            s["attributes"] |= see(m["attributes"])
            for e in m["events"]:
                events.setdefault(e["name"], set()).update(see(e["attributes"]))
        elif k == "metrics":
            f = next((x for x in ("sum", "gauge", "histogram", "exponential_histogram") if x in m), None)
            if f:
                ins = {"exponential_histogram": "histogram"}.get(f, f)
                if f == "sum":
                    ins = "counter" if m["sum"]["is_monotonic"] else "updowncounter"
                d = metrics.setdefault(m["name"], {"instruments": set(), "units": set(), "attributes": set()})
                d["instruments"].add(ins)
                d["units"].add(m["unit"])
                for p in m[f]["data_points"]:
                    d["attributes"] |= see(p["attributes"])
        elif k == "logs" and m["event_name"]:
            events.setdefault(m["event_name"], set()).update(see(m["attributes"]))
    return at, spans, metrics, events


def num(x):
    return float(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x


def judge(items, doc, resolved=False):
    """`doc`: {attributes, spans, metrics, events} as written (or as resolved)"""
    at, spans, metrics, events = expected(items)
    out = []

    def named(l, key):
        c = collections.Counter(x.get(key) for x in l)
        return {x.get(key): x for x in l}, [k for k, n in c.items() if n > 1]

    def compare(what, got, dup, want):
        if dup:
            out.append(f"{what} defined more than once: {dup}")
        if set(got) != set(want):
            out.append(f"{what}: missing {sorted(map(repr, set(want) - set(got)))[:8]}, "
                       f"unexpected {sorted(map(repr, set(got) - set(want)))[:8]}")
        return [k for k in want if k in got]

    def refs(x):
        return sorted(y["key" if resolved else "ref"] for y in x.get("attributes", []))
    got, dup = named(doc.get("attributes", []), "key")
    for k in compare("attributes", got, dup, at):
        a, seen = got[k], at[k]
        types = {t for t, _ in seen if t} or {"string"}
        if a["type"] not in types:
            out.append(f"attribute {k!r}: type {a['type']!r}, sent as {sorted(types)}")
            continue
        ex = a.get("examples")
        ex = [] if ex is None else ex if isinstance(ex, list) else [ex]
        sent = []
        for t, v in seen:
            if t == a["type"] and not isinstance(v, list) and not any(v == w for w in sent):
                sent.append(v)
        num_ex = [num(e) for e in ex]
        if any(isinstance(e, list) for e in ex):
            continue
        if a["type"] in ("string", "boolean", "int") and any(live.infer(e) != a["type"] for e in ex) or \
                a["type"] == "double" and any(live.infer(e) not in ("int", "double") for e in ex):
            out.append(f"attribute {k!r}: examples {ex!r} of a {a['type']}")
        elif any(e not in [num(v) for v in sent] for e in num_ex):
            out.append(f"attribute {k!r}: examples {ex!r}, sent {sent!r}")
        elif len({repr(e) for e in num_ex}) != len(num_ex):
            out.append(f"attribute {k!r}: examples repeat: {ex!r}")
        elif len(ex) > 5 or len(types) == 1 and len(ex) < min(5, len(sent)):
            out.append(f"attribute {k!r}: {len(ex)} examples for {len(sent)} distinct values {ex!r}")
    got, dup = named(doc.get("spans", []), "type")
    for k in compare("spans", got, dup, spans):
        if got[k]["kind"] not in spans[k]["kinds"]:
            out.append(f"span {k!r}: kind {got[k]['kind']}, sent as {sorted(spans[k]['kinds'])}")
        if refs(got[k]) != sorted(spans[k]["attributes"]):
            out.append(f"span {k!r}: attributes {refs(got[k])}, sent {sorted(spans[k]['attributes'])}")
    got, dup = named(doc.get("metrics", []), "name")
    for k in compare("metrics", got, dup, metrics):
        if got[k]["instrument"] not in metrics[k]["instruments"] or got[k]["unit"] not in metrics[k]["units"]:
            out.append(f"metric {k!r}: {got[k]['instrument']} {got[k]['unit']!r}, sent as {metrics[k]}")
        if refs(got[k]) != sorted(metrics[k]["attributes"]):
            out.append(f"metric {k!r}: attributes {refs(got[k])}, sent {sorted(metrics[k]['attributes'])}")
    got, dup = named(doc.get("events", []), "name")
    for k in compare("events", got, dup, events):
        if refs(got[k]) != sorted(events[k]):
            out.append(f"event {k!r}: attributes {refs(got[k])}, sent {sorted(events[k])}")
    return out, len(at) + len(spans) + len(metrics) + len(events)


def requests(rng, items):
    """Packs the items, in some order, into export requests."""
    items = list(items)
    rng.shuffle(items)
    size = rng.choice([1, 1, 2, 5, 50])
    byk = collections.defaultdict(list)
    out = []
    F = {"traces": ("resource_spans", "scope_spans", "spans"), "metrics": ("resource_metrics", "scope_metrics", "metrics"),
         "logs": ("resource_logs", "scope_logs", "log_records"),
         "profiles": ("resource_profiles", "scope_profiles", "profiles")}

    def flush(k):
        a, b, d = F[k]
        rs = []
        for res, m in byk.pop(k, []):
            if rs and rs[-1].get("resource") == res and rng.random() < 0.7:
                if rng.random() < 0.5:
                    rs[-1][b][-1][d].append(m)
                else:
                    rs[-1][b].append({d: [m]})
            else:
                rs.append({**({"resource": res} if res else {}), b: [{"scope": {"name": "lib", "attributes": [
                    {"key": "scope.only", "value": {"int_value": 1}}]}, d: [m]}]})
        if rs:
            out.append((k, otlp.encode(otlp.REQUESTS[k], {a: rs})))
    for k, res, m in items:
        byk[k].append((res, m))
        if len(byk[k]) >= size:
            flush(k)
    for k in list(byk):
        flush(k)
    if rng.random() < 0.3:
        out.insert(rng.randrange(len(out) + 1), (rng.choice(list(F)), b""))
    return out


def send(rc, rng, reqs):
    """Over one or several connections; -> requests not acknowledged"""
    n = rng.choice([1, 1, 2, 4])
    bad = []

    def one(part, seed):
        r = random.Random(seed)
        cl = rc.client()
        for k, msg in part:
            st = cl.call(otlp.PATHS[k], msg, r.choice([None, None, 9, 64]))
            if st != 0:
                bad.append((k, st))
        cl.close()
    ts = [threading.Thread(target=one, args=(reqs[j::n], rng.random())) for j in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return bad


def infer(c, base, tag, rng, items, key, perturb):
    """-> text of the file, or None; reports what is wrong on the way"""
    out = os.path.join(base, tag)
    rc = otlp.Receiver(c, ["registry", "infer", "-o", out], base, grpc="--grpc-port", perturb=perturb)
    try:
        bad = send(rc, rng, requests(rng, items))
        how = rng.choice(["http", "int", "hup"])
        if how == "http":
            rc.stop()
        else:
            rc.signal({"int": 2, "hup": 1}[how])
        st, so, se = rc.wait()
    finally:
        if rc.p.poll() is None:
            rc.kill()
    if bad:
        c.violation(f"{key}/refused", f"requests not acknowledged: {bad[:5]}\n{se[-1500:]}")
        return None
    if st != 0:
        c.violation(f"{key}/exit", f"infer ended with {st}\n{se[-1500:]}")
        return None
    p = os.path.join(out, "registry.yaml")
    if not os.path.exists(p):
        return ""
    with open(p, encoding="utf-8") as f:
        return f.read()


def strip(doc):
    d = json.loads(json.dumps(doc))
    for a in d.get("attributes", []):
        a.pop("examples", None)
    return d


def case(c, i):
    rng = c.rng("case", i)
    base = c.dir(f"k{i}")
    consistent = i % 3 != 2
    g = Gen(rng, consistent)
    items = [g.item() for _ in range(rng.choice([0, 1, 2, 5, 12, 40, 120]) if i % 20 else 0)]
    key = f"case{i}"
    pert = i if i % 3 == 0 else None
    text = infer(c, base, "a", rng, items, key, pert)
    if text is None:
        return
    at, spans, metrics, events = expected(items)
    n = len(at) + len(spans) + len(metrics) + len(events)
    c.saw(stable_hash([key, text]), max(1, n), sample={"case": key, "items": len(items), "definitions": n} if i < 6 else None)
    c.count("items", len(items))
    if n == 0:
        if text:
            c.violation(f"{key}/nothing", "nothing was sent that a registry describes, yet:\n" + text[:1500])
        c.count("empty")
        return
    try:
        doc = yaml.load(text, Loader)
    except yaml.YAMLError as e:
        c.violation(f"{key}/yaml", f"the file is not YAML: {e}\n{text[:3000]}")
        return
    if not isinstance(doc, dict) or doc.get("file_format") != "definition/2":
        c.violation(f"{key}/format", "no definition/2 file\n" + text[:1500])
        return
    extra = set(doc) - {"file_format", "attributes", "spans", "metrics", "events"}
    bad, _ = judge(items, doc)
    if extra:
        bad.append(f"unexpected sections {sorted(extra)}")
    if bad:
        c.violation(f"{key}/written", "\n".join(bad[:12]) + "\n" + text[:3000], base)
        return
    root = os.path.join(base, "a")
    res = c.run(["registry", "check", "-r", root, "--skip-policies"])
    if res.rc != 0:
        c.violation(f"{key}/invalid", "the inferred registry is not valid\n" + res.brief(4000), base)
        return
    res = c.run(["registry", "resolve", "-r", root, "--v2", "--skip-policies", "-f", "json"])
    if res.rc != 0:
        c.violation(f"{key}/resolve", res.brief(4000), base)
        return
    bad, _ = judge(items, res.json()["registry"], True)
    if bad:
        c.violation(f"{key}/resolved", "\n".join(bad[:12]) + "\n" + text[:3000], base)
        return
    if i % 2 == 0 and len(items) > 1:                  # another order and batching of the same telemetry
        c.count("reordered")
        again = infer(c, base, "b", rng, items, key, pert)
        if again is None:
            return
        doc2 = yaml.load(again, Loader)
        bad, _ = judge(items, doc2)
        if bad:
            c.violation(f"{key}/written", "\n".join(bad[:12]) + "\n" + again[:3000], base)
            return
        if consistent and strip(doc) != strip(doc2):
            c.violation(f"{key}/order", "the registry depends on the order of the telemetry\n" +
                        "\n".join(diff_json(strip(doc), strip(doc2))), base)
            return
        c.saw(stable_hash([key, "again", again]), n)
    if i % 4 == 1:                                     # the same history twice gives the same file
        c.count("repeated")
        texts = set()
        order = requests(rng, items)
        for j in range(2):
            rc = otlp.Receiver(c, ["registry", "infer", "-o", os.path.join(base, f"r{j}")], base, grpc="--grpc-port")
            try:
                cl = rc.client()
                for k, msg in order:
                    cl.call(otlp.PATHS[k], msg)
                rc.stop()
                rc.wait()
            finally:
                if rc.p.poll() is None:
                    rc.kill()
            with open(os.path.join(base, f"r{j}", "registry.yaml"), encoding="utf-8") as f:
                texts.add(f.read())
        if len(texts) != 1:
            c.violation(f"{key}/repeat", "one history, two different registries\n" + "\n=====\n".join(sorted(texts))[:5000], base)
            return
        c.saw(stable_hash([key, "repeat"]))
    if consistent and i % 5 == 0:
        c.count("live_checked")
        rc = otlp.Receiver(c, ["registry", "live-check", "-r", root, "--v2", "--skip-policies", "--format", "json", "--no-stream"],
                           base)
        try:
            send(rc, rng, requests(rng, items))
            rc.stop()
            st, so, se = rc.wait()
        finally:
            if rc.p.poll() is None:
                rc.kill()
        ok = {n for n in at}
        for s in json.loads(so)["samples"]:
            (k, x), = s.items()
            if k in ("instrumentation_scope", "profile"):
                continue
            for path, (kind, fs) in live.observed([s]).items():
                for f in (fs or {}).get("all_advice", []):
                    name = (f.get("context") or {}).get("attribute_name") or (f.get("context") or {}).get("attribute_key")
                    if f["id"] in ("missing_metric", "unit_mismatch", "unexpected_instrument", "type_mismatch", "missing_event") \
                            and not (k == "metric" and x["instrument"] in ("Summary", "Unspecified")) \
                            and (k != "log" or x.get("event_name")):      # logs without an event name are not inferred from
                        c.violation(f"{key}/live", f"{f['id']} on {path}: {f['message']}\n{json.dumps(s)[:1500]}", base)
                        return
                    if f["id"] == "missing_attribute" and name in ok:
                        c.violation(f"{key}/live", f"{f['id']} on {path}: {f['message']}\n{json.dumps(s)[:1500]}", base)
                        return
        c.saw(stable_hash([key, "live"]), len(items))
    shutil.rmtree(base, ignore_errors=True)


def main(tier, seed):
    c = Check("C16", tier, seed, "tested",
              "an evaluation is one attribute, span, metric or event of an inferred registry compared with the telemetry "
              "sent; distinct ones come from different telemetry, order or batching",
              ["where a name is sent with several types, kinds, instruments or units, any of those sent is accepted",
               "examples: at most five of the values sent"])
    c.setup(shim=True)
    c.map(lambda i: case(c, i), range(c.n(150, 2000)))
    return c.finish()
